from spins import goos

class Material(goos.Model):
    mat_name = goos.types.StringType()
    mat_file = goos.types.StringType()
    index = goos.schema_types.ComplexNumberType()

class ConstantMaterial:

    def __init__(self, index: complex) -> None:
        self._index = index

    def permittivity(self, wlen: float) -> complex:
        return self._index ** 2

    def __eq__(self, other) -> bool:
        if type(other) == ConstantMaterial:
            return self._index == other._index
        return False

def get_material(mat: Material):
    if mat is None:
        return None
    return ConstantMaterial(mat.to_native()['index'])
