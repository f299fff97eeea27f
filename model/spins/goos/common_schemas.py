from spins import goos

def Vec3d(**kwargs) -> goos.types.ListType:
    return goos.types.ListType(goos.types.FloatType(), min_size=3, max_size=3, **kwargs)

class Box3d(goos.Model):
    center = Vec3d()
    extents = Vec3d()
