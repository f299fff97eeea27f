import numbers
import warnings
from schematics import models
from schematics import types
from spins.invdes.problem_graph import optplan
from spins.invdes.problem_graph import schema_utils

class ReferenceType(types.StringType):

    def __init__(self, model_class: models.ModelMeta, **kwargs) -> None:
        self._reference_type = model_class
        super().__init__(**kwargs)

    @property
    def reference_type(self) -> models.ModelMeta:
        return self._reference_type

class OptplanPolyModelType(types.CompoundType):

    def __init__(self, node_meta_type: str, **kwargs):
        self._node_meta_type = node_meta_type
        types.CompoundType.__init__(self, **kwargs)

    def _convert(self, value, context):
        if value is None:
            return None
        model_class = optplan.GLOBAL_CONTEXT_STACK.get_node_model(self._node_meta_type, value['type'])
        if model_class is None:
            raise ValueError("Unknown node, got node type '{}' with metatype '{}'".format(value['type'], self._node_meta_type))
        return model_class(value, context=context)

    def _export(self, value, format, context):
        if not value.__class__ in optplan.GLOBAL_CONTEXT_STACK.get_node_model_dict(self._node_meta_type).values():
            raise ValueError("Cannot export model with type '{}'".format(value.__class__))
        return value.export(context=context)

class ProblemGraphNode(schema_utils.Model):
    name = types.StringType(required=True)

    def __init__(self, *args, **kwargs) -> None:
        super().__init__(*args, **kwargs)
        if not self.name:
            from .io import generate_name
            self.name = generate_name(self.type)
        if self.name.startswith('__'):
            raise ValueError('Name cannot start with two underscores (__), got {}'.format(self.name))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for field_name, field_type in self.fields.items():
                if not isinstance(field_type, ReferenceType):
                    continue
                field_value = self[field_name]
                if field_value is None:
                    continue
                elif isinstance(field_value, (str, field_type.reference_type)):
                    continue
                raise ValueError('Expected type {} for field {}, got {}'.format(field_type.reference_type, field_name, type(field_value)))

class EmOverlap(ProblemGraphNode):
    pass

class EmSource(ProblemGraphNode):
    pass

class Function(ProblemGraphNode):

    def __add__(self, obj) -> 'optplan.Sum':
        if isinstance(obj, optplan.Sum):
            return obj.__add__(self)
        if isinstance(obj, optplan.Constant):
            return optplan.Sum(functions=[self, obj])
        if isinstance(obj, (numbers.Number, optplan.ComplexNumber)):
            return optplan.Sum(functions=[self, optplan.make_constant(obj)])
        if isinstance(obj, Function):
            return optplan.Sum(functions=[self, obj])
        raise TypeError('Attempting to add node with type {}'.format(type(obj)))

    def __mul__(self, obj) -> 'optplan.Product':
        if isinstance(obj, optplan.Product):
            return obj.__mul__(self)
        if isinstance(obj, optplan.Constant):
            return optplan.Product(functions=[self, obj])
        if isinstance(obj, (numbers.Number, optplan.ComplexNumber)):
            return optplan.Product(functions=[self, optplan.make_constant(obj)])
        if isinstance(obj, Function):
            return optplan.Product(functions=[self, obj])
        raise TypeError('Attempting to multiply node with type {}'.format(type(obj)))

    def __pow__(self, obj) -> 'optplan.Power':
        if isinstance(obj, numbers.Real):
            return optplan.Power(function=self, exp=obj)
        if isinstance(obj, optplan.Constant):
            if obj.value.imag != 0:
                raise ValueError('Attempting to raise object to a complex power.')
            return optplan.Power(function=self, exp=obj.value.real)
        raise TypeError('Attempting to raise objective to complex or non-constant power.')

    def __sub__(self, obj) -> 'optplan.Sum':
        return self + -obj

    def __truediv__(self, obj) -> 'optplan.Product':
        return self * obj ** (-1)

    def __neg__(self) -> 'optplan.Product':
        return -1 * self

    def __radd__(self, obj) -> 'optplan.Sum':
        return self.__add__(obj)

    def __rmul__(self, obj) -> 'optplan.Product':
        return self.__mul__(obj)

    def __rsub__(self, obj) -> 'optplan.Sum':
        return -self + obj

    def __rdiv__(self, obj) -> 'optplan.Product':
        return self ** (-1) * obj

class Monitor(ProblemGraphNode):
    pass

class Parametrization(ProblemGraphNode):
    pass

class SimulationSpaceBase(ProblemGraphNode):
    pass

class TransformationBase(schema_utils.Model):
    pass

class SetParam(schema_utils.Model):
    parameter = ReferenceType(Function)
    function = ReferenceType(Function)
    parametrization = ReferenceType(Parametrization)
    inverse = types.BooleanType()

class Transformation(schema_utils.Model):
    name = types.StringType()
    parametrization = ReferenceType(Parametrization)
    parameter_list = types.ListType(types.ModelType(SetParam))
    transformation = OptplanPolyModelType(optplan.NodeMetaType.TRANSFORMATION)

class OptimizationPlan(schema_utils.Model):
    version = types.StringType(required=True, default='0.2.3')
    nodes = types.ListType(OptplanPolyModelType(optplan.NodeMetaType.OPTPLAN_NODE))
    transformations = types.ListType(types.ModelType(Transformation))

def vec2d(**kwargs) -> types.ListType:
    return types.ListType(types.FloatType(), min_size=2, max_size=2, **kwargs)

def vec3d(**kwargs) -> types.ListType:
    return types.ListType(types.FloatType(), min_size=3, max_size=3, **kwargs)

class Box3d(schema_utils.Model):
    center = vec3d()
    extents = vec3d()

class ComplexNumber(schema_utils.Model):
    real = types.FloatType(default=0.0)
    imag = types.FloatType(default=0.0)
