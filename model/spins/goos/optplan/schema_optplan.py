import numbers
import warnings
from schematics import models
from spins.goos import optplan

class ReferenceType(optplan.types.StringType):

    def __init__(self, model_class: models.ModelMeta, **kwargs) -> None:
        self._reference_type = model_class
        super().__init__(**kwargs)

    @property
    def reference_type(self) -> models.ModelMeta:
        return self._reference_type

class NodeSchema(optplan.Model):
    name = optplan.types.StringType(required=True)

    def __init__(self, *args, **kwargs) -> None:
        super().__init__(*args, **kwargs)
        if not self.name:
            from .schema import generate_name
            self.name = generate_name(self.type)
        if self.name.startswith('__'):
            raise ValueError('Name cannot start with two underscores (__), got {}'.format(self.name))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for field_name, field_type in self.fields.items():
                if not isinstance(field_type, ReferenceType):
                    continue
                field_value = self[field_name]
                if field_value is None:
                    continue
                elif isinstance(field_value, (str, field_type.reference_type)):
                    continue
                elif isinstance(field_value, optplan.ProblemGraphNode):
                    if issubclass(field_value.Schema, field_type.reference_type):
                        continue
                elif isinstance(field_value, optplan.WildcardSchema):
                    continue
                raise ValueError('Expected type {} for field {}, got {}'.format(field_type.reference_type, field_name, type(field_value)))

class ProblemGraphNodeSchema(NodeSchema):
    pass

class ActionNodeSchema(NodeSchema):
    pass

class WildcardSchema:
    pass

class OptplanPolyModelType(optplan.types.CompoundType):

    def __init__(self, node_meta_type: str, **kwargs):
        self._node_meta_type = node_meta_type
        optplan.types.CompoundType.__init__(self, **kwargs)

    def _convert(self, value, context):
        if value is None:
            return None
        model_class = optplan.GLOBAL_CONTEXT_STACK.get_node(value['type']).schema
        if not issubclass(model_class, self._node_meta_type):
            raise ValueError("Unknown node, got node type '{}' with metatype '{}'".format(value['type'], self._node_meta_type))
        return model_class(value, context=context)

    def _export(self, value, format, context):
        return value.export(context=context)

class OptimizationPlanSchema(optplan.Model):
    version = optplan.types.StringType(required=True, default='0.3.0')
    nodes = optplan.types.ListType(OptplanPolyModelType(ProblemGraphNodeSchema))
    actions = optplan.types.ListType(OptplanPolyModelType(ActionNodeSchema), default=[])
