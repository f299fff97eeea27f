import enum
from spins.invdes.problem_graph.optplan.context import *
GLOBAL_CONTEXT_STACK = OptplanContextStack()
GLOBAL_CONTEXT_STACK.push(OptplanContext())

class NodeMetaType(enum.Enum):
    OPTPLAN_NODE = 'optplan_node'
    TRANSFORMATION = 'transformation'

def register_node_type(node_meta_type: str=NodeMetaType.OPTPLAN_NODE, context_stack: OptplanContextStack=GLOBAL_CONTEXT_STACK):

    def decorator(cls):
        assert len(cls._schema.fields['type'].choices) == 1
        node_type = cls._schema.fields['type'].choices[0]

        def not_implemented(unused_params, unused_workspace):
            raise NotImplementedError('Node type has no creator implemented: {}'.format(node_type))
        context_stack.peek().register_node_type(node_meta_type, node_type, cls, not_implemented)
        return cls
    return decorator

def register_node(model_class: models.ModelMeta, node_meta_type: str=NodeMetaType.OPTPLAN_NODE, context_stack: OptplanContextStack=GLOBAL_CONTEXT_STACK):
    assert len(model_class._schema.fields['type'].choices) == 1
    node_type = model_class._schema.fields['type'].choices[0]

    def _claim_polymorphic(data):
        return data['type'] == node_type
    model_class._claim_polymorphic = _claim_polymorphic

    def decorator(fun: optplan.CreatorFunction):
        context_stack.peek().register_node_type(node_meta_type, node_type, model_class, fun)
        return fun
    return decorator

def register_transformation(model_class: models.ModelMeta, context_stack: OptplanContextStack=GLOBAL_CONTEXT_STACK):
    return register_node(model_class, NodeMetaType.TRANSFORMATION, context_stack)
from spins.invdes.problem_graph.optplan.optplan import *
from spins.invdes.problem_graph.optplan.schema_em import *
from spins.invdes.problem_graph.optplan.schema_function import *
from spins.invdes.problem_graph.optplan.schema_monitor import *
from spins.invdes.problem_graph.optplan.schema_opt import *
from spins.invdes.problem_graph.optplan.schema_param import *
from spins.invdes.problem_graph.optplan.io import *
GLOBAL_CONTEXT_STACK.push(OptplanContext())
from spins.invdes.problem_graph.schema_utils import polymorphic_model_type as define_schema_type
from schematics import types
