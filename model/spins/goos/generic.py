from typing import List, Optional, Union
from spins import goos
from spins.goos import flows
from spins.goos import optplan

def cast(node: goos.ProblemGraphNode, cls_type, name: Optional[str]=None) -> goos.ProblemGraphNode:

    class CastOp(cls_type):
        node_type = 'goos.cast'
        goos_no_register = True
        Schema = CastSchema

        def __init__(self, node: goos.ProblemGraphNode, target_type: str):
            goos.ProblemGraphNode.__init__(self, node)
            self._node = node

        def eval(self, inputs):
            return inputs[0]

        def grad(self, inputs, grad_val):
            return [grad_val]

        def __getattr__(self, name: str):
            return getattr(self._node, name)
    return CastOp(node, cls_type.node_type, name=name)

def build_cast_op(node: goos.ProblemGraphNode, target_type: str, name: str) -> goos.ProblemGraphNode:
    return cast(node, optplan.GLOBAL_CONTEXT_STACK.get_node(target_type).creator, name=name)

class CastSchema(optplan.ProblemGraphNodeSchema, optplan.WildcardSchema):
    type = goos.ModelNameType('goos.cast')
    node = goos.ReferenceType(optplan.ProblemGraphNodeSchema)
    target_type = goos.types.StringType()
optplan.GLOBAL_CONTEXT_STACK.register_node('goos.cast', CastSchema, build_cast_op)

def rename(node: goos.ProblemGraphNode, name: str) -> goos.ProblemGraphNode:
    return cast(node, type(node), name=name)

class LogPrint(goos.Action):
    node_type = 'goos.log_print'

    def __init__(self, obj: Union[str, goos.ProblemGraphNode, List[goos.ProblemGraphNode]]=None) -> None:
        super().__init__()
        self._obj = obj

    def run(self, plan: goos.OptimizationPlan) -> None:
        if isinstance(self._obj, str):
            plan.logger.info(self._obj)
            return
        if isinstance(self._obj, goos.Function):
            nodes = [self._obj]
        else:
            nodes = self._obj
        values = plan.eval_nodes(nodes)
        for node, val in zip(nodes, values):
            plan.logger.info('{}: {}'.format(node._goos_name, val))

def log_print(*args, **kwargs) -> LogPrint:
    action = LogPrint(*args, **kwargs)
    goos.get_default_plan().add_action(action)
    return action
