from typing import List, Union
import dataclasses
from spins import goos
from spins.goos import generic
from spins.goos import flows

class ArrayFlow(flows.Flow):

    @dataclasses.dataclass
    class ConstFlags:
        flow_flags: List[flows.Flow.ConstFlags] = dataclasses.field(default_factory=lambda: [])

        def set_all(self, value: bool) -> None:
            for flow in self.flow_flags:
                flow.set_all(value)

        def __bool__(self):
            return all((flow for flow in self.flow_flags))

    @dataclasses.dataclass
    class Grad(flows.Flow.Grad):
        flows_grad: List[flows.Flow.Grad] = dataclasses.field(default_factory=lambda: [])

        def __iadd__(self, value):
            for i in range(len(self.flows_grad)):
                if not self.flows_grad[i]:
                    self.flows_grad[i] = value[i]
                elif value[i]:
                    self.flows_grad[i] += value[i]
            return super().__iadd__(value)

        def __getitem__(self, key: int) -> flows.Flow:
            return self.flows_grad[key]

        def __setitem__(self, key: int, flow: flows.Flow) -> None:
            self.flows_grad[key] = flow

    def __init__(self, array: List[flows.Flow]) -> None:
        super().__init__()
        self._flows = array

    def __iadd__(self, value: List[flows.Flow]) -> 'ArrayFlow':
        for flow, inc_flow in zip(self._flows, value):
            if inc_flow:
                flow += inc_flow
        return super().__iadd__(value)

    def __getitem__(self, key: int) -> flows.Flow:
        return self._flows[key]

    def __setitem__(self, key: int, value: flows.Flow) -> None:
        self._flows[key] = value

    def __len__(self) -> int:
        return len(self._flows)

    def __eq__(self, value) -> bool:
        return self._flows == value._flows

    def __repr__(self):
        return 'ArrayFlow({})'.format(self._flows)

class ArrayFlowOpMixin:

    def __init__(self, *args, flow_types: List=None, flow_names: List=None, prepend_parent_name: bool=True, **kwargs) -> None:
        super().__init__(*args, **kwargs)
        self._flow_types = flow_types
        if not flow_names:
            flow_names = [None] * len(flow_types)
        names = set()
        for name in flow_names:
            if not name:
                continue
            if name in names:
                raise ValueError('Duplicate flow name found, got {}'.format(name))
            names.add(name)
        self._flow_names = flow_names
        self._prepend_parent_name = prepend_parent_name
        self._cast_objs = [None] * len(flow_types)

    def __getitem__(self, ind: Union[int, str]) -> goos.ProblemGraphNode:
        if not isinstance(ind, int):
            ind = str(ind)
            ind = self._flow_names.index(ind)
        if self._cast_objs[ind] is None:
            flow_name = self._flow_names[ind]
            if self._prepend_parent_name and flow_name:
                flow_name = self._goos_name + '.' + flow_name
            self._cast_objs[ind] = generic.cast(IndexOp(self, ind), self._flow_types[ind], name=flow_name)
        return self._cast_objs[ind]

class IndexOp(goos.ProblemGraphNode):
    node_type = 'goos.index_op'

    def __init__(self, node: goos.ProblemGraphNode, index: int) -> None:
        super().__init__(node)
        self._ind = index

    def eval(self, inputs: List[ArrayFlow]) -> flows.Flow:
        return inputs[0][self._ind]

    def grad(self, inputs: List[ArrayFlow], grad_val: flows.Flow) -> List[ArrayFlow.Grad]:
        grad_flow = [None] * len(inputs[0])
        grad_flow[self._ind] = grad_val
        return [ArrayFlow.Grad(grad_flow)]
