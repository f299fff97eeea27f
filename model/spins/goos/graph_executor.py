from typing import Dict, List, Set, Tuple, Union
import collections
import concurrent.futures
import copy
import inspect
import numpy as np
from spins import goos
from spins.goos import flows
NodeId = int
FunctionMap = Dict[NodeId, 'goos.Function']
Graph = Dict[NodeId, List[NodeId]]

def eval_fun(fun_list: Union[List['goos.Function'], 'goos.Function'], override_map: Dict['goos.Function', Tuple['flows.Flow', 'goos.NodeFlags']]=None) -> Union[List['flows.Flow'], 'flows.Flow']:
    if isinstance(fun_list, goos.ProblemGraphNode):
        fun_list = [fun_list]
        single_output = True
    else:
        single_output = False
    fun_map, graph, in_nodes, out_nodes, heavy_nodes = _create_computational_graph(fun_list)
    top_sorted_nodes = _top_sort_affinity(graph, heavy_nodes)
    fun_vals = {}
    fun_flags = {}
    if override_map:
        for fun, (flow, context) in override_map.items():
            fun_vals[id(fun)] = flow
            fun_flags[id(fun)] = context
    _eval_fun_vals(fun_vals, fun_flags, fun_map, graph, top_sorted_nodes)
    ret_vals = [fun_vals[out_node] for out_node in out_nodes]
    if single_output:
        return ret_vals[0]
    return ret_vals

def _eval_fun_vals(fun_vals: Dict[NodeId, np.ndarray], fun_flags: Dict[NodeId, goos.NodeFlags], fun_map: FunctionMap, graph: Graph, top_sorted_nodes: List[NodeId]) -> None:

    def _eval_fun(node, input_vals, context):
        if len(inspect.signature(node.eval).parameters) == 1:
            return node.eval(input_vals)
        else:
            return node.eval(input_vals, context)

    def _eval_flags(node, input_flags, fun_out):
        if hasattr(node, 'eval_const_flags'):
            const_flags = node.eval_const_flags([con.const_flags for con in input_flags])
            frozen_flags = node.eval_const_flags([con.frozen_flags for con in input_flags])
        else:
            const_flags = type(fun_out).ConstFlags()
            frozen_flags = type(fun_out).ConstFlags()
            const_flags.set_all(all((con.const_flags for con in input_flags)))
            frozen_flags.set_all(all((con.frozen_flags for con in input_flags)))
        return goos.NodeFlags(const_flags=const_flags, frozen_flags=frozen_flags)

    def _eval_fun_and_flags(node, input_vals, input_flags):
        fun = _eval_fun(fun_map[node], input_vals, goos.EvalContext(input_flags))
        flags = _eval_flags(fun_map[node], input_flags, fun)
        return (fun, flags)
    try:
        node_iter = iter(reversed(top_sorted_nodes))
        node = next(node_iter)
        while True:
            while True:
                if node in fun_vals:
                    node = next(node_iter)
                    continue
                if _is_heavy_fun(fun_map[node]):
                    break
                input_vals = [fun_vals[in_node] for in_node in graph[node]]
                input_flags = [fun_flags[in_node] for in_node in graph[node]]
                fun_vals[node], fun_flags[node] = _eval_fun_and_flags(node, input_vals, input_flags)
                node = next(node_iter)
            heavy_node_block = []
            last_node_reached = False
            try:
                while _is_heavy_fun(fun_map[node]) and node not in fun_vals and (not any((in_node in heavy_node_block for in_node in graph[node]))):
                    heavy_node_block.append(node)
                    node = next(node_iter)
            except StopIteration:
                last_node_reached = True
            arg_list = []
            for node_ in heavy_node_block:
                arg_list.append((node_, [fun_vals[in_node] for in_node in graph[node_]], [fun_flags[in_node] for in_node in graph[node_]]))
            with concurrent.futures.ThreadPoolExecutor(max_workers=len(arg_list)) as executor:
                heavy_node_vals = executor.map(lambda args: _eval_fun_and_flags(*args), arg_list)
            for node_, node_val in zip(heavy_node_block, heavy_node_vals):
                fun_vals[node_], fun_flags[node_] = node_val
            if last_node_reached:
                break
    except StopIteration:
        pass

def eval_grad(fun: 'goos.Function', variables: List['goos.Variable'], override_map: Dict['goos.Function', Tuple['flows.Flow', 'flows.Flow', 'goos.NodeFlags']]=None) -> Union[List['flows.Flow'], 'flows.Flow']:
    fun_map, graph, in_nodes, out_nodes, heavy_nodes = _create_computational_graph([fun])
    out_node = out_nodes[0]
    fun_vals = {}
    fun_flags = {}
    if override_map:
        for fun, flow in override_map.items():
            fun_vals[id(fun)] = flow[0]
            fun_flags[id(fun)] = flow[2]
    top_sorted_nodes = _top_sort_affinity(graph, heavy_nodes)
    _eval_fun_vals(fun_vals, fun_flags, fun_map, graph, top_sorted_nodes)
    grad_vals = {}
    known_grads = {}
    if override_map:
        for fun, flow in override_map.items():
            known_grads[id(fun)] = [flow[1]]
    grad_vals[out_node] = flows.NumericFlow.Grad(np.array([1.0]))

    def _eval_grad(node, input_vals, grad_val, context):
        context = goos.EvalContext(context)
        if node in known_grads:
            return known_grads[node]
        if len(inspect.signature(fun_map[node].grad).parameters) == 2:
            return fun_map[node].grad(input_vals, grad_val)
        else:
            return fun_map[node].grad(input_vals, grad_val, context)

    def _update_grad_vals(node, node_grad_vals):
        for i in range(len(node_grad_vals)):
            if node_grad_vals[i] is None:
                node_grad_vals[i] = type(fun_vals[graph[node][i]]).Grad()
        for next_node, next_fun_grad in zip(graph[node], node_grad_vals):
            if next_node in grad_vals:
                grad_vals[next_node] += next_fun_grad
            else:
                grad_vals[next_node] = copy.deepcopy(next_fun_grad)
    try:
        node_iter = iter(top_sorted_nodes)
        node = next(node_iter)
        while True:
            while True:
                if _is_heavy_fun(fun_map[node]):
                    break
                input_vals = [fun_vals[next_node] for next_node in graph[node]]
                input_flags = [fun_flags[in_node] for in_node in graph[node]]
                node_grad_vals = _eval_grad(node, input_vals, grad_vals[node], input_flags)
                _update_grad_vals(node, node_grad_vals)
                node = next(node_iter)
            heavy_node_block = []
            last_node_reached = False
            try:
                while _is_heavy_fun(fun_map[node]) and (not any((node in graph[node_] for node_ in heavy_node_block))):
                    heavy_node_block.append(node)
                    node = next(node_iter)
            except StopIteration:
                last_node_reached = True
            arg_list = []
            for node_ in heavy_node_block:
                arg_list.append((node_, [fun_vals[in_node] for in_node in graph[node_]], grad_vals[node_], [fun_flags[in_node] for in_node in graph[node_]]))
            with concurrent.futures.ThreadPoolExecutor() as executor:
                heavy_node_vals = executor.map(lambda args: _eval_grad(*args), arg_list)
            for node_, node_grad_vals in zip(heavy_node_block, heavy_node_vals):
                _update_grad_vals(node_, node_grad_vals)
            if last_node_reached:
                break
    except StopIteration:
        pass
    grad_ret = []
    for variable in variables:
        if id(variable) in grad_vals:
            grad_ret.append(grad_vals[id(variable)])
        else:
            flow = override_map[variable][0]
            grad_ret.append(type(flow).Grad(array_grad=np.zeros_like(flow.array)))
    return grad_ret

def _create_computational_graph(fun_list: List['goos.Function']) -> Tuple[FunctionMap, Graph, Set[NodeId], NodeId]:
    out_nodes = [id(fun) for fun in fun_list]
    fun_map = {node: fun for node, fun in zip(out_nodes, fun_list)}
    in_nodes = set()
    heavy_nodes = set()
    graph = {}
    qu = collections.deque()
    for node in out_nodes:
        qu.append(node)
    while qu:
        node = qu.popleft()
        graph[node] = []
        if _is_heavy_fun(fun_map[node]):
            heavy_nodes.add(node)
        if isinstance(fun_map[node], goos.Variable):
            in_nodes.add(node)
        for next_fun in fun_map[node]._goos_inputs:
            next_fun_id = id(next_fun)
            graph[node].append(next_fun_id)
            if next_fun_id in fun_map.keys():
                continue
            fun_map[next_fun_id] = next_fun
            qu.append(next_fun_id)
    return (fun_map, graph, in_nodes, out_nodes, heavy_nodes)

def _top_sort_affinity(graph: Graph, affinity_nodes: List[NodeId]) -> List[NodeId]:
    parents = {node: 0 for node in graph.keys()}
    for node, node_list in graph.items():
        for child in node_list:
            parents[child] += 1
    qu = collections.deque()
    for node in graph.keys():
        if parents[node] == 0:
            qu.append(node)
    top_sort_nodes = []
    while qu:
        affinity_nodes_block = set()
        while qu:
            node = qu.popleft()
            if node in affinity_nodes:
                affinity_nodes_block.add(node)
                continue
            top_sort_nodes.append(node)
            for next_node in graph[node]:
                parents[next_node] -= 1
                if parents[next_node] == 0:
                    qu.append(next_node)
        top_sort_nodes += list(affinity_nodes_block)
        for node in affinity_nodes_block:
            for next_node in graph[node]:
                parents[next_node] -= 1
                if parents[next_node] == 0:
                    qu.append(next_node)
    return top_sort_nodes

def _is_heavy_fun(node):
    return node._goos_heavy
