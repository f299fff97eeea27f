import collections
import concurrent.futures
from typing import Dict, List, Set, Tuple, Union
import numpy as np
from spins.invdes.parametrization import Parametrization
from spins.invdes import problem
NodeId = int
FunctionMap = Dict[NodeId, 'OptimizationFunction']
Graph = Dict[NodeId, List[NodeId]]

def eval_fun(fun_list: Union[List['OptimizationFunction'], 'OptimizationFunction'], param: Parametrization) -> Union[List[np.ndarray], np.ndarray]:
    if isinstance(fun_list, problem.OptimizationFunction):
        fun_list = [fun_list]
        single_output = True
    else:
        single_output = False
    fun_map, graph, in_nodes, out_nodes, heavy_nodes = _create_computational_graph(fun_list)
    top_sorted_nodes = _top_sort_affinity(graph, heavy_nodes)
    fun_vals = {}
    if len(in_nodes) == 1:
        fun_vals[list(in_nodes)[0]] = param.get_structure()
    elif len(in_nodes) > 1:
        raise ValueError('Multiple Variable nodes detected.')
    _eval_fun_vals(fun_vals, fun_map, graph, top_sorted_nodes, param)
    ret_vals = [fun_vals[out_node] for out_node in out_nodes]
    if single_output:
        return ret_vals[0]
    return ret_vals

def _eval_fun_vals(fun_vals: Dict[NodeId, np.ndarray], fun_map: FunctionMap, graph: Graph, top_sorted_nodes: List[NodeId], param: Parametrization) -> None:

    def _eval_fun(node, input_vals):
        if _is_old_fun(fun_map[node]):
            return fun_map[node].calculate_objective_function(param)
        return fun_map[node].eval(input_vals)
    try:
        node_iter = iter(reversed(top_sorted_nodes))
        node = next(node_iter)
        while True:
            while True:
                if node in fun_vals:
                    node = next(node_iter)
                    continue
                if _is_heavy_fun(fun_map[node]):
                    break
                if _is_old_fun(fun_map[node]):
                    fun_vals[node] = fun_map[node].calculate_objective_function(param)
                else:
                    input_vals = [fun_vals[in_node] for in_node in graph[node]]
                    fun_vals[node] = fun_map[node].eval(input_vals)
                node = next(node_iter)
            heavy_node_block = []
            last_node_reached = False
            try:
                while _is_heavy_fun(fun_map[node]) and node not in fun_vals and (not any((in_node in heavy_node_block for in_node in graph[node]))):
                    heavy_node_block.append(node)
                    node = next(node_iter)
            except StopIteration:
                last_node_reached = True
            arg_list = []
            for node_ in heavy_node_block:
                arg_list.append((node_, [fun_vals[in_node] for in_node in graph[node_]]))
            with concurrent.futures.ThreadPoolExecutor(max_workers=len(arg_list)) as executor:
                heavy_node_vals = executor.map(lambda args: _eval_fun(*args), arg_list)
            for node_, node_val in zip(heavy_node_block, heavy_node_vals):
                fun_vals[node_] = node_val
            if last_node_reached:
                break
    except StopIteration:
        pass

def eval_grad(fun: 'OptimizationFunction', param: Parametrization) -> np.ndarray:
    fun_map, graph, in_nodes, out_nodes, heavy_nodes = _create_computational_graph([fun])
    out_node = out_nodes[0]
    fun_vals = {}
    if len(in_nodes) == 1:
        in_node = list(in_nodes)[0]
        fun_vals[in_node] = param.get_structure()
    elif len(in_nodes) > 1:
        raise ValueError('Multiple Variable nodes detected.')
    top_sorted_nodes = _top_sort_affinity(graph, heavy_nodes)
    _eval_fun_vals(fun_vals, fun_map, graph, top_sorted_nodes, param)
    grad_vals = {node: 0.0 for node in fun_map.keys()}
    grad_vals[out_node] = 1

    def _eval_grad(node, input_vals, grad_val):
        if _is_old_fun(fun_map[node]):
            return fun_map[node].calculate_gradient(param)
        return fun_map[node].grad(input_vals, grad_val)
    old_node_grads = []
    try:
        node_iter = iter(top_sorted_nodes)
        node = next(node_iter)
        while True:
            while True:
                if _is_heavy_fun(fun_map[node]):
                    break
                if _is_old_fun(fun_map[node]):
                    old_grad = fun_map[node].calculate_gradient(param)
                    old_node_grads.append(np.dot(grad_vals[node], old_grad))
                else:
                    input_vals = [fun_vals[next_node] for next_node in graph[node]]
                    node_grad_vals = fun_map[node].grad(input_vals, grad_vals[node])
                    for next_node, next_fun_grad in zip(graph[node], node_grad_vals):
                        grad_vals[next_node] += next_fun_grad
                node = next(node_iter)
            heavy_node_block = []
            last_node_reached = False
            try:
                while _is_heavy_fun(fun_map[node]) and (not any((node in graph[node_] for node_ in heavy_node_block))):
                    heavy_node_block.append(node)
                    node = next(node_iter)
            except StopIteration:
                last_node_reached = True
            arg_list = []
            for node_ in heavy_node_block:
                arg_list.append((node_, [fun_vals[in_node] for in_node in graph[node_]], grad_vals[node_]))
            with concurrent.futures.ThreadPoolExecutor() as executor:
                heavy_node_vals = executor.map(lambda args: _eval_grad(*args), arg_list)
            for node_, node_grad_vals in zip(heavy_node_block, heavy_node_vals):
                for next_node, next_fun_grad in zip(graph[node_], node_grad_vals):
                    grad_vals[next_node] += next_fun_grad
            if last_node_reached:
                break
    except StopIteration:
        pass
    total_grads = old_node_grads
    if len(in_nodes) >= 1:
        total_grads += [np.array(grad_vals[in_node]) @ param.calculate_gradient()]
    return np.sum(total_grads, axis=0)

def _create_computational_graph(fun_list: List['OptimizationFunction']) -> Tuple[FunctionMap, Graph, Set[NodeId], NodeId]:
    out_nodes = [id(fun) for fun in fun_list]
    fun_map = {node: fun for node, fun in zip(out_nodes, fun_list)}
    in_nodes = set()
    heavy_nodes = set()
    graph = {}
    qu = collections.deque()
    for node in out_nodes:
        qu.append(node)
    while qu:
        node = qu.popleft()
        graph[node] = []
        if _is_old_fun(fun_map[node]):
            continue
        if _is_heavy_fun(fun_map[node]):
            heavy_nodes.add(node)
        if isinstance(fun_map[node], problem.Variable):
            in_nodes.add(node)
        for next_fun in fun_map[node]._inputs:
            next_fun_id = id(next_fun)
            graph[node].append(next_fun_id)
            if next_fun_id in fun_map.keys():
                continue
            fun_map[next_fun_id] = next_fun
            qu.append(next_fun_id)
    return (fun_map, graph, in_nodes, out_nodes, heavy_nodes)

def _top_sort_affinity(graph: Graph, affinity_nodes: List[NodeId]) -> List[NodeId]:
    parents = {node: 0 for node in graph.keys()}
    for node, node_list in graph.items():
        for child in node_list:
            parents[child] += 1
    qu = collections.deque()
    for node in graph.keys():
        if parents[node] == 0:
            qu.append(node)
    top_sort_nodes = []
    while qu:
        affinity_nodes_block = set()
        while qu:
            node = qu.popleft()
            if node in affinity_nodes:
                affinity_nodes_block.add(node)
                continue
            top_sort_nodes.append(node)
            for next_node in graph[node]:
                parents[next_node] -= 1
                if parents[next_node] == 0:
                    qu.append(next_node)
        top_sort_nodes += list(affinity_nodes_block)
        for node in affinity_nodes_block:
            for next_node in graph[node]:
                parents[next_node] -= 1
                if parents[next_node] == 0:
                    qu.append(next_node)
    return top_sort_nodes

def _is_old_fun(fun: 'OptimizationFunction') -> bool:
    return not hasattr(fun, '_inputs')

def _is_heavy_fun(fun: 'OptimizationFunction') -> bool:
    return not _is_old_fun(fun) and fun.heavy_compute
