import collections.abc
from datetime import datetime
import glob
import logging
import os
import pickle
import re
from typing import Dict, List, Optional, Union
from spins.invdes import parametrization
from spins.invdes import problem
from spins.invdes.problem import graph_executor
from spins.invdes.problem_graph import optplan
from spins.invdes.problem_graph import workspace
VARIABLE_NODE = '__variable'

class Workspace:

    def __init__(self, filepath: str='.', savepath: str='.', nodes: Optional[Union[optplan.ProblemGraphNode, List[optplan.ProblemGraphNode]]]=None) -> None:
        self._filepath = filepath
        self._nodes = {}
        self._objects = {}
        self._objects[VARIABLE_NODE] = problem.Variable(1)
        if isinstance(nodes, collections.abc.Iterable):
            for node in nodes:
                self._add_node(node)
        elif nodes:
            self._add_node(nodes)
        self._logger = None
        if savepath:
            self._logger = Logger(savepath, self)

    def _add_node(self, node: optplan.ProblemGraphNode) -> None:

        def add_node(node: optplan.ProblemGraphNode) -> bool:
            if node.name in self._nodes:
                if id(node) != id(self._nodes[node.name]):
                    raise ValueError('Node with same name added, got {}'.format(node.name))
                return False
            self._nodes[node.name] = node
            return True

        def process_field(unused_parent: optplan.ProblemGraphNode, child: optplan.ProblemGraphNode) -> optplan.ProblemGraphNode:
            add_node(child)
        if add_node(node):
            visited = set((id(node_) for node_ in self._nodes))
            from spins.invdes.problem_graph.optplan.io import _iter_optplan_fields
            _iter_optplan_fields(node, visited, process_field)

    @property
    def filepath(self) -> str:
        return self._filepath

    @property
    def logger(self) -> 'Logger':
        return self._logger

    def run(self, node: optplan.Transformation, event_data: Optional[Dict]=None) -> None:
        creator = optplan.GLOBAL_CONTEXT_STACK.get_node_creator(optplan.NodeMetaType.TRANSFORMATION, node.transformation.type)
        if creator is None:
            raise ValueError('Unable to find creator for transformation with type {}'.format(node.type))
        if self._logger:
            self._logger.set_transformation_name(node.name)
        transform = creator(node.transformation, self)
        if not event_data:
            _set_parameters(self, node.parameter_list)
        transform(self.get_object(node.parametrization), event_data)
        if self._logger:
            self._logger.set_transformation_name(None)

    def get_object(self, name_or_node: Union[str, optplan.ProblemGraphNode], return_graph_node: bool=False):
        if name_or_node == VARIABLE_NODE:
            return self._objects[VARIABLE_NODE]
        if isinstance(name_or_node, str):
            node = self._nodes[name_or_node]
        elif isinstance(name_or_node, optplan.ProblemGraphNode):
            node = name_or_node
        else:
            raise ValueError('`name_or_node` must be string or `ProblemGraphNode`, got {}'.format(type(name_or_node)))
        if node.name in self._objects:
            if return_graph_node:
                return (self._objects[node.name], self._nodes[node.name])
            else:
                return self._objects[node.name]
        self._add_node(node)
        creator = optplan.GLOBAL_CONTEXT_STACK.get_node_creator(optplan.NodeMetaType.OPTPLAN_NODE, node.type)
        if creator is None:
            self._objects[node.name] = node
        else:
            self._objects[node.name] = creator(node, self)
        if return_graph_node:
            return (self._objects[node.name], self._nodes[node.name])
        else:
            return self._objects[node.name]

    def get_objects_by_type(self, model_type: optplan.ProblemGraphNode, return_graph_node: bool=False) -> Dict:
        objects = {}
        for node_name, node in self._nodes.items():
            if isinstance(node, model_type):
                objects[node.name] = self.get_object(node, return_graph_node)
        return objects

def _set_parameters(work: workspace.Workspace, parameter_list: Optional[List[optplan.SetParam]]) -> None:
    if not parameter_list:
        return
    for set_parameter in parameter_list:
        parameter = work.get_object(set_parameter.parameter)
        function = work.get_object(set_parameter.function)
        function_value = function.calculate_objective_function(work.get_object(set_parameter.parametrization))
        if set_parameter.inverse:
            parameter.set_parameter_value(function_value ** (-1))
        else:
            parameter.set_parameter_value(function_value)

class Logger:

    def __init__(self, log_path: str, work: Workspace) -> None:
        self._path = log_path
        self._work = work
        if not os.path.exists(self._path):
            os.makedirs(self._path)
        self._transform_name = None
        self._log_counter = 0
        self._logger = logging.getLogger(__name__)

    def set_transformation_name(self, name: str) -> None:
        self._transform_name = name

    def write_checkpoint(self, filename: str) -> None:
        parameter_data = {}
        parameter_list = self._work.get_objects_by_type(optplan.Parameter)
        for param_name, param_obj in parameter_list.items():
            parameter_data[param_name] = param_obj.value
        parametrization_data = {}
        param_list = self._work.get_objects_by_type(optplan.Parametrization)
        for name, obj in param_list.items():
            parametrization_data[name] = obj.serialize()
        data = {'time': str(datetime.now()), 'parameters': parameter_data, 'parametrizations': parametrization_data}
        checkpoint_file = filename + '.chkpt.pkl'
        self._logger.info('Saving checkpoint file: %s', checkpoint_file)
        file_path = os.path.join(self._path, checkpoint_file)
        with open(file_path, 'wb') as handle:
            pickle.dump(data, handle)

    def write(self, event: Dict, param: parametrization.Parametrization, monitor_list: List[str]=None) -> None:
        self._log_counter += 1
        monitor_data = {}
        if monitor_list:
            mon_vals = graph_executor.eval_fun([self._work.get_object(mon) for mon in monitor_list], param)
            for mon, mon_val in zip(monitor_list, mon_vals):
                monitor_data[mon.name] = mon_val
        parameter_data = {}
        parameter_list = self._work.get_objects_by_type(optplan.Parameter)
        for param_name, param_obj in parameter_list.items():
            parameter_data[param_name] = param_obj.calculate_objective_function(param)
        data = {'transformation': self._transform_name, 'event': event, 'time': str(datetime.now()), 'parametrization': param.serialize(), 'parameters': parameter_data, 'monitor_data': monitor_data, 'log_counter': self._log_counter}
        self._logger.info('Saving monitors for transformation %s with event info %s [%d].', self._transform_name, event, self._log_counter)
        file_path = os.path.join(self._path, os.path.join('step{}.pkl'.format(self._log_counter)))
        with open(file_path, 'wb') as handle:
            pickle.dump(data, handle)

def get_latest_log_step(folder: str) -> int:
    filenames = glob.glob(os.path.join(folder, 'step*.pkl'))
    max_step = 0
    for name in filenames:
        match = re.search('step(?P<step>\\d+)\\.pkl$', name)
        if match:
            max_step = max(max_step, int(match.group('step')))
    return max_step

def get_latest_log_file(folder: str) -> Optional[str]:
    max_step = get_latest_log_step(folder)
    if max_step == 0:
        return None
    return os.path.join(folder, 'step{}.pkl'.format(max_step))
