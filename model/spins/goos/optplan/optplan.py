from typing import Any, Dict, Iterable, List, NamedTuple, Optional, Union
import copy
import dataclasses
import datetime
import functools
import inspect
import json
import logging
import os
import pickle
import numpy as np
from spins.goos import flows
from spins.goos import optplan

class ProblemGraphNodeMeta(type):

    def __new__(meta, name, bases, class_dict):
        cls = type.__new__(meta, name, bases, class_dict)
        if not hasattr(cls, 'node_type'):
            raise ValueError('Problem graph node {} did not define `node_type`.'.format(cls))
        if cls.node_type == 'goos.problem_graph_node' or cls.node_type == 'goos.action':
            return cls
        signature = inspect.signature(cls.__init__)
        for param in list(signature.parameters.values())[1:]:
            if param.name == 'name':
                raise TypeError("Parameter cannot be named 'name'.")
            elif param.name == 'type':
                raise TypeError("Parameter cannot be named 'type'.")
            if param.annotation == param.empty:
                raise TypeError('Parameter `{}` has no type annotation.'.format(param.name))
            if param.default != param.empty and False:
                raise ValueError('Parameter `{}` has unserializable default value, got {}'.format(param.name, param.default))
            if param.kind == param.VAR_POSITIONAL or param.kind == param.VAR_KEYWORD:
                raise TypeError('Problem graph node "{}" has a variational parameter.'.format(cls.node_type))
        if 'Schema' not in cls.__dict__:
            schema_base_classes = []
            for base in bases:
                if issubclass(base, ProblemGraphNode):
                    schema_base_classes.append(base.Schema)
            if '__init__' in cls.__dict__:
                cls.Schema = optplan.schema.construct_schema(cls.node_type, cls.__init__, skip_first_arg=True, base_classes=schema_base_classes, other_fields={'type': optplan.types.StringType(default=cls.node_type)})
            else:
                cls.Schema = type(cls.node_type, tuple(schema_base_classes), {})
        if not cls.goos_no_register:
            optplan.GLOBAL_CONTEXT_STACK.register_node(cls.node_type, cls.Schema, cls)
        return cls

    def __call__(cls, *args, **kwargs):
        if cls.node_type == 'goos.problem_graph_node' or cls.node_type == 'goos.action':
            return super(ProblemGraphNodeMeta, cls).__call__(*args, **kwargs)
        if 'name' in kwargs:
            node_name = kwargs['name']
            del kwargs['name']
        else:
            node_name = None
        signature = inspect.signature(cls.__init__)
        schema_data = {}
        param_ind = 1
        parameters = list(signature.parameters.values())
        for arg in args:
            schema_data[parameters[param_ind].name] = arg
            param_ind += 1
        for param in parameters[param_ind:]:
            if param.name in kwargs:
                schema_data[param.name] = kwargs[param.name]
            else:
                schema_data[param.name] = param.default
        obj = super(ProblemGraphNodeMeta, cls).__call__(*args, **kwargs)
        if node_name:
            obj._goos_name = node_name
        else:
            obj._goos_name = optplan.schema.generate_name(cls.node_type)
        if not hasattr(obj, '_goos_schema') or not obj._goos_schema:
            schema_data['name'] = obj._goos_name
            schema_data = _replace_node_with_schema(schema_data)
            obj._goos_schema = cls.Schema(**schema_data)
        else:
            obj._goos_schema.name = obj._goos_name
        default_plan = get_default_plan()
        if default_plan:
            default_plan.add_node(obj)
        return obj

def _replace_node_with_schema(value: Any) -> Any:
    if isinstance(value, list):
        return [_replace_node_with_schema(item) for item in value]
    elif isinstance(value, tuple):
        return tuple((_replace_node_with_schema(item) for item in value))
    elif isinstance(value, dict):
        return {key: _replace_node_with_schema(item) for key, item in value.items()}
    elif isinstance(value, ProblemGraphNode):
        return value._goos_schema
    return value

@dataclasses.dataclass
class NodeFlags:
    const_flags: flows.Flow.ConstFlags
    frozen_flags: flows.Flow.ConstFlags

@dataclasses.dataclass
class EvalContext:
    input_flags: List[NodeFlags]

class ProblemGraphNode(metaclass=ProblemGraphNodeMeta):
    node_type = 'goos.problem_graph_node'
    Schema = optplan.ProblemGraphNodeSchema
    goos_no_register = False

    def __init__(self, deps: Iterable['ProblemGraphNode']=None, heavy_compute: bool=False) -> None:
        if not deps:
            deps = []
        if isinstance(deps, ProblemGraphNode):
            deps = [deps]
        self._goos_inputs = deps
        self._goos_schema = None
        self._goos_heavy = heavy_compute

    def parallelize(self, val: bool=True):
        self._goos_heavy = val

    def get(self, run: bool=False):
        if run:
            get_default_plan().run()
        return get_default_plan().eval_node(self)

    def get_grad(self, wrt_nodes: List['ProblemGraphNode'], run: bool=False):
        if run:
            get_default_plan().run()
        return get_default_plan().eval_grad(self, wrt_nodes)

    def eval(self, inputs: Iterable['ProblemGraphNode'], eval_context: EvalContext):
        raise NotImplementedError()

    def __hash__(self):
        return id(self)

class Action(ProblemGraphNode):
    node_type = 'goos.action'
    Schema = optplan.ActionNodeSchema

def _requires_action(method):

    def decorator(self, *args, **kwargs):
        if not self._modifiable:
            raise ValueError('Attempted to modify plan outside of an action')
        return method(self, *args, **kwargs)
    return decorator

def _runs_actions(method):

    @functools.wraps(method)
    def decorator(self, *args, **kwargs):
        try:
            return method(self, *args, **kwargs)
        finally:
            self._modifiable = False
    return decorator

class OptimizationPlan:

    def __init__(self, root_path: str='.', save_path: Optional[str]=None, autorun: bool=False) -> None:
        self._modifiable = False
        self._root_path = root_path
        self._autorun = autorun
        self._save_path = save_path
        self._log_counter = 0
        self._logger = logging.getLogger(__name__)
        self._node_map = {}
        self._actions = []
        self._action_ptr = 0
        self._action_data = None
        self._var_value = {}
        self._var_frozen = {}
        self._var_bounds = {}

    def save(self, save_folder: Optional[str]=None) -> None:
        if not save_folder:
            save_folder = self._save_path
        nodes = [item._goos_schema for item in self._node_map.values()]
        actions = [item._goos_schema for item in self._actions]
        plan = optplan.OptimizationPlanSchema(nodes=nodes, actions=actions)
        with open(os.path.join(save_folder, 'optplan.json'), 'w') as fp:
            fp.write(optplan.schema.dumps(plan))

    def load(self, save_folder: Optional[str]=None) -> None:
        if not save_folder:
            save_folder = self._save_path
        with open(os.path.join(save_folder, 'optplan.json'), 'r') as fp:
            plan = optplan.schema.loads(fp.read())
        from schematics import models

        def process_field(model: models.Model, child_model: models.Model) -> ProblemGraphNode:
            return _create_node(child_model)
        visited = set()

        def _create_node(model: models.Model) -> ProblemGraphNode:
            if model.name in self._node_map:
                return self._node_map[model.name]
            optplan.schema._iter_optplan_fields(model, visited, process_field)
            params = {}
            for key, value in model.items():
                if key == 'type':
                    continue
                params[key] = value
            return optplan.GLOBAL_CONTEXT_STACK.get_node(model.type).creator(**params)
        for node in plan.nodes:
            self.add_node(_create_node(node))
        for model in plan.actions:
            self.add_action(_create_node(model))

    def get_state_dict(self) -> Dict:
        var_data = {}
        for var_name, var_val in self._var_value.items():
            var_data[var_name] = {'value': var_val, 'frozen': self._var_frozen[var_name], 'bounds': self._var_bounds[var_name]}
        action_name = None
        if self._action_ptr < len(self._actions):
            action_name = self._actions[self._action_ptr]._goos_name
        data = {'version': '0.2.0', 'action_ptr': self._action_ptr, 'action': action_name, 'time': str(datetime.datetime.now()), 'log_counter': self._log_counter, 'variable_data': var_data}
        data['transformation'] = data['action']
        data['parametrization'] = {}
        return data

    @property
    def logger(self):
        return self._logger

    @_requires_action
    def write_event(self, event: Dict, monitor_list: List[ProblemGraphNode]=None) -> None:
        self._log_counter += 1
        self._logger.info('Evaluating monitors for action %d (%s) with event info %s [%d].', self._action_ptr, self._actions[self._action_ptr]._goos_name, event, self._log_counter)
        monitor_data = {}
        if monitor_list:
            monitor_values = self.eval_nodes(monitor_list)
            for mon, val in zip(monitor_list, monitor_values):
                monitor_data[mon._goos_name] = val.array
        data = self.get_state_dict()
        data.update({'event': event, 'monitor_data': monitor_data, 'log_counter': self._log_counter})
        self._action_data = event
        for mon_name, mon_val in monitor_data.items():
            mon_val = np.atleast_1d(mon_val)
            if mon_val.ndim == 1:
                mon_val = mon_val[0]
                if np.isreal(mon_val):
                    self._logger.info('Monitor {}: {}'.format(mon_name, mon_val))
                else:
                    self._logger.info('Monitor {}: {} (mag={}, phase={})'.format(mon_name, mon_val, np.abs(mon_val), np.angle(mon_val)))
        if self._save_path:
            file_path = os.path.join(self._save_path, os.path.join('step{}.pkl'.format(self._log_counter)))
            with open(file_path, 'wb') as handle:
                pickle.dump(data, handle)
            self._logger.info('Data saved to %s', file_path)

    def write_checkpoint(self, filename: str) -> None:
        data = self.get_state_dict()
        checkpoint_file = filename
        self._logger.info('Saving checkpoint file: %s', checkpoint_file)
        with open(checkpoint_file, 'wb') as handle:
            pickle.dump(data, handle)

    def read_checkpoint(self, filename: str) -> None:
        with open(filename, 'rb') as handle:
            data = pickle.load(handle)
        self._action_ptr = data['action_ptr']
        self._action_data = data.get('event', None)
        self._log_counter = data.get('log_counter', self._log_counter)
        for var_name, var_data in data['variable_data'].items():
            self._var_value[var_name] = var_data['value']
            self._var_frozen[var_name] = var_data['frozen']
            self._var_bounds[var_name] = var_data['bounds']

    def add_action(self, action: Action):
        self._actions.append(action)
        for dep_node in action._goos_inputs:
            self.add_node(dep_node)
        if self._autorun:
            self.run()

    def add_node(self, node: ProblemGraphNode):
        if node._goos_name in self._node_map:
            return
        self._node_map[node._goos_name] = node
        from spins.goos import math
        if isinstance(node, math.Variable):
            self._var_value[node._goos_name] = node._value
            self._var_frozen[node._goos_name] = node._is_param
            lower_bounds = node._lower_bounds
            if lower_bounds is None:
                lower_bounds = -np.inf
            if np.isscalar(lower_bounds):
                lower_bounds = np.ones_like(node._value) * lower_bounds
            upper_bounds = node._upper_bounds
            if upper_bounds is None:
                upper_bounds = np.inf
            if np.isscalar(upper_bounds):
                upper_bounds = np.ones_like(node._value) * upper_bounds
            self._var_bounds[node._goos_name] = [lower_bounds, upper_bounds]
        for dep_node in node._goos_inputs:
            self.add_node(dep_node)

    def get_node(self, name: str) -> ProblemGraphNode:
        return self._node_map[name]

    @_requires_action
    def set_var_value(self, node: 'goos.Variable', value: np.ndarray, check_frozen: bool=True) -> None:
        if check_frozen and self._var_frozen[node._goos_name]:
            raise ValueError('Attempting to set value of frozen variable {}'.format(node._goos_name))
        self._var_value[node._goos_name] = np.array(value)

    @_requires_action
    def set_var_bounds(self, node: 'goos.Variable', bounds: List[np.ndarray]) -> List[np.ndarray]:
        self._var_bounds[node._goos_name] = copy.copy(bounds)

    def get_var_value(self, node: 'goos.Variable') -> np.ndarray:
        return self._var_value[node._goos_name].copy()

    def get_var_bounds(self, node: 'goos.Variable') -> List[np.ndarray]:
        return self._var_bounds[node._goos_name].copy()

    @_requires_action
    def freeze_var(self, node: 'goos.Variable') -> None:
        self._var_frozen[node._goos_name] = True

    @_requires_action
    def thaw_var(self, node: 'goos.Variable') -> None:
        self._var_frozen[node._goos_name] = False

    @_requires_action
    def get_thawed_vars(self) -> List['goos.Variable']:
        return [self._node_map[var_name] for var_name in self._var_value.keys() if not self._var_frozen[var_name]]

    @_runs_actions
    def run(self, auto_checkpoint: bool=True) -> None:
        self._modifiable = True
        while self._action_ptr < len(self._actions):
            self.logger.info('Running action {} ({}).'.format(self._action_ptr, self._actions[self._action_ptr]._goos_name))
            self._actions[self._action_ptr].run(self)
            self._action_ptr += 1
            self._action_data = None
            if auto_checkpoint and self._save_path:
                self.write_checkpoint(os.path.join(self._save_path, 'action{}.chkpt'.format(self._action_ptr - 1)))
        self._modifiable = False

    @_runs_actions
    def resume(self, checkpoint: str=None, auto_checkpoint: bool=True) -> None:
        if checkpoint:
            self.read_checkpoint(checkpoint)
        if self._action_ptr >= len(self._actions):
            return
        self._modifiable = True
        if self._action_data:
            self.logger.info('Resuming action {} ({}).'.format(self._action_ptr, self._actions[self._action_ptr]._goos_name))
            if hasattr(self._actions[self._action_ptr], 'resume'):
                self._actions[self._action_ptr].resume(self, self._action_data)
            else:
                self.logger.warning('Action has no resume capabilities {}, re-running.'.format(self._action_ptr))
                self._actions[self._action_ptr].run(self)
        else:
            self.logger.info('Running action {} ({}).'.format(self._action_ptr, self._actions[self._action_ptr]._goos_name))
            self._actions[self._action_ptr].run(self)
        self._action_ptr += 1
        self._action_data = None
        if auto_checkpoint and self._save_path:
            self.write_checkpoint(os.path.join(self._save_path, 'action{}.chkpt'.format(self._action_ptr - 1)))
        self._modifiable = False
        self.run(auto_checkpoint)

    def eval_nodes(self, nodes: List[ProblemGraphNode]) -> List[flows.Flow]:
        for node in nodes:
            self.add_node(node)
        from spins.goos import graph_executor
        from spins.goos import flows
        override_map = {}
        for var_name, var_value in self._var_value.items():
            const_flags = flows.NumericFlow.ConstFlags()
            frozen_flags = flows.NumericFlow.ConstFlags(False)
            frozen_flags.set_all(self._var_frozen[var_name])
            context = NodeFlags(const_flags=const_flags, frozen_flags=frozen_flags)
            override_map[self._node_map[var_name]] = (flows.NumericFlow(var_value), context)
        return graph_executor.eval_fun(nodes, override_map)

    def eval_node(self, node: ProblemGraphNode) -> flows.Flow:
        return self.eval_nodes([node])[0]

    def eval_grad(self, node: ProblemGraphNode, wrt_nodes: List[ProblemGraphNode]):
        self.add_node(node)
        from spins.goos import graph_executor
        from spins.goos import flows
        override_map = {}
        for var_name, var_value in self._var_value.items():
            if self._var_frozen[var_name]:
                grad_value = flows.NumericFlow(np.zeros_like(var_value))
            else:
                grad_value = flows.NumericFlow(np.ones_like(var_value))
            const_flags = flows.NumericFlow.ConstFlags()
            frozen_flags = flows.NumericFlow.ConstFlags(False)
            frozen_flags.set_all(self._var_frozen[var_name])
            context = NodeFlags(const_flags=const_flags, frozen_flags=frozen_flags)
            override_map[self._node_map[var_name]] = (flows.NumericFlow(var_value), grad_value, context)
        return graph_executor.eval_grad(node, wrt_nodes, override_map)

    def __enter__(self):
        push_plan(self)
        return self

    def __exit__(self, type, value, traceback):
        pop_plan()

def push_plan(plan: OptimizationPlan) -> None:
    optplan.GLOBAL_PLAN_STACK.append(plan)

def pop_plan() -> OptimizationPlan:
    return optplan.GLOBAL_PLAN_STACK.pop()

def get_default_plan() -> OptimizationPlan:
    if optplan.GLOBAL_PLAN_STACK:
        return optplan.GLOBAL_PLAN_STACK[-1]
    return None
