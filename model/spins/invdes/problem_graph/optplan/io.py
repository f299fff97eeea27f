import copy
import json
from typing import Any, Callable, List, Set, Union
import warnings
from schematics import models
from schematics import types
from spins.invdes.problem_graph import optplan
problem_graph_name_map = {}

def reset_graph() -> None:
    global problem_graph_name_map
    problem_graph_name_map = {}

def generate_name(model_type: str) -> str:
    global problem_graph_name_map
    if model_type not in problem_graph_name_map:
        problem_graph_name_map[model_type] = 0
    name = '{}.{}'.format(model_type, problem_graph_name_map[model_type])
    problem_graph_name_map[model_type] += 1
    return name

def top_level_type(model: optplan.optplan.ProblemGraphNode) -> str:
    return model.type.split('.')[0]

def autoname(model: models.Model) -> None:
    _autoname_helper(model, set())

def _autoname_helper(value: Any, visited: Set[str]) -> None:
    if isinstance(value, optplan.ProblemGraphNode):
        if not value.name:
            value.name = generate_name(value.type)
        if value.name in visited:
            return
        visited.add(value.name)
    if isinstance(value, models.Model):
        for field_name in value.keys():
            _autoname_helper(value[field_name], visited)
    elif isinstance(value, list):
        for item in value:
            _autoname_helper(item, visited)
    elif isinstance(value, dict):
        for _, item in value.items():
            _autoname_helper(item, visited)

def _iter_optplan_fields(model: models.Model, visited: Set[int], process_field: Callable[[models.Model, Union[str, optplan.ProblemGraphNode]], None], pass_field_info: bool=False) -> None:
    if not isinstance(model, models.Model):
        return
    if id(model) in visited:
        return
    visited.add(id(model))

    def process_field_wrapped(parent: models.Model, child: Union[str, optplan.ProblemGraphNode], field_type: optplan.ReferenceType) -> optplan.ProblemGraphNode:
        if pass_field_info:
            return_val = process_field(parent, child, field_type)
        else:
            return_val = process_field(parent, child)
        if return_val is None:
            return child
        return return_val
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for field_name, field_type in model.fields.items():
            if model[field_name] is None:
                continue
            if isinstance(model[field_name], models.Model):
                _iter_optplan_fields(model[field_name], visited, process_field, pass_field_info=pass_field_info)
            elif isinstance(field_type, types.ListType):
                for item in model[field_name]:
                    _iter_optplan_fields(item, visited, process_field, pass_field_info=pass_field_info)
            elif isinstance(field_type, types.DictType):
                for _, value in model[field_name].items():
                    _iter_optplan_fields(value, visited, process_field, pass_field_info=pass_field_info)
            if isinstance(field_type, optplan.ReferenceType):
                model[field_name] = process_field_wrapped(model, model[field_name], field_type)
            elif isinstance(field_type, types.ListType) and isinstance(field_type.field, optplan.ReferenceType):
                model[field_name] = [process_field_wrapped(model, m, field_type.field) for m in model[field_name]]
            elif isinstance(field_type, types.DictType) and isinstance(field_type.field, optplan.ReferenceType):
                model[field_name] = {key: process_field_wrapped(model, m, field_type.field) for key, m in model[field_name].items()}

def validate(plan: optplan.OptimizationPlan) -> None:
    node_list = []
    if plan.nodes:
        node_list += plan.nodes
    if plan.transformations:
        node_list += plan.transformations
    for node in node_list:
        try:
            node_name = node.name
            node.validate()
        except Exception as exc:
            raise ValueError('Error encountered when validating node {}'.format(node_name)) from exc
    plan.validate()
    names = set()
    for node in plan.nodes:
        if node.name in names:
            raise ValueError('Nonunique name found: {}'.format(node.name))
        names.add(node.name)

def validate_references(model: models.Model) -> None:

    def process_field(parent: models.Model, child: Union[str, optplan.ProblemGraphNode], field_type: optplan.ReferenceType) -> None:
        if not child:
            return
        if not isinstance(child, (str, field_type.reference_type)):
            raise ValueError('Expected type {} for node {}, got {}'.format(field_type.reference_type, child, type(child)))
    _iter_optplan_fields(model, set(), process_field, pass_field_info=True)

def _validate_optplan_version(version: str) -> None:
    version_parts = [int(part) for part in version.split('.')]
    if version_parts < [0, 2, 3]:
        raise ValueError('Optplan must be at least version 0.2.1, got {}'.format(version))

def loads(serialized_plan: str) -> optplan.OptimizationPlan:
    plan = optplan.OptimizationPlan(json.loads(serialized_plan))
    validate(plan)
    _validate_optplan_version(plan.version)
    node_map = {}
    for node in plan.nodes:
        node_map[node.name] = node

    def process_field(model: models.Model, child_model: str) -> models.Model:
        return node_map[child_model]
    visited = set()
    if plan.transformations:
        for transformation in plan.transformations:
            _iter_optplan_fields(transformation, visited, process_field)
    for node in plan.nodes:
        _iter_optplan_fields(node, visited, process_field)
    validate_references(plan)
    return plan

def dumps(plan: optplan.OptimizationPlan) -> str:
    plan = copy.deepcopy(plan)
    validate_references(plan)
    autoname(plan)
    model_list = []
    _extract_nodes(plan, model_list)
    _replace_ref_nodes_with_names(plan, model_list)
    plan.nodes = model_list
    validate(plan)
    return json.dumps(plan.to_primitive())

def _extract_nodes(value: Any, model_list: List[optplan.ProblemGraphNode]) -> None:
    if isinstance(value, optplan.ProblemGraphNode):
        if value not in model_list:
            model_list.append(value)
        else:
            return
    if isinstance(value, models.Model):
        for item in value.keys():
            _extract_nodes(value[item], model_list)
    elif isinstance(value, list):
        for item in value:
            _extract_nodes(item, model_list)
    elif isinstance(value, dict):
        for _, item in value.items():
            _extract_nodes(item, model_list)

def _replace_ref_nodes_with_names(model: models.Model, model_list: List[optplan.ProblemGraphNode]) -> None:

    def process_field(model: models.Model, child_model: models.Model) -> str:
        if isinstance(child_model, str):
            return child_model
        ind = model_list.index(child_model)
        return model_list[ind].name
    _iter_optplan_fields(model, set(), process_field)
