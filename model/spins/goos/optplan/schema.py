from typing import Any, Callable, Dict, List, Set, Tuple, Union
import copy
import inspect
import json
import numbers
import sys
import typing
import warnings
import numpy as np
from schematics import models
from schematics import types
if sys.version_info[1] >= 6:
    import typing_inspect
else:
    import imp
    typing_inspect = imp.new_module('typing_inspect')

    def is_union_type(cls):
        if hasattr(cls, '__union_params__'):
            return True
        if not hasattr(cls, '__origin__'):
            return False
        if cls.__origin__ is Union:
            return True
        return False
    typing_inspect.is_union_type = is_union_type

def get_type_class(cls):
    try:
        return cls.__extra__
    except AttributeError:
        return cls.__origin__
typing_inspect.get_type_class = get_type_class
from spins.goos import optplan
from spins.goos.optplan import schema_types
if not hasattr(typing, 'get_args'):

    def get_args(cls) -> Tuple:
        if typing_inspect.is_union_type(cls):
            try:
                return cls.__union_params__
            except AttributeError:
                pass
            return cls.__args__
        elif issubclass(cls, List):
            return cls.__args__
        else:
            raise ValueError('Cannot get type arguments for {}'.format(cls))
    typing.get_args = get_args

def construct_schema(schema_name: str, fun: Callable, skip_first_arg: bool=False, base_classes=(models.Model,), other_fields: Dict=None) -> models.ModelMeta:
    signature = inspect.signature(fun)
    param_list = list(signature.parameters.values())
    if skip_first_arg:
        param_list = param_list[1:]
    model_args = {}
    for param in param_list:
        model_args[param.name] = _convert_param_to_schematics(param)
    if other_fields:
        model_args.update(other_fields)
    return type(schema_name, tuple(base_classes), model_args)

def _convert_type_to_schematics(typ) -> Tuple:
    schema_type = None
    schema_args = []
    if typ == int:
        schema_type = types.IntType
    elif typ == float:
        schema_type = types.FloatType
    elif typ == str:
        schema_type = types.StringType
    elif typ == bool:
        schema_type = types.BooleanType
    elif typ == complex:
        schema_type = schema_types.ComplexNumberType
    elif typ == np.ndarray:
        schema_type = schema_types.NumpyArrayType
    elif typing_inspect.is_union_type(typ):
        schema_type = types.UnionType
        union_types = []
        for arg in typing_inspect.get_args(typ, evaluate=True):
            arg_typ, arg_args = _convert_type_to_schematics(arg)
            union_types.append(arg_typ(*arg_args))
        schema_args.append(union_types)
    elif typing_inspect.is_generic_type(typ):
        if issubclass(typing_inspect.get_type_class(typ), list):
            schema_type = types.ListType
            for arg in typing_inspect.get_args(typ, evaluate=True):
                arg_typ, arg_args = _convert_type_to_schematics(arg)
                schema_args.append(arg_typ(*arg_args))
        else:
            raise ValueError('Cannot convert type to schema type, got {}'.format(typ))
    elif issubclass(typ, optplan.ProblemGraphNode):
        schema_type = optplan.ReferenceType
        schema_args = [typ.Schema]
    elif issubclass(typ, optplan.Model):
        schema_type = types.PolyModelType
        schema_args = [typ]
    elif issubclass(typ, models.Model):
        schema_type = types.PolyModelType
        schema_args = [typ]
    else:
        raise ValueError('Cannot convert type to schema type, got {}'.format(typ))
    return (schema_type, schema_args)

def _convert_param_to_schematics(param):
    schema_type, schema_args = _convert_type_to_schematics(param.annotation)
    schema_kwargs = {}
    if param.default != param.empty:
        schema_kwargs['default'] = param.default
    else:
        schema_kwargs['required'] = True
    return schema_type(*schema_args, **schema_kwargs)

def generate_name(model_type: str) -> str:
    if model_type not in optplan.PROBLEM_GRAPH_NAME_MAP:
        optplan.PROBLEM_GRAPH_NAME_MAP[model_type] = 0
    name = '{}.{}'.format(model_type, optplan.PROBLEM_GRAPH_NAME_MAP[model_type])
    optplan.PROBLEM_GRAPH_NAME_MAP[model_type] += 1
    return name

def _iter_optplan_fields(model: models.Model, visited: Set[int], process_field: Callable[[models.Model, Union[str, optplan.ProblemGraphNodeSchema]], None], pass_field_info: bool=False) -> None:
    if not isinstance(model, models.Model):
        return
    if id(model) in visited:
        return
    visited.add(id(model))

    def process_field_wrapped(parent: models.Model, child: Union[str, optplan.ProblemGraphNodeSchema], field_type: optplan.ReferenceType) -> optplan.ProblemGraphNodeSchema:
        if pass_field_info:
            return_val = process_field(parent, child, field_type)
        else:
            return_val = process_field(parent, child)
        if return_val is None:
            return child
        return return_val
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for field_name, field_type in model.fields.items():
            if model[field_name] is None:
                continue
            if isinstance(model[field_name], models.Model):
                _iter_optplan_fields(model[field_name], visited, process_field, pass_field_info=pass_field_info)
            elif isinstance(field_type, types.ListType):
                for item in model[field_name]:
                    _iter_optplan_fields(item, visited, process_field, pass_field_info=pass_field_info)
            elif isinstance(field_type, types.DictType):
                for _, value in model[field_name].items():
                    _iter_optplan_fields(value, visited, process_field, pass_field_info=pass_field_info)
            if isinstance(field_type, optplan.ReferenceType):
                model[field_name] = process_field_wrapped(model, model[field_name], field_type)
            elif isinstance(field_type, types.ListType) and isinstance(field_type.field, optplan.ReferenceType):
                model[field_name] = [process_field_wrapped(model, m, field_type.field) for m in model[field_name]]
            elif isinstance(field_type, types.DictType) and isinstance(field_type.field, optplan.ReferenceType):
                model[field_name] = {key: process_field_wrapped(model, m, field_type.field) for key, m in model[field_name].items()}

def validate(plan: optplan.OptimizationPlanSchema) -> None:
    node_list = []
    if plan.nodes:
        node_list += plan.nodes
    if plan.actions:
        node_list += plan.actions
    for node in node_list:
        try:
            node_name = node.name
            node.validate()
        except Exception as exc:
            raise ValueError('Error encountered when validating node {}'.format(node_name)) from exc
    plan.validate()
    names = set()
    for node in plan.nodes:
        if node.name in names:
            raise ValueError('Nonunique name found: {}'.format(node.name))
        names.add(node.name)

def validate_references(model: models.Model) -> None:

    def process_field(parent: models.Model, child: Union[str, optplan.ProblemGraphNodeSchema], field_type: optplan.ReferenceType) -> None:
        if not child:
            return
        if not isinstance(child, (str, field_type.reference_type)) and (not isinstance(child, optplan.WildcardSchema)):
            raise ValueError('Expected type {} for node {}, got {}.'.format(field_type.reference_type, child, type(child)))
    _iter_optplan_fields(model, set(), process_field, pass_field_info=True)

def _validate_optplan_version(version: str) -> None:
    version_parts = [int(part) for part in version.split('.')]
    if version_parts < [0, 3]:
        raise ValueError('Optplan must be at least version 0.3.0, got {}'.format(version))

def loads(serialized_plan: str) -> optplan.OptimizationPlanSchema:
    plan = optplan.OptimizationPlanSchema(json.loads(serialized_plan))
    validate(plan)
    _validate_optplan_version(plan.version)
    node_map = {}
    for node in plan.nodes:
        node_map[node.name] = node

    def process_field(model: models.Model, child_model: str) -> models.Model:
        return node_map[child_model]
    visited = set()
    if plan.actions:
        for action in plan.actions:
            _iter_optplan_fields(action, visited, process_field)
    for node in plan.nodes:
        _iter_optplan_fields(node, visited, process_field)
    validate_references(plan)
    return plan

def dumps(plan: optplan.OptimizationPlanSchema) -> str:
    plan = copy.deepcopy(plan)
    validate_references(plan)
    model_list = []
    _extract_nodes(plan, model_list)
    _replace_ref_nodes_with_names(plan, model_list)
    plan.nodes = model_list
    validate(plan)
    return json.dumps(plan.to_primitive())

def _extract_nodes(value: Any, model_list: List[optplan.ProblemGraphNodeSchema]) -> None:
    if isinstance(value, optplan.ProblemGraphNodeSchema):
        if value not in model_list:
            model_list.append(value)
        else:
            return
    if isinstance(value, models.Model):
        for item in value.keys():
            _extract_nodes(value[item], model_list)
    elif isinstance(value, list):
        for item in value:
            _extract_nodes(item, model_list)
    elif isinstance(value, dict):
        for _, item in value.items():
            _extract_nodes(item, model_list)

def _replace_ref_nodes_with_names(model: models.Model, model_list: List[optplan.ProblemGraphNodeSchema]) -> None:

    def process_field(model: models.Model, child_model: models.Model) -> str:
        if isinstance(child_model, str):
            return child_model
        ind = model_list.index(child_model)
        return model_list[ind].name
    _iter_optplan_fields(model, set(), process_field)
