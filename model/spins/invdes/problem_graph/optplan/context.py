from typing import Callable, Dict, Optional
from schematics import models
CreatorFunction = Callable[['optplan.ProblemGraphNode', 'spins.invdes.Workspace'], object]

class OptplanContext:

    def __init__(self) -> None:
        self._optplan_node_map = {}

    def get_node_model(self, node_meta_type: str, node_type: str) -> Optional[models.Model]:
        if node_meta_type not in self._optplan_node_map:
            return None
        if node_type not in self._optplan_node_map[node_meta_type]:
            return None
        return self._optplan_node_map[node_meta_type][node_type][0]

    def get_node_creator(self, node_meta_type: str, node_type: str) -> Optional[CreatorFunction]:
        if node_meta_type not in self._optplan_node_map:
            return None
        if node_type not in self._optplan_node_map[node_meta_type]:
            return None
        return self._optplan_node_map[node_meta_type][node_type][1]

    def get_node_model_dict(self, node_meta_type: str) -> Dict[str, models.Model]:
        if node_meta_type not in self._optplan_node_map:
            return {}
        return {node_type: vals[0] for node_type, vals in self._optplan_node_map[node_meta_type].items()}

    def register_node_type(self, node_meta_type: str, node_type: str, model: models.Model, fun: CreatorFunction) -> None:
        node_map = self._optplan_node_map.get(node_meta_type, {})
        if node_type in node_map:
            raise ValueError("Node type '{}' with metatype '{}' was registered twice.".format(node_type, node_meta_type))
        node_map[node_type] = (model, fun)
        self._optplan_node_map[node_meta_type] = node_map

class OptplanContextStack:

    def __init__(self) -> None:
        self._stack = []

    def push(self, context: OptplanContext) -> None:
        self._stack.append(context)

    def pop(self) -> Optional[OptplanContext]:
        if self._stack:
            return self._stack.pop()
        return None

    def peek(self) -> Optional[OptplanContext]:
        if self._stack:
            return self._stack[-1]
        return None

    def get_node_model(self, node_meta_type: str, node_type: str) -> Optional[models.Model]:
        for context in reversed(self._stack):
            model = context.get_node_model(node_meta_type, node_type)
            if model:
                return model
        return None

    def get_node_creator(self, node_meta_type: str, node_type: str) -> Optional[CreatorFunction]:
        for context in reversed(self._stack):
            model = context.get_node_creator(node_meta_type, node_type)
            if model:
                return model
        return None

    def get_node_model_dict(self, node_meta_type: str) -> Dict[str, models.Model]:
        model_dict = {}
        for context in self._stack:
            model_dict.update(context.get_node_model_dict(node_meta_type))
        return model_dict
