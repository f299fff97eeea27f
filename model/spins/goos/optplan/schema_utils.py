import copy
from typing import List, Optional, Tuple, Union
import warnings
from schematics import models
from schematics import types

def polymorphic_model_type(name: str) -> types.StringType:
    return types.StringType(default=name, choices=(name,), required=True)

def polymorphic_model(type_list: Optional[Union[List, Tuple[List]]]=None):

    def decorator(cls):
        if isinstance(type_list, tuple):
            for type_list_ in type_list:
                type_list_.append(cls)
        elif type_list is not None:
            type_list.append(cls)
        assert len(cls._schema.fields['type'].choices) == 1

        def _claim_polymorphic(data):
            return data['type'] == cls._schema.fields['type'].choices[0]
        cls._claim_polymorphic = _claim_polymorphic
        return cls
    return decorator

class CopyModelMixin:

    def __copy__(self):
        new_model = type(self)()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for key, value in self.items():
                new_model[key] = value
        return new_model

    def __deepcopy__(self, memo):
        new_model = type(self)()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for key, value in self.items():
                new_model[key] = copy.deepcopy(value, memo)
        return new_model

class KwargsModelMixin:

    def __init__(self, *args, **kwargs):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            init_kwargs = {}
            for key, value in kwargs.items():
                if key not in self._schema.fields.keys():
                    init_kwargs[key] = value
            super().__init__(*args, **init_kwargs)
            for key, item in kwargs.items():
                if key in self._schema.fields.keys():
                    self[key] = item

class Model(KwargsModelMixin, models.Model, CopyModelMixin):

    class Options:
        serialize_when_none = False
