from typing import List, Union
import copy
import dataclasses
import numbers
import numpy as np

class FlowMeta(type):

    def __new__(meta, name, bases, class_dict):
        cls = type.__new__(meta, name, bases, class_dict)
        cls = dataclasses.dataclass(cls, eq=False)
        cls_fields = dataclasses.fields(cls)
        nonconst_fields = []
        for field in cls_fields:
            if 'constant_field' in field.metadata and field.metadata['constant_field']:
                continue
            nonconst_fields.append(field)
        if 'ConstFlags' not in cls.__dict__:
            const_flag_fields = [(field.name, bool, dataclasses.field(default=False)) for field in nonconst_fields]
            cls.ConstFlags = dataclasses.make_dataclass(name + '.ConstFlags', const_flag_fields)

            def __bool__(self) -> bool:
                return all((getattr(self, field.name) for field in nonconst_fields))

            def set_all(self, value: bool) -> None:
                for field in nonconst_fields:
                    setattr(self, field.name, value)
            cls.ConstFlags.__bool__ = __bool__
            cls.ConstFlags.set_all = set_all
        if 'Grad' not in cls.__dict__:
            grad_fields = [(field.name + '_grad', field.type, np_zero_field(1)) for field in nonconst_fields]
            grad_bases = tuple((cls_base.Grad for cls_base in bases))
            cls.Grad = dataclasses.make_dataclass(name + '.Grad', grad_fields, bases=grad_bases)
            inherited_fields = set()
            for grad_base in grad_bases:
                inherited_fields.update(getattr(grad_base, '__dataclass_fields__', {}))

            def __iadd__(self, value):
                for field in grad_fields:
                    if field[0] in inherited_fields:
                        continue
                    field_val = getattr(self, field[0])
                    value_val = getattr(value, field[0])
                    try:
                        field_val.__iadd__(value_val)
                    except AttributeError:
                        setattr(self, field[0], value_val + field_val)
                return super(cls.Grad, self).__iadd__(value)
            cls.Grad.__iadd__ = __iadd__
        return cls

def np_zero_field(n: int):
    return dataclasses.field(default_factory=lambda: np.zeros(n))

def constant_field(**kwargs):
    if 'metadata' not in kwargs:
        kwargs['metadata'] = {}
    kwargs['metadata'].update({'constant_field': True})
    return dataclasses.field(**kwargs)

class Flow(metaclass=FlowMeta):

    class Grad:

        def __iadd__(self, value):
            return self

    def __eq__(self, other: 'Flow') -> bool:
        if self is other:
            return True
        if self.__class__ != other.__class__:
            raise NotImplementedError('Cannot compare flow types, got {} and {}'.format(self, other))
        for val1, val2 in zip(dataclasses.astuple(self), dataclasses.astuple(other)):
            if val1 is val2:
                equal = True
            elif isinstance(val1, np.ndarray) and isinstance(val2, np.ndarray):
                equal = val1.shape == val2.shape and (val1 == val2).all()
            else:
                equal = val1 == val2
            if not equal:
                return False
        return True

class NumericFlow(Flow):
    array: np.ndarray = 0

    @dataclasses.dataclass
    class Grad(Flow.Grad):
        array_grad: np.ndarray = np_zero_field(1)

        def __iadd__(self, value):
            self.array_grad += value.array_grad
            return super().__iadd__(value)

        def __eq__(self, value) -> bool:
            if type(self) == NumericFlow.Grad:
                if isinstance(value, numbers.Number):
                    return np.all(self.array_grad == value)
                elif isinstance(value, np.ndarray):
                    return np.all(self.array_grad == value)
                elif type(value) == NumericFlow.Grad:
                    return np.all(self.array_grad == value.array_grad)
            return super().__eq__(value)

    def __eq__(self, value) -> bool:
        if type(self) == NumericFlow:
            if isinstance(value, numbers.Number):
                return np.all(self.array == value)
            elif isinstance(value, np.ndarray):
                return np.all(self.array == value)
            elif type(value) == NumericFlow:
                return np.all(self.array == value.array)
        return super().__eq__(value)
