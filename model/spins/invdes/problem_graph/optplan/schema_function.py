import numbers
from typing import Union
from schematics import types
from spins.invdes.problem_graph import optplan
from spins.invdes.problem_graph import schema_utils

@optplan.register_node_type()
class Sum(optplan.Function):
    type = schema_utils.polymorphic_model_type('function.sum')
    functions = types.ListType(optplan.ReferenceType(optplan.Function), default=[])

    def __add__(self, obj):
        if isinstance(obj, Sum):
            return Sum(functions=self.functions + obj.functions)
        if isinstance(obj, optplan.Function):
            return Sum(functions=self.functions + [obj])
        if isinstance(obj, (numbers.Number, optplan.ComplexNumber)):
            return Sum(functions=self.functions + [make_constant(obj)])
        raise TypeError('Attempting to add a node with type {} to type `Sum`.'.format(type(obj)))

@optplan.register_node_type()
class Product(optplan.Function):
    type = schema_utils.polymorphic_model_type('function.product')
    functions = types.ListType(optplan.ReferenceType(optplan.Function))

    def __mul__(self, obj):
        if isinstance(obj, Product):
            return Product(functions=self.functions + obj.functions)
        if isinstance(obj, optplan.Function):
            return Product(functions=self.functions + [obj])
        if isinstance(obj, (numbers.Number, optplan.ComplexNumber)):
            return Product(functions=self.functions + [make_constant(obj)])
        raise TypeError('Attempting to multiply a node with type {} to type `Product`.'.format(type(obj)))

@optplan.register_node_type()
class Power(optplan.Function):
    type = schema_utils.polymorphic_model_type('function.power')
    function = optplan.ReferenceType(optplan.Function)
    exp = types.FloatType()

@optplan.register_node_type()
class PowerComp(optplan.Function):
    type = schema_utils.polymorphic_model_type('function.power_comp')
    function = optplan.ReferenceType(optplan.Function)
    value = types.FloatType()
    range = types.FloatType()
    exp = types.FloatType()

@optplan.register_node_type()
class Abs(optplan.Function):
    type = schema_utils.polymorphic_model_type('function.abs')
    function = optplan.ReferenceType(optplan.Function)

def abs(fun: optplan.Function) -> optplan.Function:
    return Abs(function=fun)

@optplan.register_node_type()
class Constant(optplan.Function):
    type = schema_utils.polymorphic_model_type('function.constant')
    value = types.ModelType(optplan.ComplexNumber, default=optplan.ComplexNumber())

def make_constant(value: Union[numbers.Number, optplan.ComplexNumber]) -> Constant:
    if isinstance(value, numbers.Number):
        complex_value = complex(value)
        value = optplan.ComplexNumber(real=complex_value.real, imag=complex_value.imag)
    return Constant(value=value)

@optplan.register_node_type()
class Parameter(optplan.Function):
    type = schema_utils.polymorphic_model_type('function.parameter')
    initial_value = types.FloatType()
