import abc
import concurrent.futures
import functools
import numbers
from typing import List, Union
import numpy as np
from spins.invdes.parametrization import Parametrization
from spins.invdes.problem import graph_executor

class OptimizationFunction(metaclass=abc.ABCMeta):

    def __init__(self, inputs: Union['OptimizationFunction', List['OptimizationFunction']]=None, heavy_compute: bool=False) -> None:
        if inputs is None:
            return
        if isinstance(inputs, OptimizationFunction):
            inputs = [inputs]
        self._inputs = inputs
        self._heavy_compute = heavy_compute

    @property
    def heavy_compute(self) -> bool:
        return self._heavy_compute

    def calculate_gradient(self, param: Parametrization) -> np.ndarray:
        return graph_executor.eval_grad(self, param)

    def calculate_objective_function(self, param: Parametrization) -> float:
        return graph_executor.eval_fun(self, param)

    def eval(self, input_vals: List[np.ndarray]) -> np.ndarray:
        raise NotImplementedError()

    def grad(self, input_vals: List[np.ndarray], grad_val: np.ndarray) -> List[np.ndarray]:
        raise NotImplementedError()

    def __add__(self, obj):
        if isinstance(obj, Sum):
            return obj.__add__(self)
        if isinstance(obj, Constant):
            return Sum([self, obj], parallelize=False)
        if isinstance(obj, numbers.Number):
            return Sum([self, Constant(obj)], parallelize=False)
        if isinstance(obj, np.ndarray):
            return Sum([self, Constant(obj)], parallelize=False)
        if isinstance(obj, OptimizationFunction):
            return Sum([self, obj])
        raise TypeError('Attempting to add unknown object to objective')

    def __mul__(self, obj):
        if isinstance(obj, Product):
            return obj.__mul__(self)
        if isinstance(obj, Constant):
            return Product([self, obj], parallelize=False)
        if isinstance(obj, numbers.Number):
            return Product([self, Constant(obj)], parallelize=False)
        if isinstance(obj, np.ndarray):
            return Product([self, Constant(obj)], parallelize=False)
        if isinstance(obj, OptimizationFunction):
            return Product([self, obj])
        raise TypeError('Attempting to add unknown object to objective')

    def __pow__(self, obj):
        if isinstance(obj, numbers.Real):
            return Power(self, obj)
        if isinstance(obj, Constant):
            return Power(self, obj.value)
        raise TypeError('Attempting to raise objective to non-constant power.')

    def __radd__(self, obj):
        return self.__add__(obj)

    def __rmul__(self, obj):
        return self.__mul__(obj)

    def __sub__(self, obj):
        return self + -obj

    def __rsub__(self, obj):
        return -self + obj

    def __neg__(self):
        return -1 * self

def calculate_objective_parallel(objs: List[OptimizationFunction], param: Parametrization) -> List[float]:

    def calculate_objective(obj: OptimizationFunction) -> float:
        return obj.calculate_objective_function(param)
    if not objs:
        return []
    elif len(objs) == 1:
        return [calculate_objective(objs[0])]
    with concurrent.futures.ThreadPoolExecutor(max_workers=len(objs)) as executor:
        return list(executor.map(calculate_objective, objs))

def calculate_gradient_parallel(objs: List[OptimizationFunction], param: Parametrization) -> List[float]:

    def calculate_gradient(obj: OptimizationFunction) -> float:
        return obj.calculate_gradient(param)
    if not objs:
        return []
    elif len(objs) == 1:
        return [calculate_gradient(objs[0])]
    with concurrent.futures.ThreadPoolExecutor(max_workers=len(objs)) as executor:
        return list(executor.map(calculate_gradient, objs))

class OptimizationProblem:

    def __init__(self, obj: OptimizationFunction, cons_eq: List[OptimizationFunction]=None, cons_ineq: List[OptimizationFunction]=None):
        self.obj = obj
        if cons_eq is None:
            cons_eq = []
        if cons_ineq is None:
            cons_ineq = []
        self.cons_eq = cons_eq
        self.cons_ineq = cons_ineq

    def calculate_objective_function(self, param):
        return self.obj.calculate_objective_function(param)

    def calculate_gradient(self, param):
        return self.obj.calculate_gradient(param)

    def calculate_constraints(self, param):
        cons = calculate_objective_parallel(self.cons_eq + self.cons_ineq, param)
        return (np.array(cons[:len(self.cons_eq)]), np.array(cons[len(self.cons_eq):]))

    def calculate_constraint_gradients(self, param):
        cons = calculate_gradient_parallel(self.cons_eq + self.cons_ineq, param)
        return (cons[:len(self.cons_eq)], cons[len(self.cons_eq):])

    def get_objective(self):
        return self.obj

    def get_equality_constraints(self):
        return self.cons_eq

    def get_inequality_constraints(self):
        return self.cons_ineq

class Variable(OptimizationFunction):

    def __init__(self, size: int) -> None:
        super().__init__([])
        self.shape = size

    def grad(self, input_vals: List[np.ndarray], grad_val: np.ndarray) -> List[np.ndarray]:
        return []

    def __getitem__(self, index):
        return ValueSlice(self, index)

class Constant(OptimizationFunction):

    def __init__(self, value) -> None:
        super().__init__([])
        self.value = value
        self.value_shape = np.array(self.value).shape

    def calculate_objective_function(self, param: Parametrization) -> float:
        return self.value

    def calculate_gradient(self, param: Parametrization) -> float:
        return np.zeros(self.value_shape + (len(param.to_vector()),))

    def eval(self, input_vals: List[np.ndarray]) -> np.ndarray:
        return self.value

    def grad(self, input_vals, grad_val):
        return [0]

    def __add__(self, obj):
        if isinstance(obj, Constant):
            return Constant(self.value + obj.value)
        if isinstance(obj, numbers.Number):
            return Constant(self.value + obj)
        if isinstance(obj, np.ndarray):
            return Constant(self.value + obj)
        return super().__add__(obj)

    def __mul__(self, obj):
        if isinstance(obj, Constant):
            return Constant(self.value * obj.value)
        if isinstance(obj, numbers.Number):
            return Constant(self.value * obj)
        if isinstance(obj, np.ndarray):
            return Constant(self.value * obj)
        return super().__mul__(obj)

    def __neg__(self):
        return Constant(-self.value)

    def __pow__(self, obj):
        return Constant(self.value ** obj)

    def __str__(self):
        return str(self.value)

class Parameter(OptimizationFunction):

    def __init__(self, initial_value: np.ndarray) -> None:
        super().__init__([])
        self.value = initial_value
        self.value_shape = np.array(self.value).shape

    def set_parameter_value(self, value: np.ndarray) -> None:
        self.value = value

    def calculate_objective_function(self, param: Parametrization) -> float:
        return self.value

    def calculate_gradient(self, param: Parametrization) -> float:
        return np.zeros(self.value_shape + (len(param.to_vector()),))

    def eval(self, input_vals: List[np.ndarray]) -> np.ndarray:
        return self.value

    def grad(self, input_vals, grad_val):
        return [0]

    def __str__(self):
        return str(self.value)

class ValueSlice(OptimizationFunction):

    def __init__(self, variable: Variable, index: int) -> None:
        super().__init__(variable)
        self._index = index
        self._shape = variable.shape

    def eval(self, input_vals: List[np.ndarray]) -> np.ndarray:
        return input_vals[0][self._index]

    def grad(self, input_vals: List[np.ndarray], grad_val: np.ndarray) -> List[np.ndarray]:
        grad_res = np.zeros(self._shape)
        grad_res[self._index] = grad_val
        return [grad_res]

    def __str__(self):
        return 'p[' + str(self._index) + ']'

class Sum(OptimizationFunction):

    def __init__(self, objectives: List[OptimizationFunction], weights: np.ndarray=None, parallelize: bool=True) -> None:
        self.parallelize = parallelize
        if weights is not None:
            self.objectives = []
            for i, obj in enumerate(objectives):
                self.objectives.append(weights[i] * obj)
        else:
            self.objectives = objectives
        super().__init__(self.objectives)

    def eval(self, input_vals: List[np.ndarray]) -> np.ndarray:
        return np.array(sum(input_vals))

    def grad(self, input_vals: List[np.ndarray], grad_val: np.ndarray) -> List[np.ndarray]:
        return [grad_val] * len(input_vals)

    def __add__(self, obj):
        if isinstance(obj, Sum):
            parallelize = self.parallelize or obj.parallelize
            return Sum(self.objectives + obj.objectives, parallelize=parallelize)
        if isinstance(obj, OptimizationFunction):
            return Sum(self.objectives + [obj], parallelize=self.parallelize)
        if isinstance(obj, numbers.Number):
            return Sum(self.objectives + [Constant(obj)], parallelize=self.parallelize)
        if isinstance(obj, np.ndarray):
            return Sum(self.objectives + [Constant(obj)], parallelize=self.parallelize)
        raise TypeError('Attempting to add unknown type to objective function.')

    def __str__(self):
        string = '(' + ' + '.join((str(obj) for obj in self.objectives)) + ')'
        if self.parallelize:
            string = '||' + string
        return string

class Product(OptimizationFunction):

    def __init__(self, objectives: List[OptimizationFunction], parallelize: bool=True) -> None:
        super().__init__(objectives)
        self.objectives = objectives
        self.parallelize = parallelize

    def eval(self, input_vals: List[np.ndarray]) -> np.ndarray:
        total = 1.0
        for obj in input_vals:
            total = total * obj
        return total

    def grad(self, input_vals: List[np.ndarray], grad_val: np.ndarray) -> List[np.ndarray]:
        grads = []
        for i in range(len(input_vals)):
            prod_before = functools.reduce(np.multiply, input_vals[:i], 1.0)
            prod_after = functools.reduce(np.multiply, input_vals[i + 1:], 1.0)
            grads.append(prod_before * prod_after * grad_val)
        return grads

    def __mul__(self, obj):
        if isinstance(obj, Product):
            parallelize = self.parallelize or obj.parallelize
            return Product(self.objectives + obj.objectives, parallelize)
        if isinstance(obj, OptimizationFunction):
            return Product(self.objectives + [obj], self.parallelize)
        if isinstance(obj, numbers.Number):
            return Product(self.objectives + [Constant(obj)], self.parallelize)
        if isinstance(obj, np.ndarray):
            return Product(self.objectives + [Constant(obj)], self.parallelize)
        raise TypeError('Attempting to add unknown type to objective function.')

    def __str__(self):
        string = '({0})'.format(' * '.join((str(obj) for obj in self.objectives)))
        if self.parallelize:
            string = '||' + string
        return string

class Power(OptimizationFunction):

    def __init__(self, obj, power):
        super().__init__(obj)
        self.power = power
        self.obj = obj

    def eval(self, input_vals: List[np.ndarray]) -> np.ndarray:
        return input_vals[0] ** self.power

    def grad(self, input_vals: List[np.ndarray], grad_val: np.ndarray) -> List[np.ndarray]:
        return [grad_val * self.power * input_vals[0] ** (self.power - 1)]

    def __str__(self):
        return str(self.obj) + '**' + str(self.power)

class AbsoluteValue(OptimizationFunction):

    def __init__(self, objective):
        super().__init__(objective)

    def eval(self, input_vals: List[np.ndarray]) -> np.ndarray:
        return np.abs(input_vals[0])

    def grad(self, input_vals: List[np.ndarray], grad_val: np.ndarray) -> List[np.ndarray]:
        grad = np.conj(input_vals[0]) / abs(input_vals[0])
        return [grad_val * grad]

    def __str__(self):
        return 'abs({})'.format(self._inputs[0])

class IndicatorPlus(OptimizationFunction):

    def __init__(self, objective: OptimizationFunction, alpha: float=0, power: float=2):
        super().__init__(objective)
        self.obj = objective
        self.alpha = alpha
        self.power = power

    def eval(self, input_vals: List[np.ndarray]) -> np.ndarray:
        return (input_vals[0] > self.alpha) * abs(input_vals[0] - self.alpha) ** self.power

    def grad(self, input_vals: List[np.ndarray], grad_val: np.ndarray) -> List[np.ndarray]:
        alpha_diff = input_vals[0] - self.alpha
        graph_alpha = (input_vals[0] > self.alpha) * self.power * abs(alpha_diff) ** (self.power - 1) * np.sign(alpha_diff)
        return [grad_val * graph_alpha]

    def __str__(self):
        return 'I_plus({0}-{1})**{2}'.format(str(self.obj), self.alpha, self.power)

class IndicatorMin(OptimizationFunction):

    def __init__(self, objective: OptimizationFunction, beta: float=0, power: float=2):
        super().__init__(objective)
        self.obj = objective
        self.beta = beta
        self.power = power

    def eval(self, input_vals: List[np.ndarray]) -> np.ndarray:
        return (input_vals[0] < self.beta) * abs(self.beta - input_vals[0]) ** self.power

    def grad(self, input_vals: List[np.ndarray], grad_val: np.ndarray) -> List[np.ndarray]:
        beta_diff = self.beta - input_vals[0]
        graph_beta = (input_vals[0] < self.beta) * self.power * abs(beta_diff) ** (self.power - 1) * np.sign(beta_diff) * -1
        return [grad_val * graph_beta]

    def __str__(self):
        return 'I_min({0}-{1})**{2}'.format(self.obj, self.beta, self.power)

class PowerComparison(OptimizationFunction):

    def __init__(self, objective: List[OptimizationFunction], value_range: Union[List[float], np.ndarray], power: float=1):
        super().__init__(objective)
        self.alpha = value_range[1]
        self.beta = value_range[0]
        self._power = power

    def eval(self, input_vals: List[np.ndarray]) -> np.ndarray:
        beta_term = (input_vals[0] < self.beta) * abs(self.beta - input_vals[0]) ** self._power
        alpha_term = (input_vals[0] > self.alpha) * abs(input_vals[0] - self.alpha) ** self._power
        return alpha_term + beta_term

    def grad(self, input_vals: List[np.ndarray], grad_val: np.ndarray) -> List[np.ndarray]:
        alpha_diff = input_vals[0] - self.alpha
        beta_diff = self.beta - input_vals[0]
        graph_alpha = (input_vals[0] > self.alpha) * self._power * abs(alpha_diff) ** (self._power - 1) * np.sign(alpha_diff)
        graph_beta = (input_vals[0] < self.beta) * self._power * abs(beta_diff) ** (self._power - 1) * np.sign(beta_diff) * -1
        return [grad_val * (graph_beta + graph_alpha)]

    def __str__(self) -> str:
        return 'PowerComp({0}-{1}, power = {2})'.format(self.beta, self.alpha, self._power)

class LogSumExp(OptimizationFunction):

    def __init__(self, objectives: List[OptimizationFunction]):
        super().__init__(objectives)
        self.objectives = objectives

    def eval(self, input_vals: List[np.ndarray]) -> np.ndarray:
        max_val = np.max(input_vals)
        return max_val + np.log(np.sum(np.exp(np.array(input_vals) - max_val)))

    def grad(self, input_vals: List[np.ndarray], grad_val: np.ndarray) -> List[np.ndarray]:
        max_val = np.max(input_vals)
        denom = np.sum(np.exp(np.array(input_vals) - max_val))
        grads = []
        for i in range(len(self.objectives)):
            grads.append(1 / denom * np.exp(input_vals[i] - max_val))
        return grad_val * np.array(grads)

    def __str__(self):
        return 'LogSumExp({0})'.format(', '.join((str(obj) for obj in self.objectives)))

class SoftmaxAverage(OptimizationFunction):

    def __init__(self, objectives: List[OptimizationFunction]):
        super().__init__(objectives)
        self.objectives = objectives

    def eval(self, input_vals: List[np.ndarray]) -> np.ndarray:
        max_val = np.max(input_vals)
        weights = np.exp(input_vals - max_val)
        denom = np.sum(weights)
        return np.dot(input_vals, weights) / denom

    def grad(self, input_vals: List[np.ndarray], grad_val: np.ndarray) -> List[np.ndarray]:
        max_val = np.max(input_vals)
        weights = np.exp(input_vals - max_val)
        num = np.dot(input_vals, weights)
        denom = np.sum(weights)
        grads = []
        for i in range(len(self.objectives)):
            grad_num = (weights[i] + input_vals[i] * weights[i]) * denom - num * weights[i]
            grad_denom = denom ** 2
            grads.append(grad_num / grad_denom)
        return grad_val * np.array(grads)

    def __str__(self):
        return 'SoftmaxAvg({0})'.format(', '.join((str(obj) for obj in self.objectives)))

class RealPart(OptimizationFunction):

    def __init__(self, fun: OptimizationFunction) -> None:
        super().__init__(fun)
        self._fun = fun

    def eval(self, input_vals: List[np.ndarray]) -> np.ndarray:
        return np.real(input_vals[0])

    def grad(self, input_vals: List[np.ndarray], grad_val: np.ndarray) -> List[np.ndarray]:
        return [grad_val]
