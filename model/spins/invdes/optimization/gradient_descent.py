import copy
import logging
import numpy as np
import scipy.io
from spins.invdes.problem.objective import OptimizationFunction
from spins.invdes.parametrization import Parametrization
import sys
logger = logging.getLogger(__name__)

class GradientOptimizer:

    def __init__(self):
        self._iters = 0
        self._max_iters = None
        self._param = None

    @property
    def iter(self):
        return self._iters

    @property
    def max_iters(self):
        return self._max_iters

    @max_iters.setter
    def max_iters(self, val):
        self._max_iters = val

    @property
    def param(self):
        return self._param

    @param.setter
    def param(self, val):
        self._param = val

    def iterate(self):
        raise NotImplementedError('iterate is not implemented.')

    def optimize(self, iters=None, callback=None):
        stop_iter_list = []
        if iters:
            stop_iter_list.append(self._iters + iters)
        if self._max_iters:
            stop_iter_list.append(self._max_iters)
        stop_iter = None
        if stop_iter_list:
            stop_iter = np.min(stop_iter_list)
        while True:
            stop_opt = self.iterate()
            self._iters += 1
            if callback:
                callback(self.param)
            if stop_iter and self._iters >= stop_iter:
                break
            if stop_opt:
                break

class GradientDescent(GradientOptimizer):

    def __init__(self, objective: OptimizationFunction, parametrization: Parametrization, learning_rate: float, normalize_gradient: bool=False):
        super().__init__()
        self.alpha = learning_rate
        self.objective = objective
        self.param = parametrization
        self.normalize_gradient = normalize_gradient
        if self.normalize_gradient:
            logger.warning('Normalizing gradient: Convergence not guaranteed.')

    def iterate(self):
        logger.debug('Iterating...')
        gradient = self.objective.calculate_gradient(self.param)
        gradient_norm = np.linalg.norm(gradient)
        if self.normalize_gradient:
            gradient /= gradient_norm
        self.param.decode(self.param.encode() - self.alpha * gradient)
        self.param.project()
        logger.debug(('Performed gradient descent step with step size {0} ' + 'and gradient norm: {1}').format(self.alpha, gradient_norm))

class AdaptiveGradientDescent(GradientOptimizer):

    def __init__(self, objective: OptimizationFunction, parametrization: Parametrization, learning_rate: float, success_factor: float=1.3, failure_factor: float=0.3, stop_tolerance: float=1e-08):
        super().__init__()
        self.alpha = learning_rate
        self.objective = objective
        self.param = parametrization
        self.success_factor = success_factor
        self.failure_factor = failure_factor
        self.objective_value = objective.calculate_objective_function(self.param)
        self.stop_tolerance = stop_tolerance

    def iterate(self):
        logger.debug('Iterating...')
        gradient = self.objective.calculate_gradient(self.param)
        gradient_norm = np.linalg.norm(gradient)
        logger.debug('Gradient norm is {0}'.format(gradient_norm))
        if gradient_norm < self.stop_tolerance:
            logger.debug('Hit gradient tolerance. Stopping optimization...')
            return True
        while True:
            old_vector = self.param.encode()
            new_vector = old_vector - self.alpha * gradient
            self.param.decode(new_vector)
            self.param.project()
            new_objective_value = self.objective.calculate_objective_function(self.param)
            if new_objective_value <= self.objective_value:
                logger.debug('Successful step with step size {0}'.format(self.alpha))
                self.objective_value = new_objective_value
                self.alpha *= self.success_factor
                logger.debug('New objective value: {0}'.format(self.objective_value))
                break
            else:
                logger.debug('Step size {0} too big. Shrinking...'.format(self.alpha))
                self.alpha *= self.failure_factor
                self.param.decode(old_vector)

class Adagrad(GradientOptimizer):

    def __init__(self, objective: OptimizationFunction, parametrization: Parametrization, learning_rate: float):
        super().__init__()
        self.alpha = learning_rate
        self.objective = objective
        self.param = parametrization
        self.historical_gradient = 0

    def iterate(self):
        logger.debug('Iterating...')
        gradient = self.objective.calculate_gradient(self.param)
        gradient_norm = np.linalg.norm(gradient)
        eps = 1e-06
        self.historical_gradient += gradient * gradient
        self.param.from_vector(self.param.to_vector() - self.alpha * gradient / np.sqrt(self.historical_gradient + eps))
        logger.debug('Performed adagrad step with gradient norm: {0}'.format(gradient_norm))

class RmsProp(GradientOptimizer):

    def __init__(self, objective: OptimizationFunction, parametrization: Parametrization, learning_rate: float=0.01, gamma: float=0.9):
        super().__init__()
        self.alpha = learning_rate
        self.objective = objective
        self.param = parametrization
        self.gamma = gamma
        self.grad_var = 0

    def iterate(self):
        logger.debug('Iterating...')
        gradient = self.objective.calculate_gradient(self.param)
        gradient_norm = np.linalg.norm(gradient)
        eps = 1e-06
        self.grad_var = self.gamma * self.grad_var + (1 - self.gamma) * (gradient * gradient)
        self.param.from_vector(self.param.to_vector() - self.alpha * gradient / np.sqrt(self.grad_var + eps))
        logger.debug('Performed rmsprop step with gradient norm: {0}'.format(gradient_norm))

class Adam(GradientOptimizer):

    def __init__(self, objective: OptimizationFunction, parametrization: Parametrization, learning_rate: float=0.01, beta1: float=0.9, beta2: float=0.999):
        super().__init__()
        self.alpha = learning_rate
        self.objective = objective
        self.param = parametrization
        self.beta1 = beta1
        self.beta2 = beta2
        self.grad = 0
        self.grad_var = 0

    def iterate(self):
        logger.debug('Iterating...')
        gradient = self.objective.calculate_gradient(self.param)
        gradient_norm = np.linalg.norm(gradient)
        eps = 1e-08
        self.grad = self.beta1 * self.grad + (1 - self.beta1) * gradient
        self.grad_var = self.beta2 * self.grad_var + (1 - self.beta2) * (gradient * gradient)
        grad_corrected = self.grad / (1 - self.beta1 ** (self.iter + 1))
        grad_var_corrected = self.grad_var / (1 - self.beta2 ** (self.iter + 1))
        self.param.from_vector(self.param.to_vector() - self.alpha * grad_corrected / (np.sqrt(grad_var_corrected) + eps))
        logger.debug('Performed adam step with gradient norm: {0}'.format(gradient_norm))

class Nag(GradientOptimizer):

    def __init__(self, objective: OptimizationFunction, parametrization: Parametrization, learning_rate: float=0.01, gamma: float=0.9):
        super().__init__()
        self.alpha = learning_rate
        self.objective = objective
        self.param = parametrization
        self.gamma = gamma
        self.grad = 0

    def iterate(self):
        logger.debug('Iterating...')
        temp_param = copy.deepcopy(self.param)
        temp_param.from_vector(self.param.to_vector() - self.gamma * self.grad)
        gradient = self.objective.calculate_gradient(temp_param)
        gradient_norm = np.linalg.norm(gradient)
        self.grad = self.gamma * self.grad + self.alpha * gradient
        self.param.from_vector(self.param.to_vector() - self.grad)
        logger.debug('Performed NAG step with gradient norm: {0}'.format(gradient_norm))
