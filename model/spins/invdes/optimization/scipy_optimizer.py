import logging
import numpy as np
import scipy.optimize
from spins.invdes.problem.objective import OptimizationFunction, OptimizationProblem
from spins.invdes.parametrization import Parametrization
logger = logging.getLogger(__name__)

class ScipyOptimizer:

    def __init__(self, objective: OptimizationFunction=None, parametrization: Parametrization=None, method: str=None, tol: float=None, options=None, constraints=(), bounds=None):
        self.objective = objective
        self.param = parametrization
        self.method = method
        self.options = options
        self.constraints = constraints
        self.bounds = bounds
        self.tol = tol
        if options:
            if 'tol' in options.keys():
                self.tol = options['tol']
                self.options = {key: value for key, value in options.items() if key != 'tol'}

    def __call__(self, opt, param, callback=None):
        if isinstance(opt, OptimizationFunction):
            opt = OptimizationProblem(opt)
        objective = opt.get_objective()

        def func(x):
            param.from_vector(x)
            return objective.calculate_objective_function(param)

        def jacobian(x):
            param.from_vector(x)
            return np.asfortranarray(objective.calculate_gradient(param))
        methods_that_need_jacobian = {'CG', 'BFGS', 'L-BFGS-B', 'TNC', 'SLSQP', 'dogleg', 'trust-ncg'}
        jac = None
        if self.method in methods_that_need_jacobian:
            jac = jacobian
        methods_that_accept_bounds = {'L-BFGS-B', 'TNC', 'SLSQP'}
        bounds = None
        if self.method in methods_that_accept_bounds:
            bounds = self.bounds
            if bounds is None:
                bounds = param.get_bounds()
                if bounds:
                    bounds = list(zip(*param.get_bounds()))
        methods_that_accept_constraints = {'SLSQP', 'COBYLA'}
        constraints = None
        if self.method in methods_that_accept_constraints:
            constraints = []
            for eq in opt.get_equality_constraints():

                def cons_fun(x, eq=eq):
                    param.from_vector(x)
                    return eq.calculate_objective_function(param)

                def cons_jac(x, eq=eq):
                    param.from_vector(x)
                    return eq.calculate_gradient(param)
                constraints.append({'type': 'eq', 'fun': cons_fun, 'jac': cons_jac})
            for ineq in opt.get_inequality_constraints():

                def cons_fun(x, ineq=ineq):
                    param.from_vector(x)
                    return -ineq.calculate_objective_function(param)

                def cons_jac(x, ineq=ineq):
                    param.from_vector(x)
                    return -ineq.calculate_gradient(param)
                constraints.append({'type': 'ineq', 'fun': cons_fun, 'jac': cons_jac})
            if self.constraints:
                constraints += self.constraints
        elif len(opt.get_equality_constraints()) > 0 or len(opt.get_inequality_constraints()) > 0:
            logger.warning('Ignoring constraints...')
        self.results = scipy.optimize.minimize(func, param.to_vector(), jac=jac, tol=self.tol, method=self.method, options=self.options, callback=callback, constraints=constraints, bounds=bounds)
        param.from_vector(self.results['x'])
        return param

    def optimize(self, callback=None):
        return self(self.objective, self.param, callback)

    def get_results(self):
        return self.results
