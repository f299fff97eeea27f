import logging
import numpy as np
from spins.invdes.optimization.scipy_optimizer import ScipyOptimizer
from spins.invdes.problem import OptimizationProblem, SlackOptimizationProblem, Sum
logger = logging.getLogger(__name__)

class PenaltyOptimizer:

    def __init__(self, optimizer=None, options={}):
        self.mu0 = options.get('mu0', 2)
        self.tau = options.get('tau', 1.5)
        self.pf = options.get('pf', 2)
        self.num_cycles = options.get('num_cycles', 10)
        self.cycle_num = 0
        self.maxiter = options.get('maxiter', 30)
        self.ftol = options.get('ftol', 1e-09)
        self.gtol = options.get('gtol', 1e-07)
        self.optimizer = optimizer

    def __call__(self, opt, param, callback=None, cycle_callback=None):
        opt = SlackOptimizationProblem(opt)
        slack_param = opt.build_param(param)
        mu = self.mu0
        for k in range(self.cycle_num, self.num_cycles):
            self.cycle_num = k
            self.mu = mu
            logger.info('Running penalty objective cycle {} with mu {}'.format(k, mu))
            penalty_obj = opt.get_objective() + mu * Sum([eq ** self.pf for eq in opt.get_equality_constraints()])
            penalty_opt = OptimizationProblem(penalty_obj)
            ftol = max(1 / 100 ** (k + 1), self.ftol)
            if self.optimizer is None:
                optimizer = ScipyOptimizer(method='L-BFGS-B', options={'ftol': ftol, 'gtol': self.gtol, 'maxiter': self.maxiter})
            else:
                optimizer = self.optimizer

            def aug_callback(x):
                slack_param.from_vector(x)
                logger.info('Current penalty objective: {}'.format(penalty_opt.calculate_objective_function(slack_param)))
                if callback:
                    callback(slack_param.get_param())
            slack_param = optimizer(penalty_opt, slack_param, callback=aug_callback)
            res = optimizer.get_results()
            mu = mu ** self.tau
            if cycle_callback:
                cycle_callback(slack_param.get_param())
        return slack_param.get_param()

class AugmentedLagrangianOptimizer:

    def __init__(self, options={}):
        maxiter = options.get('maxiter', 15)
        self.optimizer = ScipyOptimizer(method='L-BFGS-B', options={'maxiter': maxiter})
        self.lagrangian_tolerance_final = options.get('lagr_tol', 1e-07)
        self.constraint_tolerance_final = options.get('cons_tol', 1e-07)
        self.mu0 = options.get('mu0', 10)
        self.mu_exp = options.get('mu_exp', 2)
        self.num_cycles = options.get('num_cycles', 10)

    def __call__(self, opt, param, callback=None, cycle_callback=None):
        if not isinstance(opt, OptimizationProblem):
            opt = OptimizationProblem(opt)
        opt = SlackOptimizationProblem(opt)
        slack_param = opt.build_param(param)
        mu = self.mu0
        lagr_var0 = np.ones(len(opt.get_equality_constraints()))
        lagr_var = lagr_var0.astype(float)
        lagrangian_tolerance = 1 / mu ** self.mu_exp
        constraint_tolerance = 1 / mu ** 0.1
        for k in range(self.num_cycles):
            logger.info('Running augmented Lagrangian cycle {}'.format(k))
            sgn = -1
            lagrangian_obj = opt.get_objective() + sgn * Sum(opt.get_equality_constraints(), weights=lagr_var, parallelize=False) + 0.5 * mu * Sum([eq ** 2 for eq in opt.get_equality_constraints()], parallelize=False)
            lagrangian = OptimizationProblem(lagrangian_obj)

            def aug_callback(x):
                slack_param.from_vector(x)
                logger.info('Current Augmented Lagrangian objective: {}'.format(lagrangian.calculate_objective_function(slack_param)))
                if callback:
                    callback(slack_param.get_param())
            if self.optimizer.options is None:
                self.optimizer.options = {}
            self.optimizer.options['ftol'] = lagrangian_tolerance
            slack_param = self.optimizer(lagrangian, slack_param, callback=aug_callback)
            constraints_val, ineq_cons = opt.calculate_constraints(slack_param)
            total_constraint_err = np.sum(np.abs(constraints_val))
            if total_constraint_err < constraint_tolerance:
                if lagrangian_tolerance < self.lagrangian_tolerance_final and total_constraint_err < self.constraint_tolerance_final:
                    break
                lagr_var += sgn * mu * constraints_val
                constraint_tolerance /= mu ** 0.9
                lagrangian_tolerance /= mu
            else:
                mu *= 100
                constraint_tolerance = 1 / mu ** 0.1
                lagrangian_tolerance = 1 / mu
            if cycle_callback:
                cycle_callback(slack_param.get_param())
        return slack_param.get_param()
