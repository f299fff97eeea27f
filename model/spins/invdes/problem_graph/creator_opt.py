from typing import Callable, Dict, Optional, Union
from spins.invdes import optimization as optim
from spins.invdes import parametrization
from spins.invdes import problem
from spins.invdes.problem_graph import optplan
from spins.invdes.problem_graph import workspace

class ScipyOptimizer:
    EVENT_STATE_START = 'start'
    EVENT_STATE_OPTIMIZING = 'optimizing'
    EVENT_STATE_END = 'end'
    EVENT_STATE = 'state'
    EVENT_ITERATION = 'iteration'

    def __init__(self, opt_prob: problem.OptimizationProblem, logger: workspace.Logger, optimizer: str='L-BFGS', monitor_lists: Optional[optplan.ScipyOptimizerMonitorList]=None, optimization_options: Optional[Dict]=None) -> None:
        self._opt_prob = opt_prob
        self.optimizer = optimizer
        if optimization_options is None:
            optimization_options = {}
        else:
            optimization_options = {key: value for key, value in optimization_options.items() if value}
        self.optimization_options = optimization_options
        self.monitor_lists = monitor_lists
        if not self.monitor_lists:
            self.monitor_lists = optplan.ScipyOptimizerMonitorList()
        self.logger = logger

    def __call__(self, param: parametrization.Parametrization, event_data: Optional[Dict]=None) -> None:
        state_completed = None
        iteration = 0
        if event_data:
            state_completed = event_data[ScipyOptimizer.EVENT_STATE]
            if ScipyOptimizer.EVENT_ITERATION in event_data:
                iteration = event_data[ScipyOptimizer.EVENT_ITERATION]
        if not state_completed:
            self._start(param)
            state_completed = ScipyOptimizer.EVENT_STATE_START
        if state_completed in (ScipyOptimizer.EVENT_STATE_START, ScipyOptimizer.EVENT_STATE_OPTIMIZING):
            self._iterate(param, iteration)
            state_completed = ScipyOptimizer.EVENT_STATE_OPTIMIZING
        if state_completed == ScipyOptimizer.EVENT_STATE_OPTIMIZING:
            self._end(param)
            state_completed = ScipyOptimizer.EVENT_STATE_END

    def _start(self, param: parametrization.Parametrization) -> None:
        transformation_state = {ScipyOptimizer.EVENT_STATE: ScipyOptimizer.EVENT_STATE_START}
        self.logger.write(event=transformation_state, param=param, monitor_list=self.monitor_lists.start_monitors)

    def _iterate(self, param: parametrization.Parametrization, iteration: int) -> None:
        iter_num = iteration

        def _callback(_) -> None:
            nonlocal iter_num
            iter_num += 1
            transformation_state = {ScipyOptimizer.EVENT_ITERATION: iter_num, ScipyOptimizer.EVENT_STATE: ScipyOptimizer.EVENT_STATE_OPTIMIZING}
            self.logger.write(event=transformation_state, param=param, monitor_list=self.monitor_lists.callback_monitors)
        opt_options = dict(self.optimization_options)
        if 'maxiter' in opt_options:
            opt_options['maxiter'] -= iteration
        scipy_optimizer = optim.ScipyOptimizer(method=self.optimizer, options=opt_options)
        if self.monitor_lists.callback_monitors:
            scipy_optimizer(opt=self._opt_prob, param=param, callback=_callback)
        else:
            scipy_optimizer(opt=self._opt_prob, param=param)

    def _end(self, param: parametrization.Parametrization) -> None:
        transformation_state = {ScipyOptimizer.EVENT_STATE: ScipyOptimizer.EVENT_STATE_END}
        self.logger.write(event=transformation_state, param=param, monitor_list=self.monitor_lists.end_monitors)

@optplan.register_transformation(optplan.ScipyOptimizerTransformation)
def create_scipy_optimizer(params: optplan.ScipyOptimizerTransformation, work: workspace.Workspace) -> ScipyOptimizer:
    eq_con_list = None
    if params.constraints_eq:
        eq_con_list = [work.get_object(con) for con in params.constraints_eq]
    ineq_con_list = None
    if params.constraints_ineq:
        ineq_con_list = [work.get_object(con) for con in params.constraints_ineq]
    opt_prob = problem.OptimizationProblem(obj=problem.RealPart(work.get_object(params.objective)), cons_eq=eq_con_list, cons_ineq=ineq_con_list)
    return ScipyOptimizer(opt_prob=opt_prob, optimizer=params.optimizer, monitor_lists=params.monitor_lists, logger=work.logger, optimization_options=params.optimization_options)

class PenaltyOptimizer:
    EVENT_STATE_START = 'start'
    EVENT_STATE_OPTIMIZING = 'optimizing'
    EVENT_STATE_END = 'end'
    EVENT_STATE = 'state'
    EVENT_ITERATION = 'iteration'
    EVENT_CYCLE_NUM = 'cycle_num'
    EVENT_MU = 'mu'

    def __init__(self, opt_prob: problem.OptimizationProblem, logger: workspace.Logger, optimizer: str='L-BFGS', monitor_lists: Optional[optplan.ScipyOptimizerMonitorList]=None, optimization_options: Optional[Dict]=None) -> None:
        self._opt_prob = opt_prob
        self.optimizer = optimizer
        if optimization_options is None:
            optimization_options = {}
        else:
            optimization_options = {key: value for key, value in optimization_options.items() if value}
        self.optimization_options = optimization_options
        self.monitor_lists = monitor_lists
        if not self.monitor_lists:
            self.monitor_lists = optplan.ScipyOptimizerMonitorList()
        self.logger = logger

    def __call__(self, param: parametrization.Parametrization, event_data: Optional[Dict]=None) -> None:
        state_completed = None
        if event_data:
            state_completed = event_data[PenaltyOptimizer.EVENT_STATE]
        if not state_completed:
            self._start(param)
            state_completed = PenaltyOptimizer.EVENT_STATE_START
        if state_completed in (PenaltyOptimizer.EVENT_STATE_START, PenaltyOptimizer.EVENT_STATE_OPTIMIZING):
            self._iterate(param, event_data)
            state_completed = PenaltyOptimizer.EVENT_STATE_OPTIMIZING
        if state_completed == PenaltyOptimizer.EVENT_STATE_OPTIMIZING:
            self._end(param)
            state_completed = PenaltyOptimizer.EVENT_STATE_END

    def _start(self, param: parametrization.Parametrization) -> None:
        transformation_state = {PenaltyOptimizer.EVENT_STATE: PenaltyOptimizer.EVENT_STATE_START}
        self.logger.write(event=transformation_state, param=param, monitor_list=self.monitor_lists.start_monitors)

    def _iterate(self, param: parametrization.Parametrization, event_data: Optional[Dict]=None) -> None:
        if not event_data:
            event_data = {}
        iteration = event_data.get(PenaltyOptimizer.EVENT_ITERATION, 0)

        def _callback(_) -> None:
            nonlocal iteration
            iteration += 1
            transformation_state = {PenaltyOptimizer.EVENT_ITERATION: iteration, PenaltyOptimizer.EVENT_STATE: PenaltyOptimizer.EVENT_STATE_OPTIMIZING, PenaltyOptimizer.EVENT_CYCLE_NUM: optimizer.cycle_num, PenaltyOptimizer.EVENT_MU: optimizer.mu}
            self.logger.write(event=transformation_state, param=param, monitor_list=self.monitor_lists.callback_monitors)
        optimizer = optim.PenaltyOptimizer(optimizer=None, options=self.optimization_options)
        optimizer.cycle_num = event_data.get(PenaltyOptimizer.EVENT_CYCLE_NUM, 0)
        if PenaltyOptimizer.EVENT_MU in event_data:
            optimizer.mu0 = event_data[PenaltyOptimizer.EVENT_MU]
        if self.monitor_lists.callback_monitors:
            optimizer(opt=self._opt_prob, param=param, callback=_callback)
        else:
            optimizer(opt=self._opt_prob, param=param)

    def _end(self, param: parametrization.Parametrization) -> None:
        transformation_state = {'state': 'end'}
        self.logger.write(event=transformation_state, param=param, monitor_list=self.monitor_lists.end_monitors)

@optplan.register_transformation(optplan.PenaltyTransformation)
def create_penalty_optimizer(params: optplan.ScipyOptimizerTransformation, work: workspace.Workspace) -> ScipyOptimizer:
    eq_con_list = None
    if params.constraints_eq:
        eq_con_list = [work.get_object(con) for con in params.constraints_eq]
    ineq_con_list = None
    if params.constraints_ineq:
        ineq_con_list = [work.get_object(con) for con in params.constraints_ineq]
    opt_prob = problem.OptimizationProblem(obj=problem.RealPart(work.get_object(params.objective)), cons_eq=eq_con_list, cons_ineq=ineq_con_list)
    return PenaltyOptimizer(opt_prob=opt_prob, optimizer=params.optimizer, monitor_lists=params.monitor_lists, logger=work.logger, optimization_options=params.optimization_options)

class CubicParamSigmoidStrength:

    def __init__(self, value: float=4) -> None:
        self._value = value

    def __call__(self, param: parametrization.CubicParam, event_data: Optional[Dict]=None) -> None:
        param.set_k(self._value)

@optplan.register_transformation(optplan.CubicParamSigmoidStrength)
def create_change_k_value(params: optplan.CubicParamSigmoidStrength, unused_work: workspace.Workspace) -> CubicParamSigmoidStrength:
    return CubicParamSigmoidStrength(value=params.value)

@optplan.register_transformation(optplan.HermiteParamFixBorder)
def create_fix_border(params: optplan.HermiteParamFixBorder, unused_work: Optional[workspace.Workspace]=None) -> Callable[[parametrization.HermiteParam], None]:

    def fix_borders(param: parametrization.HermiteParam, unused_event_data: Optional[Dict]=None) -> None:
        param.fix_borders(xmin_border=params.border_layers[0], xmax_border=params.border_layers[1], ymin_border=params.border_layers[2], ymax_border=params.border_layers[3])
    return fix_borders

class ContToDiscThresholding:

    def __init__(self, cont_param: parametrization.Parametrization, threshold=float) -> None:
        self.cont_param = cont_param
        self.threshold = threshold

    def __call__(self, param: parametrization.Parametrization, event_data: Optional[Dict]=None) -> None:
        from spins.invdes.parametrization import levelset_parametrization
        if isinstance(param, levelset_parametrization.BicubicLevelSet) and isinstance(self.cont_param, parametrization.CubicParam):
            param.decode(self.cont_param.encode() - self.threshold)
        elif isinstance(param, levelset_parametrization.HermiteLevelSet) and isinstance(self.cont_param, parametrization.HermiteParam):
            p = self.cont_param.encode()
            p[:len(p) // 4] -= self.threshold
            param.decode(p)
        elif isinstance(param, levelset_parametrization.HermiteLevelSet) and isinstance(self.cont_param, parametrization.CubicParam):
            vec = self.cont_param.geometry_matrix @ self.cont_param.encode()
            p = param.reverse_geometry_matrix @ param.derivative_matrix @ vec
            p[:len(p) // 4] -= self.threshold
            param.decode(p)
        else:
            raise ValueError('Parameterization do not match.')

@optplan.register_transformation(optplan.ContToDiscThresholding)
def create_cont_to_disc_thresholding(params: optplan.ContToDiscThresholding, work: Optional[workspace.Workspace]=None) -> Callable[[parametrization.HermiteParam], None]:
    cont_param = work.get_object(params.continuous_parametrization)
    return ContToDiscThresholding(cont_param=cont_param, threshold=params.threshold)
