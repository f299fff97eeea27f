from typing import List, Optional
import numpy as np
from spins import fdfd_tools
from spins import gridlock
from spins.invdes import parametrization
from spins.invdes import problem
from spins.invdes.problem_graph import optplan
from spins.invdes.problem_graph import simspace
from spins.invdes.problem_graph import workspace

class Monitor(problem.OptimizationFunction):

    def get_data(self, param: parametrization.Parametrization):
        return self.calculate_objective_function(param)

class SimpleMonitor(Monitor):

    def __init__(self, function: problem.OptimizationFunction) -> None:
        super().__init__(function)
        self._function = function

    def eval(self, input_vals: List[np.ndarray]) -> np.ndarray:
        return input_vals[0]

@optplan.register_node(optplan.SimpleMonitor)
def create_scalar_monitor(params: optplan.SimpleMonitor, work: workspace.Workspace) -> SimpleMonitor:
    return SimpleMonitor(function=work.get_object(params.function))

class FieldMonitor(Monitor):

    def __init__(self, function: problem.OptimizationFunction, sim_space: simspace.SimulationSpace, slice_point: Optional[List[float]]=None, slice_normal: Optional[List[int]]=None) -> None:
        super().__init__(function)
        self._function = function
        self._slices = None
        self._sim_space = sim_space
        if slice_point and slice_normal:
            slice_axis = gridlock.axisvec2axis(slice_normal)
            grid = gridlock.Grid(sim_space.edge_coords, num_grids=3)
            slice_ind = grid.pos2ind(slice_point, which_shifts=None).astype(int)
            slice_ind = slice_ind[slice_axis]
            self._slices = 3 * [slice(0, None)]
            self._slices[slice_axis] = slice(slice_ind, slice_ind + 1)

    def eval(self, input_vals: List[np.ndarray]) -> np.ndarray:
        fields = fdfd_tools.unvec(input_vals[0], self._sim_space.dims)
        if self._slices:
            fields = [field[tuple(self._slices)] for field in fields]
        return fields

@optplan.register_node(optplan.FieldMonitor)
def create_field_monitor(params: optplan.FieldMonitor, work: workspace.Workspace) -> FieldMonitor:
    return FieldMonitor(function=work.get_object(params.function), sim_space=work.get_object(params.function.simulation_space), slice_point=params.center, slice_normal=params.normal)
