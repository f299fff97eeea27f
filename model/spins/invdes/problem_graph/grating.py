import copy
from typing import List
import numpy as np
from spins.invdes import parametrization
from spins.invdes.problem_graph import optplan
from spins.invdes.problem_graph import workspace

class GratingEdgeDiscretization:

    def __init__(self, param: parametrization.DirectParam, min_feature: float, dx: float) -> None:
        self._min_feature = min_feature / dx
        if self._min_feature < 1:
            raise ValueError('Minimum feature size must be larger than one grid spacing, got {}'.format(min_feature))
        self._param = param

    def __call__(self, param: parametrization.GratingParam, unused_event_data) -> None:
        edge_loc = _get_edge_loc_dp(self._param.to_vector(), self._min_feature)
        if edge_loc[0] == 0:
            edge_loc = edge_loc[1:]
        else:
            edge_loc = [0] + edge_loc
        grating_len = len(self._param.to_vector())
        if edge_loc[-1] == grating_len:
            edge_loc = edge_loc[:-1]
        else:
            edge_loc = edge_loc + [grating_len]
        param.from_vector(edge_loc)

@optplan.register_transformation(optplan.GratingEdgeFitTransformation)
def create_grating_edge_fit(params: optplan.GratingEdgeFitTransformation, work: workspace.Workspace) -> GratingEdgeDiscretization:
    simspace = work.get_object(params.parametrization.simulation_space)
    return GratingEdgeDiscretization(work.get_object(params.parametrization), params.min_feature, simspace.dx)

def _get_edge_loc_dp(x: List[float], min_feature: float=0) -> np.ndarray:
    func = lambda a, b: (a - b) ** 2
    max_val = len(x)
    divisions = 5
    max_k = divisions * len(x) + 1
    x = np.array(x)
    zero_value = np.cumsum(func(x, 0))
    one_value = np.cumsum(func(x, 1))
    zero_value = [0] + zero_value.tolist()
    one_value = [0] + one_value.tolist()
    dp = [max_val] * max_k
    d = int(min_feature * divisions)
    struct_dp = [[] for i in range(d)]
    dp[0] = 0
    for k in range(d, max_k):
        k_int = k // divisions
        k_frac = k % divisions / divisions
        if k_int < len(x):
            val = zero_value[k_int] + func(x[k_int], 1 - k_frac) * k_frac
        else:
            val = max_val
        new_edges = [0, k / divisions]
        best_i_ind = 0
        j_value = max_val
        best_j_ind = -1
        for i in reversed(range(k - 2 * d + 1)):
            i_int = i // divisions
            i_frac = i % divisions / divisions
            base_value = func(x[i_int], 1 - i_frac) * (1 - i_frac) - one_value[i_int + 1] + zero_value[k_int]
            if k_int < len(x):
                base_value += func(x[k_int], 1 - k_frac) * k_frac
            j_int = (i + d) // divisions
            j_frac = (i + d) % divisions / divisions
            new_j_value = one_value[j_int] + func(x[j_int], j_frac) - zero_value[j_int + 1]
            if new_j_value < j_value:
                j_value = new_j_value
                best_j_ind = i + d
            new_value = j_value + base_value
            if dp[i] + new_value < val:
                val = dp[i] + new_value
                new_edges = [best_j_ind / divisions, k / divisions]
                best_i_ind = i
        dp[k] = val
        struct_dp.append(struct_dp[best_i_ind] + new_edges)
    for k in range(d, max_k - 1):
        k_int = k // divisions
        k_frac = k % divisions / divisions
        dp[k] += one_value[-1] - one_value[k_int + 1] + func(x[k_int], 1 - k_frac) * (1 - k_frac)
    struct_best_ind = np.argmin(dp[d:]) + d
    edge_loc = struct_dp[struct_best_ind]
    return edge_loc
