from typing import List
import numpy as np
import scipy
from spins.invdes import parametrization
from spins.invdes import problem

def _diff_matrix(vec_len: int) -> np.ndarray:
    return scipy.linalg.circulant([-1, 1] + [0] * (vec_len - 2)).T[:-1, :]

class GratingFeatureConstraint(problem.OptimizationFunction):

    def __init__(self, min_feature: float, boundary_constraint_scale: float=2) -> None:
        if min_feature < 0:
            raise ValueError('Minimum feature must be positive, got {}'.format(min_feature))
        self._min_feature = min_feature
        self._edge_cons_scale = boundary_constraint_scale

    def calculate_objective_function(self, param: parametrization.Parametrization) -> np.ndarray:
        if isinstance(param, parametrization.CompositeParam):
            constraints = []
            for subparam in param._params:
                constraints += self._build_constraints(subparam.to_vector(), subparam._num_pixels)
        else:
            constraints = self._build_constraints(param.to_vector(), param._num_pixels)
        return np.hstack(constraints)

    def calculate_gradient(self, param: parametrization.Parametrization) -> np.ndarray:
        if isinstance(param, parametrization.CompositeParam):
            grad_blocks = []
            for subparam in param._params:
                grad_blocks.append(self._build_constraint_grads(subparam.to_vector()))
            return scipy.linalg.block_diag(*grad_blocks)
        return self._build_constraint_grads(param.to_vector())

    def _build_constraints(self, vec: np.ndarray, grating_len: int) -> List[np.ndarray]:
        constraints = []
        constraints.append(-(_diff_matrix(len(vec)) @ vec - np.ones(len(vec) - 1) * self._min_feature))
        constraints.append(-vec[0] + self._edge_cons_scale * self._min_feature)
        constraints.append(-grating_len + self._edge_cons_scale * self._min_feature + vec[-1])
        return constraints

    def _build_constraint_grads(self, vec: np.ndarray) -> List[np.ndarray]:
        constraints = []
        constraints.append(-_diff_matrix(len(vec)))
        lower_bound = np.zeros(len(vec))
        lower_bound[0] = -1
        constraints.append(lower_bound)
        upper_bound = np.zeros(len(vec))
        upper_bound[-1] = 1
        constraints.append(upper_bound)
        return np.vstack(constraints)
