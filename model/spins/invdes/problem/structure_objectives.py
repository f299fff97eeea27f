from typing import List
import numpy as np
import scipy.sparse as sparse
from spins.invdes.parametrization import Parametrization
from spins.invdes.problem.objective import OptimizationFunction

class Fit2Eps(OptimizationFunction):

    def __init__(self, eps_bg: np.ndarray, S: sparse.spmatrix, eps: np.ndarray):
        self.eps_bg = eps_bg
        self.eps = eps
        self.S = S

    def calculate_objective_function(self, param: Parametrization) -> float:
        z = param.get_structure()
        return np.sum(np.abs(self.eps_bg + self.S @ z - self.eps) ** 2)

    def calculate_gradient(self, param: Parametrization) -> np.ndarray:
        z = param.get_structure()
        err = self.eps_bg + self.S @ z - self.eps
        return np.asfortranarray(2 * np.real(np.conj(err) @ self.S @ param.calculate_gradient()))

    def __str__(self) -> str:
        return 'fit2eps()'

class FabricationConstraint(OptimizationFunction):

    def __init__(self, fcon, fabcon_method: int=2):
        self.d = fcon
        self.method = fabcon_method
        self.weight_factor = 1

    def set_weight_factor(self, weight):
        self.weight_factor = np.squeeze(weight)

    def calculate_objective_function(self, param):
        if self.method == 1:
            return self.weight_factor * param.calculate_gap_penalty(np.pi / (1.2 * self.d))
        if self.method == 2:
            curv = self.weight_factor * param.calculate_curv_penalty(np.pi / (1.15 * self.d))
            gap = self.weight_factor * param.calculate_gap_penalty(np.pi / (1.2 * self.d))
            return curv + gap
        else:
            return self.weight_factor * param.calculate_gap_penalty(np.pi / (1.2 * self.d))

    def calculate_gradient(self, param):
        if self.method == 1:
            return self.weight_factor * param.calculate_gap_penalty_gradient(np.pi / (1.2 * self.d))
        if self.method == 2:
            curv = self.weight_factor * param.calculate_curv_penalty_gradient(np.pi / (1.15 * self.d))
            gap = self.weight_factor * param.calculate_gap_penalty_gradient(np.pi / (1.2 * self.d))
            return curv + gap
        else:
            return self.weight_factor * param.calculate_gap_penalty_gradient(np.pi / (1.2 * self.d))

    def __str__(self):
        return 'FabCon(' + str(self.d) + ')'
