import threading
from typing import Callable, List
import numpy as np
import scipy.sparse
import spins.fdfd_tools as fdfd_tools
GridType = List[np.ndarray]

class FdfdSimulation:

    def __init__(self, solver: Callable, dims: List[int], omega: complex, dxes: List[GridType], J: GridType, selection_matrix: scipy.sparse.spmatrix, epsilon: GridType, mu: GridType=None, pec: GridType=None, pmc: GridType=None, pemc: np.ndarray=np.array(6 * [0]), symmetry: np.ndarray=np.zeros(3), bloch_vec: np.ndarray=None, cache_size: int=1) -> None:
        self.dims = dims
        self.omega = omega
        self.dxes = dxes
        self.selection_matrix = selection_matrix
        self.base_epsilon = epsilon
        self.mu = mu
        self.solver = solver
        self.J = J
        self.pec = pec
        self.pmc = pmc
        self.pemc = pemc
        self.symmetry = symmetry
        if bloch_vec is None:
            self.bloch_vec = np.zeros(3)
        else:
            self.bloch_vec = bloch_vec
        self.cache = [None] * cache_size
        self.lock = threading.Lock()

    def get_dims(self) -> List[int]:
        return self.dims

    def get_epsilon(self, z: np.ndarray) -> np.ndarray:
        full_z = np.squeeze(self.selection_matrix.dot(z))
        return fdfd_tools.vec(self.base_epsilon) + full_z

    def simulate(self, z: np.ndarray) -> np.ndarray:
        with self.lock:
            electric_fields = None
            for cache_index in range(len(self.cache)):
                cache_item = self.cache[cache_index]
                if cache_item is None:
                    continue
                cache_z, cache_fields = cache_item
                if np.array_equal(z, cache_z):
                    electric_fields = cache_fields
                    del self.cache[cache_index]
                    break
            if electric_fields is None:
                electric_fields = self._run_solver(z)
                del self.cache[0]
            self.cache.append((np.array(z), electric_fields))
        return electric_fields

    def _run_solver(self, z: np.ndarray) -> np.ndarray:
        sim_args = {'omega': self.omega, 'dxes': self.dxes, 'epsilon': self.get_epsilon(z), 'mu': fdfd_tools.vec(self.mu), 'J': fdfd_tools.vec(self.J), 'pec': fdfd_tools.vec(self.pec), 'pmc': fdfd_tools.vec(self.pmc), 'pemc': self.pemc, 'symmetry': self.symmetry, 'bloch_vec': self.bloch_vec}
        return self.solver.solve(**sim_args)

class AdjointFdfdSimulation:

    def __init__(self, sim: FdfdSimulation) -> None:
        self.sim = sim
        self.cache = [None] * len(sim.cache)
        self.lock = threading.Lock()

    def simulate(self, z: np.ndarray, J: np.ndarray) -> np.ndarray:
        with self.lock:
            electric_fields = None
            for cache_index in range(len(self.cache)):
                cache_item = self.cache[cache_index]
                if cache_item is None:
                    continue
                cache_z, cache_J, cache_fields = cache_item
                if np.array_equal(z, cache_z) and np.array_equal(J, cache_J):
                    electric_fields = cache_fields
                    del self.cache[cache_index]
                    break
            if electric_fields is None:
                electric_fields = self._run_solver(z, J)
                del self.cache[0]
            self.cache.append((np.array(z), np.array(J), electric_fields))
        return electric_fields

    def _run_solver(self, z: np.ndarray, J: np.ndarray) -> np.ndarray:
        dxes = [[np.conj(dx) for dx in grid] for grid in self.sim.dxes]
        spx, spy, spz = np.meshgrid(dxes[1][0], dxes[1][1], dxes[1][2], indexing='ij')
        sdx, sdy, sdz = np.meshgrid(dxes[0][0], dxes[0][1], dxes[0][2], indexing='ij')
        mult = np.multiply
        s = [mult(mult(sdx, spy), spz), mult(mult(spx, sdy), spz), mult(mult(spx, spy), sdz)]
        new_J = np.copy(fdfd_tools.unvec(J, self.sim.dims))
        for k in range(3):
            new_J[k] /= s[k]
        new_J = fdfd_tools.vec(new_J)
        mu = None
        if self.sim.mu is not None:
            mu = np.conj(fdfd_tools.vec(self.sim.mu))
        sim_args = {'omega': np.conj(self.sim.omega), 'dxes': dxes, 'epsilon': np.conj(self.sim.get_epsilon(z)), 'mu': mu, 'J': new_J, 'pec': fdfd_tools.vec(self.sim.pec), 'pmc': fdfd_tools.vec(self.sim.pmc), 'bloch_vec': self.sim.bloch_vec}
        efields = self.sim.solver.solve(**sim_args)
        efields = fdfd_tools.unvec(efields, self.sim.dims)
        for i in range(3):
            efields[i] = np.multiply(efields[i], s[i])
        efields = fdfd_tools.vec(efields)
        return efields
