from typing import List, Tuple, Dict
import numpy as np
import scipy.sparse.linalg as linalg
from spins.invdes.parametrization import parametrization

def _split_vector(vec: np.ndarray, sizes: List[int]) -> List[np.ndarray]:
    split_indices = np.cumsum(sizes)[:-1].tolist()
    return np.split(vec, split_indices)

class CompositeParam(parametrization.Parametrization):

    def __init__(self, params: List[parametrization.Parametrization]) -> None:
        self._params = params
        self._param_sizes = [param.encode().size for param in self._params]
        self._ext_vec_sizes = [param.to_vector().size for param in self._params]
        self._z_sizes = [param.get_structure().size for param in self._params]
        self._z_size = np.sum(self._z_sizes)

    def get_structure(self) -> np.ndarray:
        return np.hstack([param.get_structure() for param in self._params])

    def calculate_gradient(self) -> linalg.LinearOperator:

        def _jacobian_vec_prod(vec: np.ndarray) -> np.ndarray:
            split_vec = _split_vector(vec, self._param_sizes)
            return np.hstack([param.calculate_gradient() @ sub_vec for param, sub_vec in zip(self._params, split_vec)])

        def _jacobian_adjoint_vec_prod(vec: np.ndarray) -> np.ndarray:
            split_vec = _split_vector(np.conj(vec), self._z_sizes)
            return np.conj(np.hstack([sub_vec @ param.calculate_gradient() for param, sub_vec in zip(self._params, split_vec)]))
        return linalg.LinearOperator((self._z_size, np.sum(self._param_sizes)), matvec=_jacobian_vec_prod, rmatvec=_jacobian_adjoint_vec_prod)

    def encode(self) -> np.ndarray:
        return np.hstack([param.encode() for param in self._params])

    def decode(self, vector: np.ndarray):
        split_vector = _split_vector(vector, self._param_sizes)
        for param, sub_vec in zip(self._params, split_vector):
            param.decode(sub_vec)

    def project(self) -> None:
        for param in self._params:
            param.project()

    def get_bounds(self) -> Tuple[np.ndarray, np.ndarray]:
        lower_bounds = []
        upper_bounds = []
        for param, size in zip(self._params, self._param_sizes):
            if param.get_bounds():
                lower_bounds_param, upper_bounds_param = param.get_bounds()
                lower_bounds.append(lower_bounds_param)
                upper_bounds.append(upper_bounds_param)
            else:
                lower_bounds.append(np.array([None] * size))
                upper_bounds.append(np.array([None] * size))
        return (np.hstack(lower_bounds), np.hstack(upper_bounds))

    def to_vector(self) -> np.ndarray:
        return np.hstack([param.to_vector() for param in self._params])

    def from_vector(self, vector: np.ndarray):
        split_vector = _split_vector(vector, self._ext_vec_sizes)
        for param, sub_vec in zip(self._params, split_vector):
            param.from_vector(sub_vec)

    def serialize(self) -> Dict:
        return {'param_{}'.format(k): param.serialize() for k, param in enumerate(self._params)}

    def deserialize(self, data: Dict):
        for param_key, param_data in data.items():
            ind = int(param_key[len('param_'):])
            self._params[ind].deserialize(param_data)
