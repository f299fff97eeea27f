from typing import Dict
import numpy as np
import scipy.sparse.linalg as linalg
from spins.gridlock import float_raster as raster
from spins.invdes.parametrization import parametrization

class GratingParam(parametrization.Parametrization):

    def __init__(self, initial_value: np.ndarray, num_pixels: int, inverted: bool=False) -> None:
        if len(initial_value) % 2 == 1:
            raise ValueError('The number of edges in the grating expected to be even, got {} instead.'.format(len(initial_value)))
        self._edges = np.sort(initial_value)
        self._num_pixels = num_pixels
        self._x_coords = np.arange(num_pixels + 1)
        self._inverted = inverted

    def get_structure(self) -> np.ndarray:
        widths = self._edges[1::2] - self._edges[0::2]
        centers = 0.5 * (self._edges[1::2] + self._edges[0::2])
        pixel_vals = np.zeros(self._num_pixels)
        for width, center in zip(widths, centers):
            pixel_vals += raster.raster_1D(np.array([center - 0.5 * width, center + 0.5 * width]), self._x_coords)
        if self._inverted:
            return 1 - pixel_vals
        return pixel_vals

    def calculate_gradient(self) -> linalg.LinearOperator:

        def _jacobian_vec_prod(vec: np.ndarray) -> np.ndarray:
            jac_vec_prod = np.zeros(self._num_pixels)
            for edge_index, (edge, vec_val) in enumerate(zip(self._edges, vec)):
                edge_dir = 1 if edge_index % 2 == 0 else -1
                if self._inverted:
                    edge_dir = -edge_dir
                pixel_index = np.floor(edge).astype(int)
                if 0 <= edge < self._num_pixels:
                    jac_vec_prod[pixel_index] -= edge_dir * vec_val
            return jac_vec_prod
        mat = np.zeros((self._num_pixels, self._edges.size))
        for i in range(self._edges.size):
            unit_vec = np.zeros(self._edges.size)
            unit_vec[i] = 1
            mat[:, i] = _jacobian_vec_prod(unit_vec)
        return mat

    def encode(self) -> np.ndarray:
        return self._edges

    def decode(self, vector: np.ndarray) -> None:
        self._edges = np.sort(vector)

    def serialize(self) -> Dict:
        serialized = super().serialize()
        serialized.update({'inverted': self._inverted})
        return serialized

    def deserialize(self, data: Dict) -> None:
        super().deserialize(data)
        if 'inverted' in data:
            self._inverted = data['inverted']
        else:
            self._inverted = False
