from typing import List
from enum import Enum
import numpy as np

class Direction(Enum):
    x = 0
    y = 1
    z = 2

def axisvec2polarity(vector: np.ndarray) -> int:
    if isinstance(vector, List):
        vec = np.array(vector)
    else:
        vec = vector
    axis = axisvec2axis(vec)
    return np.sign(vec[axis])

def axisvec2axis(vector: np.ndarray) -> int:
    if isinstance(vector, List):
        vec = np.array(vector)
    else:
        vec = vector
    norm = np.linalg.norm(vec)
    delta = 1e-06 * norm
    if sum(abs(vec) > delta) != 1:
        raise ValueError('Vector has no valid primary coordinate axis, got: {}'.format(vec))
    axis = np.argwhere(abs(vec) > delta).flatten()[0]
    return axis
