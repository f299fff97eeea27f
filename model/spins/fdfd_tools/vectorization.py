from typing import List, Tuple
import numpy as np
from spins.fdfd_tools import types

def vec(f: np.ndarray) -> types.VecField:
    if np.any(np.equal(f, None)):
        return None
    return np.hstack(tuple((fi.flatten(order='F') for fi in f)))

def unvec(v: types.VecField, shape: Tuple[int, int, int]) -> np.ndarray:
    if np.any(np.equal(v, None)):
        return None
    return [vi.reshape(shape, order='F') for vi in np.split(v, 3)]
