from typing import Callable, List, Tuple
import numpy as np
ScalarField = np.ndarray
VecField = Tuple[ScalarField, ScalarField, ScalarField]
Vec3d = Tuple[complex, complex, complex]
GridSpacing = Tuple[Tuple[np.ndarray, np.ndarray, np.ndarray], Tuple[np.ndarray, np.ndarray, np.ndarray]]
PmlLayers = Tuple[int, int, int, int, int, int]
EdgeCoords = Tuple[np.ndarray, np.ndarray, np.ndarray]
dx_lists_t = List[List[np.ndarray]]
vfield_t = np.ndarray
field_t = VecField
