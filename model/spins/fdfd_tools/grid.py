import copy
import itertools
from typing import Callable, List, Optional, Tuple, Union
import numpy as np
from spins import fdfd_tools
s_function_type = Callable[[float], float]

def prepare_s_function(ln_R: float=-16, m: float=4) -> s_function_type:

    def s_factor(distance: np.ndarray) -> np.ndarray:
        s_max = (m + 1) * ln_R / 2
        return s_max * distance ** m
    return s_factor

def uniform_grid_scpml(shape: np.ndarray or List[int], thicknesses: np.ndarray or List[int], omega: float, epsilon_effective: float=1.0, s_function: s_function_type=None) -> fdfd_tools.GridSpacing:
    if s_function is None:
        s_function = prepare_s_function()

    def l(u, n, t):
        return ((t - u).clip(0) + (u - (n - t)).clip(0)) / t
    dx_a = [np.array(np.inf)] * 3
    dx_b = [np.array(np.inf)] * 3
    s_correction = np.sqrt(epsilon_effective) * np.real(omega)
    for k, th in enumerate(thicknesses):
        s = shape[k]
        if th > 0:
            sr = np.arange(s)
            dx_a[k] = 1 + 1j * s_function(l(sr, s, th)) / s_correction
            dx_b[k] = 1 + 1j * s_function(l(sr + 0.5, s, th)) / s_correction
        else:
            dx_a[k] = np.ones((s,))
            dx_b[k] = np.ones((s,))
    return [dx_a, dx_b]

def stretch_with_scpml(dxes: fdfd_tools.GridSpacing, axis: int, polarity: int, omega: float, epsilon_effective: float=1.0, thickness: int=10, s_function: s_function_type=None) -> fdfd_tools.GridSpacing:
    if s_function is None:
        s_function = prepare_s_function()
    dx_ai = dxes[0][axis].astype(complex)
    dx_bi = dxes[1][axis].astype(complex)
    pos = np.hstack((0, dx_ai.cumsum()))
    pos_a = (pos[:-1] + pos[1:]) / 2
    pos_b = pos[:-1]
    s_correction = np.sqrt(epsilon_effective) * np.real(omega)
    if polarity > 0:
        bound = pos[thickness]
        d = bound - pos[0]

        def l_d(x):
            return (bound - x) / (bound - pos[0])
        slc = slice(thickness)
    else:
        bound = pos[-thickness - 1]
        d = pos[-1] - bound

        def l_d(x):
            return (x - bound) / (pos[-1] - bound)
        if thickness == 0:
            slc = slice(None)
        else:
            slc = slice(-thickness, None)
    dx_ai[slc] *= 1 + 1j * s_function(l_d(pos_a[slc])) / d / s_correction
    dx_bi[slc] *= 1 + 1j * s_function(l_d(pos_b[slc])) / d / s_correction
    dxes[0][axis] = dx_ai
    dxes[1][axis] = dx_bi
    return dxes

def generate_periodic_dx(pos: List[np.ndarray]) -> fdfd_tools.GridSpacing:
    if len(pos) != 3:
        raise Exception('Must have len(pos) == 3')
    dx_a = [np.array(np.inf)] * 3
    dx_b = [np.array(np.inf)] * 3
    for i, p_orig in enumerate(pos):
        p = np.array(p_orig, dtype=float)
        if p.size != 1:
            p_shifted = np.hstack((p[1:], p[-1] + (p[1] - p[0])))
            dx_a[i] = np.diff(p)
            dx_b[i] = np.diff((p + p_shifted) / 2)
    return (dx_a, dx_b)

def make_nonuniform_grid(SimBorders: List[int], dx_default: List[int], Boxes: List[dict], grad_Mesh=0.05, step=1.0) -> (np.array, np.array, np.array):
    NX = int((np.ceil(SimBorders[1]) - np.floor(SimBorders[0])) / step)
    NY = int((np.ceil(SimBorders[3]) - np.floor(SimBorders[2])) / step)
    NZ = int((np.ceil(SimBorders[5]) - np.floor(SimBorders[4])) / step)
    x = np.linspace(np.floor(SimBorders[0]), np.ceil(SimBorders[1]), NX + 1)
    y = np.linspace(np.floor(SimBorders[2]), np.ceil(SimBorders[3]), NY + 1)
    z = np.linspace(np.floor(SimBorders[4]), np.ceil(SimBorders[5]), NZ + 1)
    dx = dx_default[0] * np.ones((1, NX + 1))
    dy = dx_default[1] * np.ones((1, NY + 1))
    dz = dx_default[2] * np.ones((1, NZ + 1))

    def MeshBox(x, x0, xn, DX, grad_Mesh):
        dx = DX * np.ones_like(x)
        dx[x < x0] += grad_Mesh * (x0 - x[x < x0]) + DX
        dx[x > xn] += grad_Mesh * (x[x > xn] - xn) + DX
        return np.expand_dims(dx, axis=0)
    for box in Boxes:
        x0 = box['pos'][0] - box['size'][0] / 2
        xn = box['pos'][0] + box['size'][0] / 2
        y0 = box['pos'][1] - box['size'][1] / 2
        yn = box['pos'][1] + box['size'][1] / 2
        z0 = box['pos'][2] - box['size'][2] / 2
        zn = box['pos'][2] + box['size'][2] / 2
        dx = np.append(dx, MeshBox(x, x0, xn, box['meshsize'][0], grad_Mesh), axis=0)
        dy = np.append(dy, MeshBox(y, y0, yn, box['meshsize'][1], grad_Mesh), axis=0)
        dz = np.append(dz, MeshBox(z, z0, zn, box['meshsize'][2], grad_Mesh), axis=0)
    dxv = np.amin(dx, axis=0)
    dyv = np.amin(dy, axis=0)
    dzv = np.amin(dz, axis=0)
    xs = [SimBorders[0]]
    while xs[-1] < SimBorders[1]:
        xs = xs + [xs[-1] + dxv[int((xs[-1] - x[0]) // step)]]
    xs = xs / np.max(xs) * SimBorders[1]
    ys = [SimBorders[2]]
    while ys[-1] < SimBorders[3]:
        ys = ys + [ys[-1] + dyv[int((ys[-1] - y[0]) // step)]]
    ys = ys / np.max(ys) * SimBorders[3]
    zs = [SimBorders[4]]
    while zs[-1] < SimBorders[5]:
        zs = zs + [zs[-1] + dzv[int((zs[-1] - z[0]) // step)]]
    zs = zs / np.max(zs) * SimBorders[5]
    return (xs, ys, zs)

def apply_scpml(dxes: fdfd_tools.GridSpacing, pml_layers: Optional[Union[int, fdfd_tools.PmlLayers]], omega: float) -> fdfd_tools.GridSpacing:
    dxes = [[np.array(dxes[grid_num][i]) for i in range(3)] for grid_num in range(2)]
    if not pml_layers:
        return dxes
    if isinstance(pml_layers, int):
        pml_layers = [pml_layers] * 6
    for pml, (axis, polarity) in zip(pml_layers, itertools.product(range(3), [1, -1])):
        if pml > 0:
            dxes = stretch_with_scpml(dxes, omega=omega, axis=axis, polarity=polarity, thickness=pml)
    return dxes
