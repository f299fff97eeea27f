import copy
from typing import Callable, List
import numpy as np
from spins import fdfd_tools
from spins.fdfd_solvers import waveguide_mode
from spins.fdfd_tools import vec, unvec
from spins.fdfd_tools import operators, functional
from spins.gridlock import Grid
COS = np.cos
SIN = np.sin
PI = np.pi

def rotation_matrix(vec: np.ndarray, angle: float) -> np.ndarray:
    R = np.array([[COS(angle) + vec[0] ** 2 * (1 - COS(angle)), vec[0] * vec[1] * (1 - COS(angle)) - vec[2] * SIN(angle), vec[0] * vec[2] * (1 - COS(angle)) + vec[1] * SIN(angle)], [vec[0] * vec[1] * (1 - COS(angle)) + vec[2] * SIN(angle), COS(angle) + vec[1] ** 2 * (1 - COS(angle)), vec[1] * vec[2] * (1 - COS(angle)) - vec[0] * SIN(angle)], [vec[0] * vec[2] * (1 - COS(angle)) - vec[1] * SIN(angle), vec[1] * vec[2] * (1 - COS(angle)) + vec[0] * SIN(angle), COS(angle) + vec[2] ** 2 * (1 - COS(angle))]])
    return R

def gaussian_beam_z_axis_x_pol(x_grid, y_grid, z_grid, w0, center, R, omega, polarity, eps_val) -> complex:
    x = R[0, 0] * (x_grid - center[0]) + R[0, 1] * (y_grid - center[1]) + R[0, 2] * (z_grid - center[2])
    y = R[1, 0] * (x_grid - center[0]) + R[1, 1] * (y_grid - center[1]) + R[1, 2] * (z_grid - center[2])
    z = R[2, 0] * (x_grid - center[0]) + R[2, 1] * (y_grid - center[1]) + R[2, 2] * (z_grid - center[2])
    wlen = 2.0 * np.pi / (omega * np.sqrt(eps_val))
    k = 2.0 * np.pi / wlen
    z_r = np.pi * w0 ** 2 / wlen
    w_z = w0 * (1 + (z / z_r) ** 2) ** 0.5
    inv_R_z = np.zeros_like(z_grid)
    inv_R_z[z != 0] = np.power(z[z != 0] * (1 + (z_r / z[z != 0]) ** 2), -1)
    gouy_z = np.arctan(z / z_r)
    r2 = x ** 2 + y ** 2
    imp = np.sqrt(1 / eps_val)
    return np.sqrt(imp) * 2 / (np.sqrt(np.pi) * w0) * (w0 / w_z) * np.exp(-r2 / w_z ** 2) * np.exp(-1j * polarity * (k * z + k * inv_R_z * (r2 / 2) - gouy_z))

def plane_wave_z_axis_x_pol(x_grid, y_grid, z_grid, R, omega, polarity, eps_val) -> complex:
    z = R[2, 0] * x_grid + R[2, 1] * y_grid + R[2, 2] * z_grid
    wlen = 2.0 * np.pi / (omega * np.sqrt(eps_val))
    k = 2.0 * np.pi / wlen
    return np.exp(-polarity * 1j * k * z)

def scalar2rotated_vector_fields(eps_grid: Grid, scalar_field_function: Callable, mu: List[np.ndarray], omega: float, axis: int, slices: List[slice], theta: float=0, psi: float=0, polarization_angle: float=0, polarity: int=1, power: float=1, full_fields: bool=False):
    if mu is None:
        mu = [np.ones(eps_grid.shape)] * 3
    dxes = [eps_grid.dxyz, eps_grid.autoshifted_dxyz()]
    epsilon = eps_grid.grids
    xyz_shift = [eps_grid.shifted_xyz(which_shifts=i) for i in range(3)]
    order = np.roll(range(3), 2 - axis)
    reverse_order = np.roll(range(3), axis - 2)
    xyz = xyz_shift[order[0]]
    x_Ex, y_Ex, z_Ex = np.meshgrid(xyz[order[0]], xyz[order[1]], xyz[order[2]], indexing='ij')
    xyz = xyz_shift[order[1]]
    x_Ey, y_Ey, z_Ey = np.meshgrid(xyz[order[0]], xyz[order[1]], xyz[order[2]], indexing='ij')
    xyz = xyz_shift[order[2]]
    x_Ez, y_Ez, z_Ez = np.meshgrid(xyz[order[0]], xyz[order[1]], xyz[order[2]], indexing='ij')
    k = np.array([0, 0, polarity])
    e0 = np.array([1, 0, 0])
    R_theta = rotation_matrix(e0, theta)
    R_psi = rotation_matrix(k, psi)
    k = R_psi @ R_theta @ k
    R_pol = rotation_matrix(k, polarization_angle)
    R = R_pol @ R_psi @ R_theta
    e0_rot = R @ e0
    ref_index = np.sqrt(np.real(np.average(epsilon[0][tuple(slices)])))
    bloch_vector = k * omega * ref_index
    ex_mag = scalar_field_function(x_Ex, y_Ex, z_Ex, np.linalg.inv(R)) * e0_rot[0]
    ey_mag = scalar_field_function(x_Ey, y_Ey, z_Ey, np.linalg.inv(R)) * e0_rot[1]
    ez_mag = scalar_field_function(x_Ez, y_Ez, z_Ez, np.linalg.inv(R)) * e0_rot[2]
    E_fields = [ex_mag, ey_mag, ez_mag]
    dxes = [[dx[i] for i in order] for dx in dxes]
    e_vec = vec(E_fields)
    h_vec = operators.e2h(omega=omega, dxes=dxes, mu=vec([mu[i].transpose(order) for i in order]), bloch_vec=bloch_vector) @ e_vec
    H_fields = unvec(h_vec, E_fields[0].shape)
    E = [None] * 3
    H = [None] * 3
    wavevector = np.zeros(3)
    for a, o in enumerate(reverse_order):
        E[a] = np.zeros_like(epsilon[0], dtype=complex)
        H[a] = np.zeros_like(epsilon[0], dtype=complex)
        if full_fields:
            E[a] = np.sqrt(power) * E_fields[o].transpose(reverse_order)
            H[a] = np.sqrt(power) * H_fields[o].transpose(reverse_order)
        else:
            E[a][tuple(slices)] = np.sqrt(power) * E_fields[o][tuple([slices[i] for i in order])].transpose(reverse_order)
            H[a][tuple(slices)] = np.sqrt(power) * H_fields[o][tuple([slices[i] for i in order])].transpose(reverse_order)
        wavevector[a] = bloch_vector[o]
    results = {'wavevector': wavevector, 'H': H, 'E': E}
    return results

def build_plane_wave_source(eps_grid: Grid, omega: float, axis: int, slices=List[slice], mu: List[np.ndarray]=None, theta: float=0, psi: float=0, polarization_angle: float=0, polarity: int=1, border: int or List[int]=0, power: float=1):
    shape = eps_grid.shape
    eps_val = np.real(np.average(eps_grid.grids[0][tuple(slices)]))
    scalar_field_function = lambda x, y, z, R: plane_wave_z_axis_x_pol(x, y, z, R, omega, polarity, eps_val)
    fields = scalar2rotated_vector_fields(eps_grid=eps_grid, scalar_field_function=scalar_field_function, mu=mu, omega=omega, axis=axis, slices=slices, theta=theta, psi=psi, polarization_angle=polarization_angle, polarity=polarity, power=power, full_fields=True)

    def make_mask(shape: List[int], slices: List, axis: int, border: List[int]) -> np.ndarray:
        size = [s.stop - s.start for s in slices]
        coords = []
        for i in range(3):
            if size[i] - 1 > 2 * border[i] and border[i] > 0:
                d = 1 / np.array(border[i])
                x = np.hstack([np.arange(1, 0, -d), np.zeros(size[i] - 2 * border[i]), np.arange(d, 1 + d, d)])
            else:
                x = np.zeros(size[i])
            coords.append(x)
        coords[axis] = np.zeros(shape[axis])
        ind = np.meshgrid(coords[0], coords[1], coords[2], indexing='ij')
        co = (ind[0] ** 2 + ind[1] ** 2 + ind[2] ** 2) ** 0.5
        co[co > 1] = 1
        mask_slice = 1 + 2 * co ** 3 - 3 * co ** 2
        mask = np.zeros(shape)
        slices_mask = copy.deepcopy(slices)
        slices_mask[axis] = slice(None, None)
        mask[tuple(slices_mask)] = mask_slice
        return mask
    if isinstance(border, int):
        border = 3 * [border]
    border[axis] = 0
    size = [s.stop - s.start for s in slices]
    for i, (b, s) in enumerate(zip(border, size)):
        if 2 * b < s:
            border[i] = b
        elif s == 1:
            border[i] = 0
        else:
            raise ValueError('Two times the border is larger then the size' + ' of the plane wave in axis {}.'.format(i))
    border = [b if 2 * b < s else 0 for b, s in zip(border, size)]
    mask = make_mask(shape, slices, axis, border)
    dxes = [eps_grid.dxyz, eps_grid.autoshifted_dxyz()]
    slices_P = copy.deepcopy(slices)
    slices_P = [slice(sl.start + b, sl.stop - b) for sl, b in zip(slices_P, border)]
    P = waveguide_mode.compute_transmission_chew(E=fields['E'], H=fields['H'], axis=axis, omega=omega, dxes=dxes, slices=slices_P)
    fields['E'] /= np.sqrt(abs(P))
    fields['H'] /= np.sqrt(abs(P))
    fields['E'] = [mask * e for e in fields['E']]
    fields['H'] = [mask * h for h in fields['H']]
    dxes = [eps_grid.dxyz, eps_grid.autoshifted_dxyz()]
    field_slices = [slice(None, None)] * 3
    J_slices = list(slices)
    if polarity == -1:
        ind = slices[axis].start
        field_slices[axis] = slice(None, ind)
        J_slices[axis] = slice(ind - 1, ind + 1)
    else:
        ind = slices[axis].stop - 1
        field_slices[axis] = slice(ind, None)
        J_slices[axis] = slice(ind - 1, ind + 1)
    E = np.zeros_like(fields['E'])
    for i in range(3):
        E[i][tuple(field_slices)] = fields['E'][i][tuple(field_slices)]
    full = operators.e_full(omega, dxes, vec(eps_grid.grids), bloch_vec=fields['wavevector'])
    J_vec = 1 / (-1j * omega) * full @ vec(E)
    J_temp = unvec(J_vec, E[0].shape)
    J = np.zeros_like(J_temp)
    for i in range(3):
        J[i][tuple(J_slices)] = J_temp[i][tuple(J_slices)]
    return (J, fields['wavevector'])

def build_gaussian_source(eps_grid: Grid, omega: float, w0: float, center: np.ndarray, axis: int, slices=List[slice], mu: List[np.ndarray]=None, theta: float=0, psi: float=0, polarization_angle: float=0, polarity: int=1, power: float=1):
    eps_val = np.real(np.average(eps_grid.grids[0][tuple(slices)]))
    scalar_field_function = lambda x, y, z, R: gaussian_beam_z_axis_x_pol(x, y, z, w0, center, R, omega, polarity, eps_val)
    fields = scalar2rotated_vector_fields(eps_grid=eps_grid, scalar_field_function=scalar_field_function, mu=mu, omega=omega, axis=axis, slices=slices, theta=theta, psi=psi, polarization_angle=polarization_angle, polarity=polarity, power=power, full_fields=True)
    dxes = [eps_grid.dxyz, eps_grid.autoshifted_dxyz()]
    field_slices = [slice(None, None)] * 3
    J_slices = list(slices)
    if polarity == -1:
        ind = slices[axis].start
        field_slices[axis] = slice(None, ind)
        J_slices[axis] = slice(ind - 1, ind + 1)
    else:
        ind = slices[axis].stop - 1
        field_slices[axis] = slice(ind, None)
        J_slices[axis] = slice(ind - 1, ind + 1)
    E = np.zeros_like(fields['E'])
    for i in range(3):
        E[i][tuple(field_slices)] = fields['E'][i][tuple(field_slices)]
    full = operators.e_full(omega, dxes, vec(eps_grid.grids), bloch_vec=fields['wavevector'])
    J_vec = 1 / (-1j * omega) * full @ vec(E)
    J_temp = unvec(J_vec, E[0].shape)
    J = np.zeros_like(J_temp)
    for i in range(3):
        J[i][tuple(J_slices)] = J_temp[i][tuple(J_slices)]
    return (J, fields['wavevector'])

def normalize_source_by_sim(omega: float, source: List[np.ndarray], eps: List[np.ndarray], dxes: List[np.ndarray], pml_layers: fdfd_tools.PmlLayers, solver: Callable, power: float, bloch_vector: List[float]=[0, 0, 0]) -> List[np.ndarray]:
    source_abs = np.abs(fdfd_tools.vec(source))
    eps_avg = np.sum(source_abs * fdfd_tools.vec(eps)) / np.sum(source_abs)
    eps_uniform = [np.ones(eps[i].shape) * eps_avg for i in range(3)]
    electric_fields = solver.solve(omega=omega, dxes=dxes, epsilon=fdfd_tools.vec(eps_uniform), pml_layers=pml_layers, J=fdfd_tools.vec(source), bloch_vec=bloch_vector)
    J_dot_E = -np.real(np.conj(fdfd_tools.vec(source)) * electric_fields)
    dx = np.real(dxes[0][0][0])
    cur_power = 0.5 * np.sum(J_dot_E[:]) * dx ** 3
    J_normalized = copy.deepcopy(source)
    for i in range(3):
        J_normalized[i] *= np.sqrt(power / cur_power)
    return J_normalized
