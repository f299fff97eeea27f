import numpy as np
import scipy.sparse

def average_2xFarEdge(grid_size, design_bounds):
    design_area = np.squeeze(np.diff(design_bounds, axis=0)) + 1
    numz_l = design_bounds[0, 0]
    numz_r = grid_size[0] - design_bounds[1, 0] - 1
    numz_t = design_bounds[0, 1]
    numz_b = grid_size[1] - design_bounds[1, 1] - 1
    zero_padding_l = scipy.sparse.csr_matrix((numz_l, design_area[0]))
    zero_padding_r = scipy.sparse.csr_matrix((numz_r, design_area[0]))
    zero_padding_t = scipy.sparse.csr_matrix((numz_t * grid_size[0], np.prod(design_area)))
    zero_padding_b = scipy.sparse.csr_matrix((numz_b * grid_size[0], np.prod(design_area)))
    I0 = scipy.sparse.identity(design_area[0], format='csr')
    I0_shift_x = scipy.sparse.hstack([I0[:, 1:], I0[:, :1]], format='csr')
    I0_shift_x[-1, 0] = 0
    I0_shift_x[-1, -1] = 1
    Sx_flat_block = scipy.sparse.vstack((zero_padding_l, (I0 + I0_shift_x) / 2, zero_padding_r), format='csr')
    Sx_block_diag = scipy.sparse.block_diag([Sx_flat_block] * design_area[1])
    Sx_flat = scipy.sparse.vstack((zero_padding_t, Sx_block_diag, zero_padding_b))
    Sy_flat_block = scipy.sparse.vstack((zero_padding_l, I0, zero_padding_r), format='csr')
    Sy_flat_preshift = scipy.sparse.block_diag([Sy_flat_block] * design_area[1], format='csr')
    Sy_flat_shift = scipy.sparse.hstack((Sy_flat_preshift[:, design_area[0]:], Sy_flat_preshift[:, :design_area[0]]), format='csr')
    excess = Sy_flat_shift[:, 0:design_area[0]]
    Sy_flat_shift[:, 0:design_area[0]] = 0
    Sy_flat_shift[:, -design_area[0]:] += excess
    Sy_flat = scipy.sparse.vstack((zero_padding_t, (Sy_flat_preshift + Sy_flat_shift) / 2, zero_padding_b))
    Sz_flat = scipy.sparse.vstack((zero_padding_t, Sy_flat_preshift, zero_padding_b))
    S = scipy.sparse.vstack([Sx_flat] * grid_size[2] + [Sy_flat] * grid_size[2] + [Sz_flat] * grid_size[2])
    return S

def direct_lattice(grid_size, design_bounds, get_design_area: bool=False, wrap_or_clip: list=[0, 0, 1]):
    design_bounds = [list(bound) for bound in design_bounds]
    design_bounds[0][0] = np.max([design_bounds[0][0], 0])
    design_bounds[0][1] = np.max([design_bounds[0][1], 0])
    design_bounds[1][0] = np.min([design_bounds[1][0], grid_size[0] - 1])
    design_bounds[1][1] = np.min([design_bounds[1][1], grid_size[1] - 1])
    design_area = np.squeeze(np.diff(design_bounds, axis=0)) + 1
    x_ind = np.arange(0, 2 * design_area[0])
    y_ind = np.arange(0, 2 * design_area[1])
    x_ind, y_ind = np.meshgrid(x_ind, y_ind, indexing='ij')
    x_ind = x_ind.flatten(order='F')
    y_ind = y_ind.flatten(order='F')
    num_gridxy = np.prod(grid_size[0:2])
    num_design = np.prod(2 * design_area)
    mode = ['wrap', 'clip']
    map_x = np.ravel_multi_index([design_bounds[0][0] + (x_ind + 1) // 2 - 1, design_bounds[0][1] + y_ind // 2], grid_size[0:2], order='F', mode=mode[wrap_or_clip[0]])
    Sx_flat = scipy.sparse.csr_matrix((np.ones(len(map_x)), (map_x, np.array(np.arange(len(map_x))))), shape=(num_gridxy, num_design))
    map_y = np.ravel_multi_index([design_bounds[0][0] + x_ind // 2, design_bounds[0][1] + (y_ind + 1) // 2 - 1], grid_size[0:2], order='F', mode=mode[wrap_or_clip[1]])
    Sy_flat = scipy.sparse.csr_matrix((np.ones(len(map_y)), (map_y, np.array(np.arange(len(map_y))))), shape=(num_gridxy, num_design))
    map_z = np.ravel_multi_index([design_bounds[0][0] + x_ind // 2, design_bounds[0][1] + y_ind // 2], grid_size[0:2], order='F', mode=mode[wrap_or_clip[2]])
    Sz_flat = scipy.sparse.csr_matrix((np.ones(len(map_z)), (map_z, np.array(np.arange(len(map_z))))), shape=(num_gridxy, num_design))

    def normalize_rows(S):
        row_sums = np.array(S.sum(axis=1)).squeeze()
        row_sums[row_sums != 0] = 1 / row_sums[row_sums != 0]
        num_rows, num_cols = S.shape
        return scipy.sparse.spdiags(row_sums, 0, num_rows, num_rows) @ S
    Sx_flat = normalize_rows(Sx_flat)
    Sy_flat = normalize_rows(Sy_flat)
    Sz_flat = normalize_rows(Sz_flat)
    Sx = scipy.sparse.vstack([Sx_flat] * grid_size[2])
    Sy = scipy.sparse.vstack([Sy_flat] * grid_size[2])
    Sz = scipy.sparse.vstack([Sz_flat] * grid_size[2])
    S = scipy.sparse.vstack((Sx, Sy, Sz))
    if get_design_area:
        return (S, 2 * design_area)
    else:
        return S
