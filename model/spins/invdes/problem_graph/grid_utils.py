from typing import Tuple
import numpy as np
from spins import fdfd_tools
from spins import gridlock

def create_region_slices(edge_coords: fdfd_tools.EdgeCoords, center: fdfd_tools.Vec3d, extents: fdfd_tools.Vec3d) -> Tuple[slice, slice, slice]:
    xyz_min = np.array(center) - np.array(extents) / 2
    xyz_max = np.array(center) + np.array(extents) / 2
    grid = gridlock.Grid(edge_coords, num_grids=3)
    grid_min = [v[0] for v in grid.xyz]
    grid_max = [v[-1] for v in grid.xyz]
    xyz_min_clip = [max(gr, sl) for gr, sl in zip(grid_min, xyz_min)]
    xyz_max_clip = [min(gr, sl) for gr, sl in zip(grid_max, xyz_max)]
    xyz_ind_min = grid.pos2ind(xyz_min_clip, which_shifts=None).astype(int)
    xyz_ind_max = grid.pos2ind(xyz_max_clip, which_shifts=None).astype(int)
    xyz_ind_min[xyz_min_clip > xyz_min] = 0
    xyz_ind_max[xyz_max_clip < xyz_max] += 1
    for i in range(3):
        xyz_ind_max[i] = max(xyz_ind_max[i], xyz_ind_min[i] + 1)
    return [slice(mi, ma) for mi, ma in zip(xyz_ind_min, xyz_ind_max)]
