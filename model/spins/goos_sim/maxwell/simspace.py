from typing import List, Tuple
import logging
import numpy as np
from spins import goos
from spins import fdfd_tools
from spins import gridlock
logger = logging.getLogger(__name__)

class MeshModel(goos.Model):
    pass

@goos.polymorphic_model()
class UniformMesh(MeshModel):
    type = goos.ModelNameType('uniform')
    dx = goos.types.FloatType()

class Symmetry:
    NONE = 0
    PEC = 1
    PMC = 2

class SimulationSpace(goos.Model):
    type = goos.ModelNameType('simulation_space')
    mesh = goos.types.PolyModelType(MeshModel)
    sim_region = goos.types.ModelType(goos.Box3d)
    pml_thickness = goos.types.ListType(goos.types.IntType(), min_size=6, max_size=6)
    reflection_symmetry = goos.types.ListType(goos.types.IntType(), min_size=3, max_size=3)

def create_edge_coords(sim_region: goos.Box3d, dx: float, reflection_symmetry: List[int]=None) -> fdfd_tools.EdgeCoords:
    if reflection_symmetry is None:
        reflection_symmetry = [0, 0, 0]
    extents_raw = np.array(sim_region.extents)
    extents = np.maximum(extents_raw, dx)
    for i, ext in enumerate(extents):
        if reflection_symmetry[i]:
            if not (ext / (2 * dx)).is_integer():
                extents[i] = np.floor(ext / (2 * dx)) * 2 * dx
                logger.warning('Symmetry requires simulation extents to be an integer multiple of `2 * dx`, the simulation extents for {} direction has been changed to {}'.format('xyz'[i], extents[i]))
    xyz_min = np.array(sim_region.center) - np.array(extents) / 2
    xyz_max = np.array(sim_region.center) + np.array(extents) / 2
    edge_coords = []
    for i in range(3):
        edge_coords.append(np.arange(xyz_min[i], xyz_max[i] + dx / 2, dx))
    edge_coords = [e - (e[0] + e[-1]) / 2 + c for e, c in zip(edge_coords, sim_region.center)]
    return edge_coords

def create_region_slices(edge_coords: fdfd_tools.EdgeCoords, center: fdfd_tools.Vec3d, extents: fdfd_tools.Vec3d) -> Tuple[slice, slice, slice]:
    xyz_min = np.array(center) - np.array(extents) / 2
    xyz_max = np.array(center) + np.array(extents) / 2
    grid = gridlock.Grid(edge_coords, num_grids=3)
    grid_min = [v[0] for v in grid.xyz]
    grid_max = [v[-1] for v in grid.xyz]
    xyz_min_clip = [max(gr, sl) for gr, sl in zip(grid_min, xyz_min)]
    xyz_max_clip = [min(gr, sl) for gr, sl in zip(grid_max, xyz_max)]
    xyz_ind_min = grid.pos2ind(xyz_min_clip, which_shifts=None).astype(int)
    xyz_ind_max = grid.pos2ind(xyz_max_clip, which_shifts=None).astype(int)
    xyz_ind_min[xyz_min_clip > xyz_min] = 0
    xyz_ind_max[xyz_max_clip < xyz_max] += 1
    for i in range(3):
        xyz_ind_max[i] = max(xyz_ind_max[i], xyz_ind_min[i] + 1)
    return [slice(mi, ma) for mi, ma in zip(xyz_ind_min, xyz_ind_max)]
