import inspect
import os
from typing import List, NamedTuple, Optional, Tuple
import warnings
import numpy as np
import pandas as pd
from spins import gds as gdslib
from spins import fdfd_tools
from spins import gridlock
from spins import material
from spins.invdes.problem_graph import optplan
from spins.invdes.problem_graph import workspace
NM_PER_UM = 1000

class SimulationSpaceInstance(NamedTuple('SimulationSpaceInstance', [('eps_bg', gridlock.Grid), ('selection_matrix', np.ndarray)])):
    pass

class SimulationSpace:

    def __init__(self, params: optplan.SimulationSpace, filepath: str):
        if params.mesh.type != 'uniform':
            raise ValueError('Non-uniform meshing not yet supported.')
        self._dx = params.mesh.dx
        self._edge_coords = _create_edge_coords(params.sim_region, self._dx)
        self._ext_dir = gridlock.Direction.z
        self._grid = gridlock.Grid(self._edge_coords, ext_dir=self._ext_dir, num_grids=3)
        self._pml_layers = params.pml_thickness
        self._eps_bg = params.eps_bg
        self._eps_fg = params.eps_fg
        self._selmat_type = params.selection_matrix_type
        self._filepath = filepath
        self._cache = {}
        self.__call__(1500)

    @property
    def dx(self) -> float:
        return self._dx

    @property
    def dxes(self) -> fdfd_tools.GridSpacing:
        return [self._grid.dxyz, self._grid.autoshifted_dxyz()]

    @property
    def pml_layers(self) -> fdfd_tools.PmlLayers:
        return self._pml_layers

    @property
    def dims(self) -> Tuple[int, int, int]:
        return [len(self._edge_coords[0]) - 1, len(self._edge_coords[1]) - 1, len(self._edge_coords[2]) - 1]

    @property
    def design_dims(self) -> Tuple[int, int]:
        return self._design_dims

    @property
    def edge_coords(self) -> fdfd_tools.GridSpacing:
        return self._edge_coords

    def __call__(self, wlen: float) -> SimulationSpaceInstance:
        wlen = _round(wlen, digits=6)
        if wlen not in self._cache:
            eps_bg = _create_grid(self._eps_bg, self._edge_coords, wlen, self._ext_dir, self._filepath)
            eps_fg = _create_grid(self._eps_fg, self._edge_coords, wlen, self._ext_dir, self._filepath)
            if self._selmat_type == optplan.SelectionMatrixType.DIRECT.value:
                selection_mat, self._design_dims = gridlock.create_selection_matrix(eps_bg.grids, eps_fg.grids, return_param_dims=True)
            elif self._selmat_type == optplan.SelectionMatrixType.FULL_DIRECT.value:
                self._design_dims = np.array(eps_fg.grids).shape
                import scipy.sparse
                selection_mat = scipy.sparse.diags(fdfd_tools.vec(np.array(eps_fg.grids) - np.array(eps_bg.grids)))
            elif self._selmat_type == optplan.SelectionMatrixType.REDUCED.value:
                selection_mat, self._design_dims = gridlock.create_selection_matrix(eps_bg.grids, eps_fg.grids, reduced=True, return_param_dims=True)
            else:
                raise NotImplementedError('Selection matrix type {} not yet implemented'.format(self._selmat_type))
            self._cache[wlen] = SimulationSpaceInstance(eps_bg=eps_bg, selection_matrix=selection_mat)
        return self._cache[wlen]

@optplan.register_node(optplan.SimulationSpace)
def create_simulation_space(params: optplan.SimulationSpace, work: workspace.Workspace) -> SimulationSpace:
    return SimulationSpace(params, work.filepath)

def _round(value: float, digits: int=6) -> float:
    return round(value, -int(np.floor(np.log10(abs(value)))) + digits)

def _create_edge_coords(sim_region: optplan.Box3d, dx: float) -> fdfd_tools.EdgeCoords:
    xyz_min = np.array(sim_region.center) - np.array(sim_region.extents) / 2
    xyz_max = np.array(sim_region.center) + np.array(sim_region.extents) / 2
    edge_coords = []
    for i in range(3):
        edge_coords.append(np.arange(xyz_min[i] - dx / 2, xyz_max[i] + dx / 2, dx))
    return edge_coords

def _create_grid(eps_spec: optplan.EpsilonSpec, edge_coords: fdfd_tools.EdgeCoords, wlen: float, ext_dir: gridlock.Direction, filepath: str) -> gridlock.Grid:
    if eps_spec.type == 'gds':
        grid = gridlock.Grid(edge_coords, ext_dir=ext_dir, initial=_get_mat_index(eps_spec.mat_stack.background, wlen) ** 2, num_grids=3)
        _draw_gds_on_grid(gds_stack=eps_spec.mat_stack.stack, grid=grid, gds_path=os.path.join(filepath, eps_spec.gds), wlen=wlen)
        grid.render()
    elif eps_spec.type == 'gds_mesh':
        grid = gridlock.Grid(edge_coords, ext_dir=ext_dir, initial=_get_mat_index(eps_spec.background, wlen) ** 2, num_grids=3)
        with open(os.path.join(filepath, eps_spec.gds), 'rb') as gds_file:
            gds = gdslib.GDSImport(gds_file)
        for mesh in eps_spec.mesh_list:
            _draw_mesh_on_grid(mesh, grid, gds, wlen)
        grid.render()
    else:
        raise NotImplementedError('Epsilon spec not implemented for type {}'.format(eps_spec.type))
    return grid

def _draw_mesh_on_grid(mesh: optplan.Mesh, grid: gridlock.Grid, gds: gdslib.GDSImport, wlen: Optional[float]=None) -> None:
    eps_mat = _get_mat_index(mesh.material, wlen) ** 2
    if mesh.type == 'mesh.slab':
        extents = np.array(mesh.extents)
        center = extents.mean()
        thickness = np.diff(extents)[0]
        grid.draw_slab(dir_slab=grid.ext_dir, center=center, thickness=thickness, eps=eps_mat)
    elif mesh.type == 'mesh.gds_mesh':
        layer = tuple(mesh.gds_layer)
        polygons = gds.get_polygons(layer)
        extents = np.array(mesh.extents)
        center = extents.mean()
        thickness = np.diff(extents)[0]
        polygon_center = np.zeros(3)
        polygon_center[grid.ext_dir] = center
        for polygon in polygons:
            polygon = np.around(polygon * NM_PER_UM)
            grid.draw_polygon(center=polygon_center, polygon=polygon, thickness=thickness, eps=eps_mat)
    else:
        raise ValueError('Encountered unknown mesh type: {}'.format(mesh.type))

def _draw_gds_on_grid(gds_stack: List[optplan.GdsMaterialStackLayer], grid: gridlock.Grid, gds_path: str, wlen: Optional[float]=None) -> None:
    with open(gds_path, 'rb') as gds_file:
        gds = gdslib.GDSImport(gds_file)
    for stack_element in gds_stack:
        layer = tuple(stack_element.gds_layer)
        polygons = gds.get_polygons(layer)
        extents = np.array(stack_element.extents)
        center = extents.mean()
        thickness = np.diff(extents)[0]
        polygon_center = np.zeros(3)
        polygon_center[grid.ext_dir] = center
        perm_bg = _get_mat_index(stack_element.background, wlen) ** 2
        perm_fg = _get_mat_index(stack_element.foreground, wlen) ** 2
        grid.draw_slab(dir_slab=grid.ext_dir, center=center, thickness=thickness, eps=perm_bg)
        for polygon in polygons:
            polygon = np.around(polygon * NM_PER_UM)
            grid.draw_polygon(center=polygon_center, polygon=polygon, thickness=thickness, eps=perm_fg)

def _get_mat_index(index_element: optplan.Material, wlen: Optional[float]=None) -> complex:
    if index_element.index is not None:
        index_real = index_element.index.get('real', default=0)
        index_imag = index_element.index.get('imag', default=0)
        index = index_real + 1j * index_imag
    elif index_element.mat_name is not None:
        name = index_element['mat_name']
        if name in ['Air', 'air']:
            mat_obj = material.Air()
        elif name in ['SiO2', 'sio2', 'sio']:
            mat_obj = material.SiO2()
        elif name in ['Si', 'si']:
            mat_obj = material.Si()
        elif name in ['Si3N4', 'sin', 'si3n4', 'SiN']:
            mat_obj = material.Si3N4()
        else:
            raise ValueError('No valid material name.')
        index = mat_obj.refractive_index(np.array(wlen))[0]
    elif index_element.mat_file is not None:
        fname = index_element.mat_file
        if os.path.isfile(fname):
            csv_file = fname
        else:
            path_dir = os.path.dirname(inspect.getfile(material))
            csv_file = os.path.join(path_dir, 'csv_files', fname)
            if not os.path.isfile(csv_file):
                raise ValueError('No csv file named %s or %s found.' % (fname, csv_file))
        index_data = pd.read_csv(csv_file, header=0)
        if 'wl' not in index_data.columns:
            raise ValueError('Wavelengths not specified in csv file %s, or column not named "wl".' % index_element.mat_file)
        if 'n' not in index_data.columns:
            raise ValueError('n not specified in csv file %s, or column not named "n".' % index_element.mat_file)
        if 'k' not in index_data.columns:
            index_data['k'] = 0
        if index_data.shape[1] > 3:
            warnings.warn('Only using wavelength, n, and k data.')
        mat_obj = material.CustomMaterial(np.multiply(index_data['wl'].tolist(), NM_PER_UM), index_data['n'].tolist(), index_data['k'].tolist())
        n, k = mat_obj.refractive_index(np.array(wlen))
        index = n - 1j * k
    else:
        raise ValueError('No valid material.')
    return index

def get_fg_and_bg(simspace: SimulationSpace, wlen: float) -> Tuple[fdfd_tools.VecField, fdfd_tools.VecField]:
    simspace_inst = simspace(wlen)
    num_el = simspace_inst.selection_matrix.shape[1]
    eps_bg = fdfd_tools.vec(simspace_inst.eps_bg.grids)
    eps_fg = eps_bg + simspace_inst.selection_matrix @ np.ones(num_el)
    return (fdfd_tools.unvec(eps_fg, simspace.dims), fdfd_tools.unvec(eps_bg, simspace.dims))
