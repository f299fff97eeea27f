from typing import List, Tuple, Callable
import gdspy
import numpy as np
from numpy import diff, floor, ceil, zeros, hstack, newaxis
import pickle
import warnings
import copy
from spins.gridlock.float_raster import raster_1D, raster_2D
from spins.gridlock import GridError, Direction, GridType
from spins.gridlock._helpers import is_scalar

class Grid:
    Yee_Shifts_E = 0.5 * np.array([[1, 0, 0], [0, 1, 0], [0, 0, 1]], dtype=float)
    Yee_Shifts_H = 0.5 * np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]], dtype=float)

    @property
    def dxyz(self) -> List[np.ndarray]:
        return [diff(self.exyz[a]) for a in range(3)]

    @property
    def xyz(self) -> List[np.ndarray]:
        return [self.exyz[a][:-1] + self.dxyz[a] / 2.0 for a in range(3)]

    @property
    def shape(self) -> np.ndarray:
        return np.array([coord.size - 1 for coord in self.exyz], dtype=int)

    @property
    def dxyz_with_ghost(self) -> List[np.ndarray]:
        el = [0 if p else -1 for p in self.periodic]
        return [hstack((self.dxyz[a], self.dxyz[a][e])) for a, e in zip(range(3), el)]

    @property
    def center(self) -> np.ndarray:
        centers = [(self.exyz[a][0] + self.exyz[a][1] + self.exyz[a][-2] + self.exyz[a][-1]) / 4.0 for a in range(3)]
        return np.array(centers, dtype=float)

    @property
    def dxyz_limits(self) -> Tuple[np.ndarray, np.ndarray]:
        d_min = np.array([min(self.dxyz[a]) for a in range(3)], dtype=float)
        d_max = np.array([max(self.dxyz[a]) for a in range(3)], dtype=float)
        return (d_min, d_max)

    def shifted_exyz(self, which_shifts: int or None, which_grid: GridType=GridType.PRIM) -> List[np.ndarray]:
        if which_shifts is None:
            return self.exyz
        dxyz = self.dxyz_with_ghost
        if which_grid.value == 0:
            shifts = self.shifts[which_shifts, :]
            sexyz = [self.exyz[a] + dxyz[a] * shifts[a] for a in range(3)]
        else:
            shifts = self.comp_shifts[which_shifts, :]
            sexyz = [np.append(self.exyz[a][0] - dxyz[a][-1] * shifts[a], self.exyz[a] + dxyz[a] * shifts[a]) for a in range(3)]
            sexyz = [sexyz[a][1:] if shifts[a] == 0 else sexyz[a] for a in range(3)]
        return sexyz

    def shifted_dxyz(self, which_shifts: int or None, which_grid: GridType=GridType.PRIM) -> List[np.ndarray]:
        if which_shifts is None:
            return self.dxyz
        dxyz = self.dxyz_with_ghost
        if which_grid.value == 0:
            shifts = self.shifts[which_shifts, :]
            sdxyz = [dxyz[a][:-1] * (1 - shifts[a]) + dxyz[a][1:] * shifts[a] for a in range(3)]
        else:
            shifts = self.comp_shifts[which_shifts, :]
            sdxyz = [np.append(dxyz[a][-1] * (1 - shifts[a]) + dxyz[a][0] * shifts[a], dxyz[a][:-1] * (1 - shifts[a]) + dxyz[a][1:] * shifts[a]) for a in range(3)]
            sdxyz = [sdxyz[a][1:] if shifts[a] == 0 else sdxyz[a] for a in range(3)]
        return sdxyz

    def shifted_xyz(self, which_shifts: int or None, which_grid: GridType=GridType.PRIM) -> List[np.ndarray]:
        if which_shifts is None:
            return self.xyz
        exyz = self.shifted_exyz(which_shifts, which_grid)
        dxyz = self.shifted_dxyz(which_shifts, which_grid)
        return [exyz[a][:-1] + dxyz[a] / 2.0 for a in range(3)]

    def autoshifted_dxyz(self):
        return [self.shifted_dxyz((a + 1) % 3, GridType.COMP)[a][:-1] for a in range(3)]

    def ind2pos(self, ind: np.ndarray or List, which_shifts: int or None, which_grid: GridType=GridType.PRIM, round_ind: bool=True, check_bounds: bool=True) -> np.ndarray:
        if which_shifts is not None and which_shifts >= self.shifts.shape[0]:
            raise GridError('Invalid shifts')
        ind = np.array(ind, dtype=float)
        if check_bounds:
            if round_ind:
                low_bound = 0.0
                high_bound = -1
            else:
                low_bound = -0.5
                high_bound = -0.5
            if (ind < low_bound).any() or (ind > self.shape + high_bound).any():
                raise GridError('Position outside of grid: {}'.format(ind))
        if round_ind:
            rind = np.clip(np.round(ind), 0, self.shape - 1)
            sxyz = self.shifted_xyz(which_shifts, which_grid)
            position = [sxyz[a][int(rind[a])] for a in range(3)]
        else:
            sexyz = self.shifted_exyz(which_shifts, which_grid)
            position = [np.interp(ind[a], np.arange(sexyz[a].size) - 0.5, sexyz[a]) for a in range(3)]
        return np.array(position, dtype=float)

    def pos2ind(self, r: np.ndarray or List, which_shifts: int or None, which_grid: GridType=GridType.PRIM, round_ind: bool=True, check_bounds: bool=True) -> np.ndarray:
        r = np.squeeze(r)
        if r.size != 3:
            raise GridError('r must be 3-element vector: {}'.format(r))
        if which_shifts is not None and which_shifts >= self.shifts.shape[0]:
            raise GridError('')
        sexyz = self.shifted_exyz(which_shifts, which_grid)
        if check_bounds:
            for a in range(3):
                if self.shape[a] > 1 and (r[a] < sexyz[a][0] or r[a] > sexyz[a][-1]):
                    raise GridError('Position[{}] outside of grid!'.format(a))
        grid_pos = zeros((3,))
        for a in range(3):
            xi = np.digitize(r[a], sexyz[a]) - 1
            xi_clipped = np.clip(xi, 0, sexyz[a].size - 2)
            if round_ind or xi != xi_clipped:
                grid_pos[a] = xi_clipped
            else:
                x = self.shifted_exyz(which_shifts, which_grid)[a][xi]
                dx = self.shifted_dxyz(which_shifts, which_grid)[a][xi]
                f = (r[a] - x) / dx
                grid_pos[a] = np.clip(xi + f, 0, sexyz[a].size - 1)
        return grid_pos

    def coord2ind(self, r: float, axis: Direction, which_shifts: int, which_grid: GridType=GridType.PRIM, round_ind: bool=True, check_bounds: bool=True):
        point_3D = np.array([r if a == axis.value else self.center[a] for a in range(3)])
        ind_3D = self.pos2ind(point_3D, which_shifts, which_grid, round_ind, check_bounds)
        return ind_3D[axis.value]

    def __init__(self, pixel_edge_coordinates: List[np.ndarray], ext_dir: Direction=Direction.z, shifts: np.ndarray or List=Yee_Shifts_E, comp_shifts: np.ndarray or List=Yee_Shifts_H, initial: float or np.ndarray or List[float] or List[np.ndarray]=(1.0,) * 3, num_grids: int=None, periodic: bool or List[bool]=False):
        self.grids_bg = []
        self.frac_bg = []
        self.exyz = [np.unique(pixel_edge_coordinates[i]) for i in range(3)]
        for i in range(3):
            if len(self.exyz[i]) != len(pixel_edge_coordinates[i]):
                warnings.warn('Dimension {} had duplicate edge coordinates'.format(i))
        if is_scalar(periodic):
            self.periodic = [periodic] * 3
        else:
            self.periodic = list(periodic)
        self.shifts = np.array(shifts, dtype=float)
        self.comp_shifts = np.array(comp_shifts, dtype=float)
        if self.shifts.shape[1] != 3:
            raise GridError('Misshapen shifts on the primary grid; second axis size should be 3, shape is {}'.format(self.shifts.shape))
        if self.comp_shifts.shape[1] != 3:
            raise GridError('Misshapen shifts on the complementary grid: second axis size should be 3, shape is {}'.format(self.comp_shifts.shape))
        if self.comp_shifts.shape[0] != self.shifts.shape[0]:
            raise GridError('Inconsistent number of shifts in the primary and complementary grid')
        if not ((self.shifts >= 0).all() and (self.comp_shifts >= 0).all()):
            raise GridError('Shifts are required to be non-negative for both primary and complementary grid')
        num_shifts = self.shifts.shape[0]
        if num_grids is None:
            num_grids = num_shifts
        elif num_grids > num_shifts:
            raise GridError('Number of grids exceeds number of shifts (%u)' % num_shifts)
        grids_shape = hstack((num_grids, self.shape))
        if is_scalar(initial):
            self.grids_bg = np.full(grids_shape, initial, dtype=complex)
        else:
            if len(initial) < num_grids:
                raise GridError('Too few initial grids specified!')
            self.grids_bg = [None] * num_grids
            for i in range(num_grids):
                if is_scalar(initial[i]):
                    if initial[i] is not None:
                        self.grids_bg[i] = np.full(self.shape, initial[i], dtype=complex)
                else:
                    if not np.array_equal(initial[i].shape, self.shape):
                        raise GridError('Initial grid sizes must match given coordinates')
                    self.grids_bg[i] = initial[i]
        if isinstance(ext_dir, Direction):
            self.ext_dir = ext_dir.value
        elif is_scalar(ext_dir):
            if ext_dir in range(3):
                self.ext_dir = ext_dir
            else:
                raise GridError('Invalid extrusion direction')
        else:
            raise GridError('Invalid extrusion direction')
        self.grids = np.full(grids_shape, 0.0, dtype=complex)
        self.frac_bg = np.full(grids_shape, 1.0, dtype=complex)
        self.planar_dir = np.delete(range(3), self.ext_dir)
        self.list_polygons = []
        self.layer_polygons = []
        self.reduced_layer_polygons = []
        self.list_z = []
        self.layer_z = []

    @staticmethod
    def load(filename: str) -> 'Grid':
        with open(filename, 'rb') as f:
            tmp_dict = pickle.load(f)
        g = Grid([[-1, 1]] * 3)
        g.__dict__.update(tmp_dict)
        return g

    def save(self, filename: str):
        with open(filename, 'wb') as f:
            pickle.dump(self.__dict__, f, protocol=2)

    def copy(self):
        return copy.deepcopy(self)

    def draw_polygon(self, center: np.ndarray, polygon: np.ndarray, thickness: float, eps: float or List[float]):
        center = np.array(center)
        polygon = np.array(polygon)
        if polygon.ndim != 2 or polygon.shape[1] != 2:
            raise GridError('Invalid format for specifying polygon - must be a Nx2 array')
        if polygon.shape[0] <= 2:
            raise GridError('Malformed Polygon - must contain more than two points')
        if center.ndim != 1 or center.size != 3:
            raise GridError('Invalid format for the polygon center')
        if not is_scalar(thickness) or thickness <= 0:
            raise GridError('Invalid thickness')
        if is_scalar(eps):
            eps = np.ones(self.shifts.shape[0]) * eps
        elif eps.ndim != 1 and eps.size != self.shifts.shape[0]:
            raise GridError('Invalid permittivity - must be scalar or vector of length equalling number of grids')
        polygon_translated = polygon + np.tile(center[self.planar_dir], (polygon.shape[0], 1))
        self.list_polygons.append((polygon_translated, eps))
        self.list_z.append([center[self.ext_dir] - 0.5 * thickness, center[self.ext_dir] + 0.5 * thickness])

    def draw_cuboid(self, center: np.ndarray, extent: np.ndarray, eps: float or List[float]):
        center = np.array(center)
        extent = np.array(extent)
        if center.ndim != 1 or center.size != 3:
            raise GridError('Invalid center coordinate')
        if extent.ndim != 1 or extent.size != 3:
            raise GridError('Invalid cuboid lengths')
        if is_scalar(eps):
            eps = np.ones(self.shifts.shape[0]) * eps
        if eps.ndim != 1 or eps.size != self.shifts.shape[0]:
            raise GridError('Invalid permittivity - must be scalar or vector of length equalling number of grids')
        polygon = 0.5 * np.array([[-extent[self.planar_dir[0]], extent[self.planar_dir[1]]], [extent[self.planar_dir[0]], extent[self.planar_dir[1]]], [extent[self.planar_dir[0]], -extent[self.planar_dir[1]]], [-extent[self.planar_dir[0]], -extent[self.planar_dir[1]]]], dtype=float)
        thickness = extent[self.ext_dir]
        self.draw_polygon(center, polygon, thickness, eps)

    def draw_cylinder(self, center: np.ndarray, radius: float, thickness: float, num_points: int, eps: float or np.ndarray):
        center = np.array(center)
        if center.ndim != 1 or center.size != 3:
            raise GridError('Invalid center coordinate')
        if is_scalar(eps):
            eps = np.ones(self.shifts.shape[0]) * eps
        if eps.ndim != 1 or eps.size != self.shifts.shape[0]:
            raise GridError('Invalid permittvity - must be scalar or vector of length equalling number of grids')
        if not is_scalar(thickness):
            raise GridError('Invalid thickness')
        if not is_scalar(num_points):
            raise GridError('Invalid number of points on the cylinder')
        theta = np.linspace(0, 2.0 * np.pi, num_points)
        x = radius * np.sin(theta)
        y = radius * np.cos(theta)
        polygon = np.vstack((x, y)).T
        self.draw_polygon(center, polygon, thickness, eps)

    def draw_slab(self, dir_slab: Direction or float, center: float, thickness: float, eps: float or np.ndarray):
        if isinstance(dir_slab, Direction):
            dir_slab = dir_slab.value
        elif not is_scalar(dir_slab):
            raise GridError('Invalid slab direction')
        elif not dir_slab in range(3):
            raise GridError('Invalid slab direction')
        if not is_scalar(center):
            raise GridError('Invalid slab center')
        if is_scalar(eps):
            eps = np.ones(self.shifts.shape[0]) * eps
        if eps.ndim != 1 or eps.size != self.shifts.shape[0]:
            raise GridError('Invalid permittivity - must be a scalar or vector of length equalling number of grids')
        dir_slab_par = np.delete(range(3), dir_slab)
        cuboid_cen = np.array([self.center[a] if a != dir_slab else center for a in range(3)])
        cuboid_extent = np.array([2 * np.abs(self.exyz[a][-1] - self.exyz[a][0]) if a != dir_slab else thickness for a in range(3)])
        self.draw_cuboid(cuboid_cen, cuboid_extent, eps)

    def fill_cuboid(self, fill_dir: Direction, fill_pol: int, surf_center: np.ndarray, surf_extent: np.ndarray, eps: float or np.ndarray):
        surf_center = np.array(surf_center)
        surf_extent = np.array(surf_extent)
        if isinstance(fill_dir, Direction):
            fill_dir = fill_dir.value
        elif not is_scalar(fill_dir):
            raise GridError('Invalid slab direction')
        elif not fill_dir in range(3):
            raise GridError('Invalid slab direction')
        if not is_scalar(fill_pol):
            raise GridError('Invalid polarity')
        if not fill_pol in [-1, 1]:
            raise GridError('Invalid polarity')
        if surf_center.ndim != 1 or surf_center.size != 3:
            raise GridError('Invalid surface center')
        if surf_extent.ndim != 1 or surf_extent.size != 2:
            raise GridError('Invalid surface extent')
        edge_lim = self.exyz[fill_dir][0] if fill_pol == -1 else self.exyz[fill_dir][-1]
        cuboid_extent = np.insert(surf_extent, fill_dir, 2 * np.abs(edge_lim - surf_center[fill_dir]))
        cuboid_center = np.array([surf_center[a] if a != fill_dir else surf_center[a] + 0.5 * fill_pol * cuboid_extent[a] for a in range(3)])
        self.draw_cuboid(cuboid_center, cuboid_extent, eps)

    def fill_slab(self, fill_dir: Direction, fill_pol: int, surf_center: float, eps: float or np.ndarray):
        if isinstance(fill_dir, Direction):
            fill_dir = fill_dir.value
        elif not is_scalar(fill_dir):
            raise GridError('Invalid slab direction')
        elif not fill_dir in range(3):
            raise GridError('Invalid slab direction')
        if not is_scalar(fill_pol):
            raise GridError('Invalid polarity')
        if not fill_pol in [-1, 1]:
            raise GridError('Invalid polarity')
        if not is_scalar(surf_center):
            raise GridError('Invalid surface center')
        edge_lim = self.exyz[fill_dir][0] if fill_pol == -1 else self.exyz[fill_dir][-1]
        slab_thickness = 2 * np.abs(edge_lim - surf_center)
        slab_center = surf_center + 0.5 * fill_pol * slab_thickness
        self.draw_slab(fill_dir, slab_center, slab_thickness, eps)

    def compute_layers(self):
        self.layer_z = np.sort(np.unique(np.array(self.list_z).flatten('F')))
        self.layer_polygons = [[] for i in range(self.layer_z.size - 1)]
        for i in range(len(self.list_polygons)):
            ind_bottom = np.searchsorted(self.layer_z, self.list_z[i][0])
            ind_top = np.searchsorted(self.layer_z, self.list_z[i][1])
            for k in range(ind_bottom, ind_top):
                self.layer_polygons[k].append(self.list_polygons[i])

    def remove_intersection(self):

        def check_bounding_box(polygon_1, polygon_2):
            r1_max = np.max(polygon_1, axis=0)
            r2_max = np.max(polygon_2, axis=0)
            r1_min = np.min(polygon_1, axis=0)
            r2_min = np.min(polygon_2, axis=0)
            if r1_max[0] < r2_min[0] or r2_max[0] < r2_min[0]:
                return False
            elif r1_max[1] < r2_min[1] or r2_max[1] < r2_min[1]:
                return False
            else:
                return True

        def compute_intersection(polygon_1, polygon_2):
            if check_bounding_box(polygon_1, polygon_2):
                gds_poly1 = gdspy.Polygon(polygon_1, 0)
                gds_poly2 = gdspy.Polygon(polygon_2, 0)
                gds_poly = gdspy.fast_boolean(gds_poly1, gds_poly2, 'not', layer=1)
                if gds_poly is None:
                    return []
                else:
                    return gds_poly.polygons
            else:
                return [polygon_1]
        num_layers = len(self.layer_polygons)
        self.reduced_layer_polygons = []
        for layer_i_polygons in self.layer_polygons:
            if layer_i_polygons:
                red_layer_i_polygons = [layer_i_polygons[0]]
                num_polygons = len(layer_i_polygons)
                for n in range(1, num_polygons):
                    temp_layer_i_polygons = []
                    for red_layer_i_polygon in red_layer_i_polygons:
                        polygon_inter = compute_intersection(red_layer_i_polygon[0], layer_i_polygons[n][0])
                        if polygon_inter:
                            polygon_inter_eps = [(polygon, red_layer_i_polygon[1]) for polygon in polygon_inter]
                            temp_layer_i_polygons = temp_layer_i_polygons + polygon_inter_eps
                    temp_layer_i_polygons.append(layer_i_polygons[n])
                    red_layer_i_polygons = copy.deepcopy(temp_layer_i_polygons)
            else:
                red_layer_i_polygons = []
            self.reduced_layer_polygons.append(copy.deepcopy(red_layer_i_polygons))

    def render_polygon(self, polygon: np.ndarray, z_extent: np.ndarray, eps: np.ndarray):
        if polygon.ndim != 2 or polygon.shape[1] != 2:
            raise GridError('Invalid format for specifying polygon - must be a Nx2 array')
        if polygon.shape[0] <= 2:
            raise GridError('Malformed Polygon - must contain more than two points')
        if z_extent.ndim != 1 or z_extent.size != 2:
            raise GridError('Invalid format for specifying z-extent - must be a vector of length 2')

        def to_3D(vector: List or np.ndarray, z: float=0.5 * (z_extent[0] + z_extent[1])):
            return np.insert(vector, self.ext_dir, z)

        def get_zi(z: float, which_shifts: float):
            pos_3D = to_3D([0, 0], z)
            grid_coords = self.pos2ind(pos_3D, which_shifts, which_grid=GridType.PRIM, check_bounds=False)
            return grid_coords[self.ext_dir]
        pbd_min = polygon.min(axis=0)
        pbd_max = polygon.max(axis=0)
        z_min = z_extent.min()
        z_max = z_extent.max()
        for n, grid in enumerate(self.grids):
            '\n            Computing the in-plane pixel values\n            '
            comp_shape = np.array([self.shape[a] + 2 if self.comp_shifts[n][a] == 0 else self.shape[a] + 1 for a in range(3)])
            ind_xy_min = self.pos2ind(to_3D(pbd_min), which_shifts=n, which_grid=GridType.PRIM, round_ind=True, check_bounds=False)
            ind_xy_max = self.pos2ind(to_3D(pbd_max), which_shifts=n, which_grid=GridType.PRIM, round_ind=True, check_bounds=False)
            corner_xy_min = ind_xy_min[self.planar_dir].astype(int)
            corner_xy_max = np.minimum(ind_xy_max[self.planar_dir] + 1, self.shape[self.planar_dir] - 1).astype(int)
            comp_corner_xy_min = corner_xy_min.astype(int)
            comp_corner_xy_max = np.minimum(corner_xy_max + 1, comp_shape[self.planar_dir] - 1).astype(int)
            edge_slice_xy = [np.s_[j:f + 1] for j, f in zip(comp_corner_xy_min, comp_corner_xy_max)]
            aa_x, aa_y = (self.shifted_exyz(which_shifts=n, which_grid=GridType.COMP)[a][s] for a, s in zip(self.planar_dir, edge_slice_xy))
            w_xy = raster_2D(polygon.T, aa_x, aa_y)
            '\n            Computing the pixel value along the surface normal\n            '
            ind_z_min = get_zi(z_min, which_shifts=n)
            ind_z_max = get_zi(z_max, which_shifts=n)
            corner_z_min = ind_z_min.astype(int)
            corner_z_max = np.minimum(ind_z_max + 1, self.shape[self.ext_dir] - 1).astype(int)
            comp_corner_z_min = corner_z_min.astype(int)
            comp_corner_z_max = np.minimum(corner_z_max + 1, comp_shape[self.ext_dir] - 1).astype(int)
            edge_slice_z = np.s_[comp_corner_z_min:comp_corner_z_max + 1]
            aa_z = self.shifted_exyz(which_shifts=n, which_grid=GridType.COMP)[self.ext_dir][edge_slice_z]
            w_z = raster_1D(z_extent, aa_z)
            w = (w_xy[:, :, np.newaxis] * w_z).transpose(np.insert([0, 1], self.ext_dir, (2,)))
            center_slice = [None for a in range(3)]
            center_slice[self.ext_dir] = np.s_[corner_z_min:corner_z_max + 1]
            for i in range(2):
                center_slice[self.planar_dir[i]] = np.s_[corner_xy_min[i]:corner_xy_max[i] + 1]
            self.grids[n][tuple(center_slice)] += eps[n] * w
            self.frac_bg[n][tuple(center_slice)] -= w

    def clear(self):
        self.list_polygons = []
        self.layer_polygons = []
        self.reduced_layer_polygons = []
        self.list_z = []
        self.layer_z = []

    def render(self, disable_intersection: bool=False):
        self.frac_bg = np.ones_like(self.grids_bg)
        self.grids = np.zeros_like(self.grids_bg)
        self.compute_layers()
        if disable_intersection:
            self.reduced_layer_polygons = self.layer_polygons
        else:
            self.remove_intersection()
        for i, polygons in enumerate(self.reduced_layer_polygons):
            for j, polygon in enumerate(self.reduced_layer_polygons[i]):
                if polygon is not None:
                    self.render_polygon(polygon[0], z_extent=np.array([self.layer_z[i], self.layer_z[i + 1]]), eps=polygon[1])
        for i in range(0, self.shifts.shape[0]):
            self.grids[i] = self.grids[i] + self.grids_bg[i] * self.frac_bg[i]

    def get_slice(self, surface_normal: Direction or int, center: float, which_shifts: int=0, sample_period: int=1) -> np.ndarray:
        if not is_scalar(center) and np.isreal(center):
            raise GridError('center must be a real scalar')
        sp = round(sample_period)
        if sp <= 0:
            raise GridError('sample_period must be positive')
        if not is_scalar(which_shifts) or which_shifts < 0:
            raise GridError('Invalid which_shifts')
        if isinstance(surface_normal, Direction):
            surface_normal = surface_normal.value
        if surface_normal not in range(3):
            raise GridError('Invalid surface_normal direction')
        surface = np.delete(range(3), surface_normal)
        center3 = np.insert([0, 0], surface_normal, (center,))
        center_index = self.pos2ind(center3, which_shifts, round_ind=False, check_bounds=False)[surface_normal]
        centers = np.unique([floor(center_index), ceil(center_index)]).astype(int)
        if len(centers) == 2:
            fpart = center_index - floor(center_index)
            w = [1 - fpart, fpart]
        else:
            w = [1]
        c_min, c_max = (self.xyz[surface_normal][i] for i in [0, -1])
        if center < c_min or center > c_max:
            raise GridError('Coordinate of selected plane must be within simulation domain')
        sliced_grid = zeros(self.shape[surface])
        for ci, weight in zip(centers, w):
            s = tuple((ci if a == surface_normal else np.s_[::sp] for a in range(3)))
            sliced_grid += weight * self.grids[which_shifts][tuple(s)]
        sliced_grid = np.squeeze(sliced_grid)
        return sliced_grid

    def visualize_slice(self, surface_normal: Direction or int, center: float, which_shifts: int=0, sample_period: int=1, finalize: bool=True):
        from matplotlib import pyplot
        if isinstance(surface_normal, Direction):
            surface_normal = surface_normal.value
        grid_slice = self.get_slice(surface_normal=surface_normal, center=center, which_shifts=which_shifts, sample_period=sample_period)
        surface = np.delete(range(3), surface_normal)
        x, y = (self.shifted_exyz(which_shifts)[a] for a in surface)
        xmesh, ymesh = np.meshgrid(x, y, indexing='ij')
        x_label, y_label = ('xyz'[a] for a in surface)
        if len(grid_slice.shape) == 1:
            grid_slice = np.transpose(np.array([grid_slice]))
        pyplot.figure()
        pyplot.pcolormesh(xmesh, ymesh, grid_slice)
        pyplot.colorbar()
        pyplot.gca().set_aspect('equal', adjustable='box')
        pyplot.xlabel(x_label)
        pyplot.ylabel(y_label)
        if finalize:
            pyplot.show()

    def visualize_isosurface(self, level: float=None, which_shifts: int=0, sample_period: int=1, show_edges: bool=True, finalize: bool=True):
        from matplotlib import pyplot
        import skimage.measure
        from mpl_toolkits.mplot3d import Axes3D
        grid = self.grids[which_shifts][::sample_period, ::sample_period, ::sample_period]
        if level is None:
            level = grid.mean()
        verts, faces = skimage.measure.marching_cubes(grid, level)
        pos_verts = np.array([self.ind2pos(verts[i, :], which_shifts, round_ind=False) for i in range(verts.shape[0])], dtype=float)
        xs, ys, zs = (pos_verts[:, a] for a in range(3))
        fig = pyplot.figure()
        ax = fig.add_subplot(111, projection='3d')
        if show_edges:
            ax.plot_trisurf(xs, ys, faces, zs)
        else:
            ax.plot_trisurf(xs, ys, faces, zs, edgecolor='none')
        max_range = np.array([xs.max() - xs.min(), ys.max() - ys.min(), zs.max() - zs.min()], dtype=float).max()
        mg = np.mgrid[-1:2:2, -1:2:2, -1:2:2]
        xbs = 0.5 * max_range * mg[0].flatten() + 0.5 * (xs.max() + xs.min())
        ybs = 0.5 * max_range * mg[1].flatten() + 0.5 * (ys.max() + ys.min())
        zbs = 0.5 * max_range * mg[2].flatten() + 0.5 * (zs.max() + zs.min())
        for xb, yb, zb in zip(xbs, ybs, zbs):
            ax.plot([xb], [yb], [zb], 'w')
        if finalize:
            pyplot.show()
