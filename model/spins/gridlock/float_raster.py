import numpy as np
from scipy import sparse
from typing import Tuple

def raster_1D(poly_x: np.ndarray, grid_x: np.ndarray) -> np.ndarray:
    if poly_x.size != 2:
        raise ValueError('Expected `poly_x` to have exactly 2 elements, got {} instead.'.format(poly_x.size))
    if grid_x.size < 2:
        raise ValueError('Expected `grid_x` to have at least 2 elements, got {} instead.'.format(grid_x.size))
    dim = grid_x.size
    if poly_x[0] > poly_x[1]:
        poly_x = np.array([poly_x[1], poly_x[0]])
    if poly_x[1] <= grid_x[0] or poly_x[0] >= grid_x[-1]:
        return np.zeros(dim - 1)
    poly_ind = np.clip(np.digitize(poly_x, grid_x) - 1, 0, dim - 2)
    pixel_area = np.zeros(dim - 1)
    pixel_area[poly_ind[0] + 1:poly_ind[1]] = 1.0
    if poly_x[0] < grid_x[0]:
        start_frac = 1.0
    else:
        start_frac = (grid_x[poly_ind[0] + 1] - poly_x[0]) / (grid_x[poly_ind[0] + 1] - grid_x[poly_ind[0]])
    if poly_x[1] > grid_x[-1]:
        end_frac = 1.0
    else:
        end_frac = (poly_x[1] - grid_x[poly_ind[1]]) / (grid_x[poly_ind[1] + 1] - grid_x[poly_ind[1]])
    if poly_ind[0] == poly_ind[1]:
        pixel_area[poly_ind[0]] = start_frac + end_frac - 1.0
    else:
        pixel_area[poly_ind[0]] = start_frac
        pixel_area[poly_ind[1]] = end_frac
    return pixel_area

def _compute_intersections(x_coords_a: Tuple[np.ndarray, np.ndarray], y_coords_a: Tuple[np.ndarray, np.ndarray], x_coords_b: Tuple[np.ndarray, np.ndarray], y_coords_b: Tuple[np.ndarray, np.ndarray]) -> Tuple[np.ndarray, np.ndarray, np.ndarray]:
    diff_xib_xia = x_coords_b[0] - x_coords_a[0][:, np.newaxis]
    diff_yib_yia = y_coords_b[0] - y_coords_a[0][:, np.newaxis]
    diff_xfa_xia = (x_coords_a[1] - x_coords_a[0])[:, np.newaxis]
    diff_yfa_yia = (y_coords_a[1] - y_coords_a[0])[:, np.newaxis]
    diff_xfb_xib = (x_coords_b[1] - x_coords_b[0])[np.newaxis, :]
    diff_yfb_yib = (y_coords_b[1] - y_coords_b[0])[np.newaxis, :]
    numerator_a = diff_xib_xia * diff_yfb_yib - diff_yib_yia * diff_xfb_xib
    numerator_b = diff_xib_xia * diff_yfa_yia - diff_yib_yia * diff_xfa_xia
    denominator = diff_yfb_yib * diff_xfa_xia - diff_xfb_xib * diff_yfa_yia
    with np.errstate(invalid='ignore', divide='ignore'):
        frac_a = numerator_a / denominator
        frac_b = numerator_b / denominator
        adj_mat = np.logical_and.reduce((frac_a >= 0, frac_a <= 1, frac_b >= 0, frac_b <= 1))
        inter_x_coords = x_coords_a[0][:, np.newaxis] + diff_xfa_xia * frac_a
        inter_y_coords = y_coords_a[0][:, np.newaxis] + diff_yfa_yia * frac_a
        inter_coords = inter_x_coords + 1j * inter_y_coords
    return (adj_mat, inter_coords, frac_a)

def _expand_polygon_vertices(poly_xy: np.ndarray, grid_x: np.ndarray, grid_y: np.ndarray) -> np.ndarray:
    num_poly_vertices = poly_xy.shape[1]
    poly_xy_cshift = np.roll(poly_xy, -1, axis=1)
    x_coords_poly = (poly_xy[0], poly_xy_cshift[0])
    y_coords_poly = (poly_xy[1], poly_xy_cshift[1])
    min_coords = poly_xy.min(axis=1)
    max_coords = poly_xy.max(axis=1)
    keep_x = np.logical_and(grid_x >= min_coords[0], grid_x <= max_coords[0])
    keep_y = np.logical_and(grid_y >= min_coords[1], grid_y <= max_coords[1])
    local_grid_x = np.unique(np.hstack((min_coords[0], grid_x[keep_x], max_coords[0])))
    local_grid_y = np.unique(np.hstack((min_coords[1], grid_y[keep_y], max_coords[1])))
    x_coords_grid = (np.hstack((np.full_like(local_grid_y, local_grid_x[0]), local_grid_x)), np.hstack((np.full_like(local_grid_y, local_grid_x[-1]), local_grid_x)))
    y_coords_grid = (np.hstack((local_grid_y, np.full_like(local_grid_x, local_grid_y[0]))), np.hstack((local_grid_y, np.full_like(local_grid_x, local_grid_y[-1]))))
    adj_matrix, inter_coords, norm_dist = _compute_intersections(x_coords_poly, y_coords_poly, x_coords_grid, y_coords_grid)
    inter_coords_clip = np.real(inter_coords).clip(grid_x[0], grid_x[-1]) + 1j * np.imag(inter_coords).clip(grid_y[0], grid_y[-1])
    insertion_order = norm_dist.argsort(axis=1)
    poly_xy_with_inter = np.hstack((poly_xy[0, :, np.newaxis] + 1j * poly_xy[1, :, np.newaxis], inter_coords_clip[np.arange(num_poly_vertices)[:, np.newaxis], insertion_order]))
    retained_vertices = np.hstack((np.ones((num_poly_vertices, 1), dtype=bool), adj_matrix[np.arange(num_poly_vertices)[:, np.newaxis], insertion_order]))
    vertices = poly_xy_with_inter[retained_vertices]
    vertices_inside = np.logical_and.reduce((np.real(vertices) <= grid_x[-1], np.real(vertices) >= grid_x[0], np.imag(vertices) <= grid_y[-1], np.imag(vertices) >= grid_y[0]))
    vertices = vertices[vertices_inside]
    vertices_consec_unique = np.ediff1d(vertices, to_begin=1 + 1j).astype(bool)
    vertices = vertices[vertices_consec_unique]
    return vertices

def raster_2D(poly_xy: np.ndarray, grid_x: np.ndarray, grid_y: np.ndarray) -> np.ndarray:
    if poly_xy.shape[0] != 2:
        raise ValueError('Expected `poly_xy` to have 2 rows, got {} instead.'.format(poly_xy.shape[0]))
    if grid_x.size < 2 or grid_y.size < 2:
        raise ValueError('Expected both `grid_x` and `grid_y` to have atleast 2 elements, got sizes of {} and {} respectively.'.format(grid_x.size, grid_y.size))
    vertices = _expand_polygon_vertices(poly_xy, grid_x, grid_y)
    if vertices.size == 0:
        return np.zeros((grid_x.size - 1, grid_y.size - 1))
    poly = np.hstack((vertices, vertices[0]))
    endpoint_avg = (poly[:-1] + poly[1:]) * 0.5
    non_edge = np.logical_and(np.real(endpoint_avg) < grid_x[-1], np.imag(endpoint_avg) < grid_y[-1])
    endpoint_final = endpoint_avg[non_edge]
    x_sub = np.digitize(np.real(endpoint_final), grid_x) - 1
    y_sub = np.digitize(np.imag(endpoint_final), grid_y) - 1
    cover = np.diff(np.imag(poly), axis=0)[non_edge] / np.diff(grid_y)[y_sub]
    area = (np.real(endpoint_final) - grid_x[x_sub]) * cover / np.diff(grid_x)[x_sub]
    poly_grid = sparse.coo_matrix((-area + 1j * cover, (x_sub, y_sub)), shape=(grid_x.size - 1, grid_y.size - 1)).toarray()
    result_grid = np.real(poly_grid) + np.imag(poly_grid).cumsum(axis=0)
    return np.abs(result_grid)
