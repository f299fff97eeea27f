import os
from typing import List
import gdspy
import numpy as np
NM_PER_UM = 1000

def gen_gds(poly_coords: List[np.ndarray], filepath: str, extra_structures: List[np.ndarray]=None, deembed: bool=True) -> None:
    poly_cell = gdspy.Cell('POLYGONS', exclude_from_current=True)
    test_points = []
    gds_polygons = []
    poly_coords = [np.array(poly) / NM_PER_UM for poly in poly_coords]
    for polygon in poly_coords:
        test_points.append(tuple(polygon[0]))
        gds_polygons.append(gdspy.Polygon(polygon, 0))
    if deembed:
        containment_mx = []
        for polygon in gds_polygons:
            containment_mx.append(gdspy.inside(test_points, [polygon]))
        containment_mx = np.array(containment_mx) - np.eye(len(gds_polygons))
        overlap_list = np.sum(containment_mx, axis=1)
        overlap_num = 0
        while sum(overlap_list) != 0:
            overlap_num = overlap_num + 1
            target_polys = np.where(overlap_list == overlap_num)[0]
            while target_polys.size != 0:
                for i in target_polys[::-1]:
                    containment_list = np.nonzero(containment_mx[i, :])[0]
                    poly_list = sum([gds_polygons[j].polygons for j in containment_list], [])
                    gds_polygons[i] = gdspy.boolean(gds_polygons[i], gdspy.PolygonSet(poly_list), 'not', layer=0, precision=1e-06)
                    for j in containment_list:
                        gds_polygons[j] = None
                        test_points[j] = None
                for k in range(len(gds_polygons) - 1, -1, -1):
                    if gds_polygons[k] is None:
                        del gds_polygons[k]
                        del test_points[k]
                containment_mx = []
                for polygon in gds_polygons:
                    containment_mx.append(gdspy.inside(test_points, [polygon]))
                containment_mx = np.array(containment_mx) - np.eye(len(gds_polygons))
                overlap_list = np.sum(containment_mx, axis=1)
                target_polys = np.where(overlap_list == overlap_num)[0]
    for polygon in gds_polygons:
        poly_cell.add(polygon)
    if extra_structures is not None:
        for extra_polygon in extra_structures:
            poly_cell.add(gdspy.Polygon(extra_polygon, 0))
    gdspy.write_gds(filepath, cells=[poly_cell], unit=1e-06, precision=1e-09)
