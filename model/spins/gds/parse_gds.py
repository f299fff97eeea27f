import copy
from typing import BinaryIO, Dict, NamedTuple, List, Optional, Tuple
import gdspy
import numpy as np

class Box(NamedTuple('Box', [('x_minmax', List[float]), ('y_minmax', List[float])])):

    @property
    def center(self) -> Tuple[float, float]:
        return ((self.x_minmax[0] + self.x_minmax[1]) / 2, (self.y_minmax[0] + self.y_minmax[1]) / 2)

    @property
    def extents(self) -> Tuple[float, float]:
        return (self.x_minmax[1] - self.x_minmax[0], self.y_minmax[1] - self.y_minmax[0])

class GDSImport:

    def __init__(self, gds_file: BinaryIO, cell_name: Optional[str]=None) -> None:
        self.gds_filename = gds_file.name
        self.gdsii = gdspy.GdsLibrary(units=1e-06, precision=1e-09)
        self.gdsii.read_gds(gds_file, units='convert')
        self.top_level_cell = self._get_top_level_cell(cell_name)
        self.layers = self._extract_layers()

    def _extract_layers(self) -> Dict[Tuple[int, int], gdspy.PolygonSet]:
        layers = {}
        for poly in self.top_level_cell.get_polygonsets():
            key = (poly.layers[0], poly.datatypes[0])
            if key not in layers:
                layers[key] = []
            layers[key] += poly.polygons
        return layers

    def _get_top_level_cell(self, cell_name) -> gdspy.Cell:
        top_level_cells = copy.deepcopy(self.gdsii.top_level())
        if cell_name is None:
            max_num_polys = 0
            for cell in top_level_cells:
                if cell.name.startswith('$$$'):
                    continue
                else:
                    num_polys = 0
                    cell.flatten()
                    polygon_sets = cell.get_polygonsets()
                    for polygon_set in polygon_sets:
                        num_polys += len(polygon_set.polygons)
                    if max_num_polys == num_polys:
                        raise ValueError('Multiple top level cells with same number of polygons. Unable to uniquely identify top level cell. Please specify cell by name instead.')
                    if max_num_polys < num_polys:
                        max_num_polys = num_polys
                        max_poly_tlc = cell
            if max_num_polys > 0:
                return max_poly_tlc
            else:
                raise ValueError('No valid cell found. Please specify cell by name instead.')
        else:
            for cell in top_level_cells:
                if cell.name == cell_name:
                    return cell.flatten()
            raise ValueError('Cell name not found, got {}.'.format(cell_name))

    def get_bounding_box(self, polygon_coords):
        np_poly_coords = np.array(polygon_coords)
        x_max = max(np_poly_coords[:, 0]) * 1000
        x_min = min(np_poly_coords[:, 0]) * 1000
        y_max = max(np_poly_coords[:, 1]) * 1000
        y_min = min(np_poly_coords[:, 1]) * 1000
        box = Box(x_minmax=[x_min, x_max], y_minmax=[y_min, y_max])
        return box

    def get_bounding_boxes(self, layer):
        boxes = []
        if layer not in self.layers:
            return []
        for polygon in self.layers[layer]:
            boxes.append(self.get_bounding_box(polygon))
        return boxes

    def get_polygons(self, layer):
        if layer not in self.layers:
            return []
        return self.layers[layer]
