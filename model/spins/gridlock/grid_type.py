from enum import Enum

class GridType(Enum):
    PRIM = 0
    COMP = 1
