from .error import GridError
from .direction import Direction
from .direction import axisvec2polarity
from .direction import axisvec2axis
from .direction import Direction
from .grid_type import GridType
from .grid import Grid
from .selection_matrix import *
