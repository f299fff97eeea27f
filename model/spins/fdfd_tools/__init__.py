from spins.fdfd_tools.types import *
from .vectorization import vec, unvec
from spins.fdfd_tools import functional
from spins.fdfd_tools import grid
from spins.fdfd_tools import operators
from spins.fdfd_tools import free_space_sources
from spins.fdfd_tools import solvers
