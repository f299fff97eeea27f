LOG_FORMAT = '[%(asctime)-15s][%(levelname)s][%(module)s][%(funcName)s] %(message)s'
from spins.goos.optplan import *
from spins.goos.common_schemas import *
from spins.goos import material
from spins.goos.flows import *
from spins.goos.array import *
from spins.goos.generic import *
from spins.goos.math import *
from spins.goos.shapes import *
from spins.goos import grating
from spins.goos import optimize as opt
from spins.goos import util
