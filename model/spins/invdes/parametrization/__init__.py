from .composite_parametrization import *
from .grating_parametrization import *
from .parametrization import *
