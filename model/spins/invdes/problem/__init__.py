from .objective import *
from .farfield import *
from .ffobjective import *
from .emobjective import *
from .grating import *
from .simulation import *
from .structure_objectives import *
from .slack_optimization_problem import SlackOptimizationProblem
