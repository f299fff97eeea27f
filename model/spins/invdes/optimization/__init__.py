from spins.invdes.optimization.constrained_optimizer import *
from spins.invdes.optimization.gradient_descent import *
from spins.invdes.optimization.scipy_optimizer import *
