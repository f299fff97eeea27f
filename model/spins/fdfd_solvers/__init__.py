from spins.fdfd_solvers import dipole
from spins.fdfd_solvers import waveguide_mode
