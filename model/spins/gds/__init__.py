from spins.gds.gen_gds import *
from spins.gds.parse_gds import *
