from spins.invdes.problem_graph import creator_em
from spins.invdes.problem_graph import creator_function
from spins.invdes.problem_graph import creator_monitor
from spins.invdes.problem_graph import creator_opt
from spins.invdes.problem_graph import creator_param
from spins.invdes.problem_graph import grating
from spins.invdes.problem_graph import simspace
