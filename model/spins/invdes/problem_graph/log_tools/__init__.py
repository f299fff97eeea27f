from spins.invdes.problem_graph.log_tools.loader import *
from spins.invdes.problem_graph.log_tools.monitor_spec import *
from spins.invdes.problem_graph.log_tools.plotter import *
