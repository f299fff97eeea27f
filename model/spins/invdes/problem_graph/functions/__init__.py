from spins.invdes.problem_graph.functions.poynting import *
