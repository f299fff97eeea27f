from spins.invdes.problem_graph import optplan
from spins.invdes.problem_graph.creator import *
from spins.invdes.problem_graph.solver import run_plan
from spins.invdes.problem_graph.workspace import *
