from spins.goos.optplan import context
GLOBAL_PLAN_STACK = []
GLOBAL_CONTEXT_STACK = context.ContextStack()
PROBLEM_GRAPH_NAME_MAP = {}
from schematics import types
from spins.goos.optplan import schema_utils
ModelNameType = schema_utils.polymorphic_model_type
polymorphic_model = schema_utils.polymorphic_model
from spins.goos.optplan.schema_utils import Model
from spins.goos.optplan.schema_optplan import *
from spins.goos.optplan.optplan import *
from spins.goos.optplan import schema
