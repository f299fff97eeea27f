from spins.invdes.problem_graph import optplan
from spins.invdes.problem_graph import schema_utils

@optplan.register_node_type()
class SimpleMonitor(optplan.Monitor):
    type = schema_utils.polymorphic_model_type('monitor.simple')
    function = optplan.ReferenceType(optplan.Function)

@optplan.register_node_type()
class FieldMonitor(optplan.Monitor):
    type = schema_utils.polymorphic_model_type('monitor.field')
    function = optplan.ReferenceType(optplan.Function)
    center = optplan.vec3d()
    normal = optplan.vec3d()
