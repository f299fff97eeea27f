from schematics import types
from spins.invdes.problem_graph import optplan
from spins.invdes.problem_graph import schema_utils

class ScipyOptimizerOptions(schema_utils.Model):
    tol = types.FloatType()
    maxcor = types.IntType()
    ftol = types.FloatType()
    gtol = types.FloatType()
    eps = types.FloatType()
    maxfun = types.IntType()
    maxiter = types.IntType()
    maxls = types.IntType()

class PenaltyOptimizerOptions(schema_utils.Model):
    mu0 = types.FloatType()
    tau = types.FloatType()
    pf = types.FloatType()
    num_cycles = types.IntType()
    maxiter = types.IntType()
    ftol = types.FloatType()
    gtol = types.FloatType()

class ScipyOptimizerMonitorList(schema_utils.Model):
    callback_monitors = types.ListType(optplan.ReferenceType(optplan.Monitor))
    start_monitors = types.ListType(optplan.ReferenceType(optplan.Monitor))
    end_monitors = types.ListType(optplan.ReferenceType(optplan.Monitor))

@optplan.register_node_type(optplan.NodeMetaType.TRANSFORMATION)
class ScipyOptimizerTransformation(optplan.TransformationBase):
    type = schema_utils.polymorphic_model_type('scipy_optimizer')
    optimizer = types.StringType()
    objective = optplan.ReferenceType(optplan.Function)
    constraints_eq = types.ListType(optplan.ReferenceType(optplan.Function))
    constraints_ineq = types.ListType(optplan.ReferenceType(optplan.Function))
    monitor_lists = types.ModelType(ScipyOptimizerMonitorList)
    optimization_options = types.ModelType(ScipyOptimizerOptions)

@optplan.register_node_type(optplan.NodeMetaType.TRANSFORMATION)
class PenaltyTransformation(optplan.TransformationBase):
    type = schema_utils.polymorphic_model_type('penalty_optimizer')
    optimizer = types.StringType()
    objective = optplan.ReferenceType(optplan.Function)
    constraints_eq = types.ListType(optplan.ReferenceType(optplan.Function))
    constraints_ineq = types.ListType(optplan.ReferenceType(optplan.Function))
    monitor_lists = types.ModelType(ScipyOptimizerMonitorList)
    optimization_options = types.ModelType(PenaltyOptimizerOptions)

@optplan.register_node_type(optplan.NodeMetaType.TRANSFORMATION)
class CubicParamSigmoidStrength(optplan.TransformationBase):
    type = schema_utils.polymorphic_model_type('cubic_param.sigmoid_strength')
    value = types.FloatType(default=4)

@optplan.register_node_type(optplan.NodeMetaType.TRANSFORMATION)
class HermiteParamFixBorder(optplan.TransformationBase):
    type = schema_utils.polymorphic_model_type('hermite_param.fix_borders')
    border_layers = types.ListType(types.IntType())

@optplan.register_node_type(optplan.NodeMetaType.TRANSFORMATION)
class GratingEdgeFitTransformation(optplan.TransformationBase):
    type = schema_utils.polymorphic_model_type('grating_edge_fit_transformation')
    parametrization = optplan.ReferenceType(optplan.Parametrization)
    min_feature = types.FloatType()

@optplan.register_node_type(optplan.NodeMetaType.TRANSFORMATION)
class ContToDiscThresholding(optplan.TransformationBase):
    type = schema_utils.polymorphic_model_type('cont_to_disc_thresholding')
    continuous_parametrization = optplan.ReferenceType(optplan.Parametrization)
    threshold = types.FloatType()
