from schematics import types
from spins.invdes.problem_graph import optplan
from spins.invdes.problem_graph import schema_utils

class Initializer(optplan.ProblemGraphNode):
    pass

@optplan.register_node_type()
class UniformInitializer(Initializer):
    type = schema_utils.polymorphic_model_type('initializer.uniform_random')
    min_val = types.FloatType()
    max_val = types.FloatType()

@optplan.register_node_type()
class NormalInitializer(Initializer):
    type = schema_utils.polymorphic_model_type('initializer.normal')
    mean = types.FloatType()
    std = types.FloatType()

@optplan.register_node_type()
class PixelParametrization(optplan.Parametrization):
    type = schema_utils.polymorphic_model_type('parametrization.direct')
    simulation_space = optplan.ReferenceType(optplan.SimulationSpaceBase)
    init_method = optplan.ReferenceType(Initializer)

@optplan.register_node_type()
class GratingParametrization(optplan.Parametrization):
    type = schema_utils.polymorphic_model_type('parametrization.grating')
    simulation_space = optplan.ReferenceType(optplan.SimulationSpaceBase)
    inverted = types.BooleanType(default=False)

@optplan.register_node_type()
class CompositeParametrization(optplan.Parametrization):
    type = schema_utils.polymorphic_model_type('parametrization.composite')
    param_list = types.ListType(optplan.ReferenceType(optplan.Parametrization))

@optplan.register_node_type()
class GratingFeatureConstraint(optplan.Function):
    type = schema_utils.polymorphic_model_type('function.grating_feature_constraint')
    simulation_space = optplan.ReferenceType(optplan.SimulationSpaceBase)
    min_feature_size = types.FloatType()
    boundary_constraint_scale = types.FloatType(default=2.0)

@optplan.register_node_type()
class CubicParametrization(optplan.Parametrization):
    type = schema_utils.polymorphic_model_type('parametrization.cubic')
    simulation_space = optplan.ReferenceType(optplan.SimulationSpaceBase)
    undersample = types.FloatType()
    init_method = optplan.ReferenceType(Initializer)
    reflection_symmetry = types.ListType(types.BooleanType())
    periods = types.ListType(types.IntType())

@optplan.register_node_type()
class HermiteLevelSetParametrization(optplan.Parametrization):
    type = schema_utils.polymorphic_model_type('parametrization.hermite_levelset')
    simulation_space = optplan.ReferenceType(optplan.SimulationSpaceBase)
    undersample = types.FloatType()
    init_method = optplan.ReferenceType(Initializer)
    reflection_symmetry = types.ListType(types.BooleanType())
    periods = types.ListType(types.IntType())

@optplan.register_node_type()
class BicubicLevelSetParametrization(optplan.Parametrization):
    type = schema_utils.polymorphic_model_type('parametrization.bicubic_levelset')
    simulation_space = optplan.ReferenceType(optplan.SimulationSpaceBase)
    undersample = types.FloatType()
    init_method = optplan.ReferenceType(Initializer)
    reflection_symmetry = types.ListType(types.BooleanType())
    periods = types.ListType(types.IntType())

@optplan.register_node_type()
class DiscretePenalty(optplan.Function):
    type = schema_utils.polymorphic_model_type('function.discrete_penalty')

@optplan.register_node_type()
class FabricationConstraint(optplan.Function):
    type = schema_utils.polymorphic_model_type('function.fabrication_constraint')
    minimum_curvature_diameter = types.FloatType()
    minimum_gap = types.FloatType()
    simulation_space = optplan.ReferenceType(optplan.SimulationSpaceBase)
    method = types.StringType(choices=('gap', 'curv', 'gap_and_curve'))
    apply_factors = types.BooleanType()
