import enum
from schematics import types
from spins.invdes.problem_graph import optplan
from spins.invdes.problem_graph import schema_utils
BOUNDARY_CONDITION_TYPES = []
MESH_TYPES = []

class Material(schema_utils.Model):
    mat_name = types.StringType()
    mat_file = types.StringType()
    index = types.PolyModelType(optplan.ComplexNumber)

class GdsMaterialStackLayer(schema_utils.Model):
    foreground = types.ModelType(Material)
    background = types.ModelType(Material)
    extents = optplan.vec2d()
    gds_layer = types.ListType(types.IntType())

class GdsMaterialStack(schema_utils.Model):
    background = types.ModelType(Material)
    stack = types.ListType(types.ModelType(GdsMaterialStackLayer))

class EpsilonSpec(schema_utils.Model):
    pass

@schema_utils.polymorphic_model()
class GdsEps(EpsilonSpec):
    type = schema_utils.polymorphic_model_type('gds')
    gds = types.StringType()
    mat_stack = types.ModelType(GdsMaterialStack)
    stack_normal = optplan.vec3d()

class Mesh(schema_utils.Model):
    pass

@schema_utils.polymorphic_model()
class GdsMesh(Mesh):
    type = schema_utils.polymorphic_model_type('mesh.gds_mesh')
    material = types.ModelType(Material)
    extents = optplan.vec2d()
    gds_layer = types.ListType(types.IntType())

@schema_utils.polymorphic_model()
class SlabMesh(Mesh):
    type = schema_utils.polymorphic_model_type('mesh.slab')
    material = types.ModelType(Material)
    extents = optplan.vec2d()

@schema_utils.polymorphic_model()
class GdsMeshEps(EpsilonSpec):
    type = schema_utils.polymorphic_model_type('gds_mesh')
    gds = types.StringType()
    background = types.ModelType(Material)
    mesh_list = types.ListType(types.PolyModelType(Mesh))
    stack_normal = optplan.vec3d()

@schema_utils.polymorphic_model()
class ParamEps(EpsilonSpec):
    type = schema_utils.polymorphic_model_type('parametrization')
    parametrization = optplan.ReferenceType(optplan.Parametrization)
    simulation_space = optplan.ReferenceType(optplan.SimulationSpaceBase)
    wavelength = types.FloatType()

@schema_utils.polymorphic_model(MESH_TYPES)
class UniformMesh(schema_utils.Model):
    type = schema_utils.polymorphic_model_type('uniform')
    dx = types.FloatType()

@schema_utils.polymorphic_model(BOUNDARY_CONDITION_TYPES)
class BlochBoundary(schema_utils.Model):
    type = schema_utils.polymorphic_model_type('bloch')
    bloch_vector = optplan.vec3d(default=[0, 0, 0])

@schema_utils.polymorphic_model(BOUNDARY_CONDITION_TYPES)
class PecBoundary(schema_utils.Model):
    type = schema_utils.polymorphic_model_type('pec')

@schema_utils.polymorphic_model(BOUNDARY_CONDITION_TYPES)
class PmcBoundary(schema_utils.Model):
    type = schema_utils.polymorphic_model_type('pmc')

class SelectionMatrixType(enum.Enum):
    DIRECT = 'direct_lattice'
    FULL_DIRECT = 'full_direct'
    REDUCED = 'uniform'

@optplan.register_node_type()
class SimulationSpace(optplan.SimulationSpaceBase):
    type = schema_utils.polymorphic_model_type('simulation_space')
    eps_fg = types.PolyModelType(EpsilonSpec)
    eps_bg = types.PolyModelType(EpsilonSpec)
    mesh = types.PolyModelType(MESH_TYPES)
    sim_region = types.ModelType(optplan.Box3d)
    boundary_conditions = types.ListType(types.PolyModelType(BOUNDARY_CONDITION_TYPES), min_size=6, max_size=6)
    pml_thickness = types.ListType(types.IntType(), min_size=6, max_size=6)
    selection_matrix_type = types.StringType(default=SelectionMatrixType.DIRECT.value, choices=tuple((select_type.value for select_type in SelectionMatrixType)))

@optplan.register_node_type()
class WaveguideMode(optplan.ProblemGraphNode):
    type = schema_utils.polymorphic_model_type('em.waveguide_mode')
    center = optplan.vec3d()
    extents = optplan.vec3d()
    normal = optplan.vec3d()
    mode_num = types.IntType()
    power = types.FloatType()

@optplan.register_node_type()
class WaveguideModeSource(optplan.EmSource):
    type = schema_utils.polymorphic_model_type('source.waveguide_mode')
    center = optplan.vec3d()
    extents = optplan.vec3d()
    normal = optplan.vec3d()
    mode_num = types.IntType()
    power = types.FloatType()

@optplan.register_node_type()
class WaveguideModeOverlap(optplan.EmOverlap):
    type = schema_utils.polymorphic_model_type('overlap.waveguide_mode')
    center = optplan.vec3d()
    extents = optplan.vec3d()
    normal = optplan.vec3d()
    mode_num = types.IntType()
    power = types.FloatType()

@optplan.register_node_type()
class ImportOverlap(optplan.EmOverlap):
    type = schema_utils.polymorphic_model_type('overlap.import_field_vector')
    file_name = types.StringType()
    center = optplan.vec3d()

@optplan.register_node_type()
class PlaneWaveSource(optplan.EmSource):
    type = schema_utils.polymorphic_model_type('source.plane_wave')
    center = optplan.vec3d()
    extents = optplan.vec3d()
    normal = optplan.vec3d()
    theta = types.FloatType()
    psi = types.FloatType()
    polarization_angle = types.FloatType()
    overwrite_bloch_vector = types.BooleanType()
    border = types.ListType(types.FloatType())
    power = types.FloatType()
    normalize_by_sim = types.BooleanType(default=False)

@optplan.register_node_type()
class GaussianSource(optplan.EmSource):
    type = schema_utils.polymorphic_model_type('source.gaussian_beam')
    w0 = types.FloatType()
    center = optplan.vec3d()
    beam_center = optplan.vec3d()
    extents = optplan.vec3d()
    normal = optplan.vec3d()
    theta = types.FloatType()
    psi = types.FloatType()
    polarization_angle = types.FloatType()
    overwrite_bloch_vector = types.BooleanType()
    power = types.FloatType()
    normalize_by_sim = types.BooleanType(default=False)

@optplan.register_node_type()
class DipoleSource(optplan.EmSource):
    type = schema_utils.polymorphic_model_type('source.dipole_source')
    position = optplan.vec3d()
    axis = types.IntType()
    phase = types.FloatType()
    power = types.FloatType()
    normalize_by_sim = types.BooleanType(default=False)

@optplan.register_node_type()
class WaveguideModeEigSource(optplan.EmSource):
    type = schema_utils.polymorphic_model_type('source.waveguide_mode_eig')
    center = optplan.vec3d()
    extents = optplan.vec3d()
    normal = optplan.vec3d()
    mode_num = types.IntType()
    power = types.FloatType()

@optplan.register_node_type()
class WaveguideModeEigOverlap(optplan.EmOverlap):
    type = schema_utils.polymorphic_model_type('overlap.waveguide_mode_eig')
    center = optplan.vec3d()
    extents = optplan.vec3d()
    normal = optplan.vec3d()
    mode_num = types.IntType()
    power = types.FloatType()

@optplan.register_node_type()
class FdfdSimulation(optplan.Function):
    type = schema_utils.polymorphic_model_type('function.fdfd_simulation')
    simulation_space = optplan.ReferenceType(optplan.SimulationSpaceBase)
    epsilon = optplan.ReferenceType(optplan.Function)
    source = optplan.ReferenceType(optplan.EmSource)
    wavelength = types.FloatType()
    solver = types.StringType(choices=('maxwell_bicgstab', 'maxwell_cg', 'local_direct'))
    bloch_vector = types.ListType(types.FloatType())

@optplan.register_node_type()
class Epsilon(optplan.Function):
    type = schema_utils.polymorphic_model_type('function.epsilon')
    simulation_space = optplan.ReferenceType(optplan.SimulationSpaceBase)
    wavelength = types.FloatType()
    structure = optplan.ReferenceType(optplan.Parametrization)

@optplan.register_node_type()
class Overlap(optplan.Function):
    type = schema_utils.polymorphic_model_type('function.overlap')
    simulation = optplan.ReferenceType(optplan.Function)
    overlap = optplan.ReferenceType(optplan.EmOverlap)

@optplan.register_node_type()
class DiffEpsilon(optplan.Function):
    type = schema_utils.polymorphic_model_type('function.diff_epsilon')
    epsilon = optplan.ReferenceType(optplan.Function)
    epsilon_ref = types.PolyModelType(EpsilonSpec)
