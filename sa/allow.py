"""Functions whose purpose is to change what they are given, each with its reason."""
MUTATES = {
    "spins.fdfd_tools.grid.stretch_with_scpml": (("dxes",), "documented to stretch the grid it is given in place"),
    "spins.goos.optplan.schema.validate_references": (("model",), "the traversal writes every reference back unchanged"),
    "spins.invdes.problem_graph.optplan.io.validate_references": (("model",), "the traversal writes every reference back unchanged"),
    "spins.invdes.problem_graph.solver.restore_workspace": (("work",), "its purpose is to put the logged state into the workspace"),
    "spins.invdes.problem_graph.optplan.register_node": (("model_class",), "registration marks the model class as polymorphic"),
    "spins.invdes.problem_graph.optplan.io.autoname": (("model",), "its purpose is to name the nodes of the plan in place"),
    "spins.goos_sim.maxwell.simulate.GaussianSourceImpl.before_sim": (("sim",), "hook whose purpose is to add its current to the simulation"),
    "spins.goos_sim.maxwell.simulate.WaveguideModeSourceImpl.before_sim": (("sim",), "hook whose purpose is to add its current to the simulation"),
    "spins.goos_sim.maxwell.simulate.DipoleSourceImpl.before_sim": (("sim",), "hook whose purpose is to add its current to the simulation"),
    "spins.goos_sim.maxwell.simulate.WaveguideModeOverlapImpl.before_adjoint_sim": (("adjoint_sim",), "hook whose purpose is to add its adjoint current"),
}
