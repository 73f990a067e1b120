"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))


prop("C01", "Simulation answers depend only on the current inputs",
     "Whatever sequence of calls a simulation object has seen before - models evaluated, data or sensitivities computed, physical properties or maps reassigned, fields objects handed out and passed back later - its predicted data, sensitivity products and sensitivity diagonals equal those of a newly built simulation given the same current inputs. No result is ever a leftover of an earlier model, earlier property value, earlier map or earlier data weighting.",
     ["histories", "inputs"], "All interleavings of model changes, property/map reassignments and queries on every simulation family (DC 1D/2D/3D, IP, SP, SIP, FDEM, TDEM, NSEM 1D/2D/3D, layered 1D, gravity, magnetics, VRM, Richards, tomography, linear).",
     "Tests build a simulation, query it once or twice with one model and throw it away; caches of system matrices, factorisations, sensitivities and diagonals only go stale along longer histories.",
     ["simpeg/simulation.py", "simpeg/base/pde_simulation.py", "simpeg/props.py", "simpeg/electromagnetics/static/resistivity/simulation.py", "simpeg/electromagnetics/static/resistivity/simulation_2d.py", "simpeg/electromagnetics/static/induced_polarization/simulation.py", "simpeg/electromagnetics/frequency_domain/simulation.py", "simpeg/electromagnetics/time_domain/simulation.py", "simpeg/potential_fields/base.py", "simpeg/potential_fields/magnetics/simulation.py", "simpeg/electromagnetics/base_1d.py"],
     [("clean on model update", "simpeg/props.py HasModel.model, simpeg/simulation.py deleteTheseOnModelUpdate"), ("dependent property invalidation", "simpeg/utils/code_utils.py dependent_property, simpeg/base/pde_simulation.py")],
     [("current model", "last model assigned or passed", "HasModel.model"), ("caches", "matrices, factorisations, J, diag(JtJ)", "deleteTheseOnModelUpdate / clean_on_model_update")],
     ["dpred", "fields", "Jvec", "Jtvec", "getJ", "getJtJdiag"])

prop("C02", "Sensitivities are one linear operator and the derivative of the data",
     "At every model, the forward and transposed sensitivity products are linear and adjoint to one another, they equal the products with the explicit sensitivity matrix where one is offered, and they are the derivative of the predicted data with respect to the model, for every receiver component, source type and invertible property including several at once. The sensitivity diagonal equals the diagonal of J^T W^T W J for the weights that were passed (for mappings in which each model parameter feeds at most one cell).",
     ["inputs", "configurations"], "All models, directions, weights, receiver kinds, source types, boundary conditions, formulations and combinations of inverted properties.",
     "Derivative tests sample one receiver/source/parameter combination at a time with loose convergence-order criteria, and whole test directories (time domain, frequency-domain inversion) are too slow to be run on every change.",
     ["simpeg/electromagnetics/static/resistivity/simulation.py", "simpeg/electromagnetics/frequency_domain/simulation.py", "simpeg/electromagnetics/frequency_domain/fields.py", "simpeg/electromagnetics/time_domain/simulation.py", "simpeg/electromagnetics/time_domain/fields.py", "simpeg/electromagnetics/natural_source/receivers.py", "simpeg/base/pde_simulation.py", "simpeg/potential_fields/gravity/simulation.py", "simpeg/potential_fields/magnetics/simulation.py", "simpeg/flow/richards/simulation.py"],
     [("Jvec/Jtvec/getJ/getJtJdiag", "every simulation class"), ("receiver evalDeriv", "receivers of each physics")],
     observe=["Jvec", "Jtvec", "getJ", "getJtJdiag", "dpred"])

prop("C03", "One data layout for surveys, data objects and uncertainties",
     "The data vector of any survey is the concatenation of its source-receiver blocks in list order: counts, slices, indices, per-datum attribute arrays (locations, times, frequencies, components, ...) and grouping by frequency all follow from the current source and receiver lists, also after those lists are replaced. A data object reads and writes exactly the block of the pair addressed, rejects foreign pairs and wrong lengths, and its standard deviation is sqrt((relative error * |d|)^2 + floor^2).",
     ["histories", "inputs"], "All survey shapes, all sequences of list replacements, block writes/reads and uncertainty assignments.",
     "Tests use a few rectangular surveys and never replace lists after a count has been read; misalignment only shows on ragged surveys.",
     ["simpeg/survey.py", "simpeg/data.py", "simpeg/electromagnetics/frequency_domain/survey.py", "simpeg/electromagnetics/static/resistivity/survey.py", "simpeg/electromagnetics/time_domain/survey.py", "simpeg/potential_fields/gravity/survey.py", "simpeg/potential_fields/magnetics/survey.py"],
     [("slices and counts", "simpeg/survey.py BaseSurvey.get_slice / get_all_slices / vnD"), ("block access", "simpeg/data.py Data.__getitem__/__setitem__")],
     observe=["survey.nD/vnD/get_slice", "Data[src, rx]", "Data.standard_deviation"])

prop("C04", "Field containers return exactly what was stored, per source and time",
     "A fields object returns, for any source, list of sources, all sources and any time index, exactly the values last stored for those sources and times, in the order asked for and with the documented shape, and storing for one source, time or field never changes another. Derived fields (e, b, h, j, charge, potential, magnetic potential, ...) equal the documented function of the stored solution for the same source, whatever subset or order is requested.",
     ["histories", "inputs"], "All sequences of stores and loads over sources, fields and time indices; all subsets and orders of sources requested from every physics' fields class.",
     "Tests read whole-field arrays for one or two sources; mixing up column order or time slices needs multi-source, multi-time, partial requests.",
     ["simpeg/fields.py", "simpeg/electromagnetics/frequency_domain/fields.py", "simpeg/electromagnetics/time_domain/fields.py", "simpeg/electromagnetics/static/resistivity/fields.py", "simpeg/electromagnetics/static/resistivity/fields_2d.py", "simpeg/electromagnetics/natural_source/fields.py"],
     [("index resolution and storage", "simpeg/fields.py Fields.__getitem__/__setitem__, TimeFields"), ("aliased fields", "aliasFields tables of each fields class")],
     observe=["fields[src, name]", "fields[src, name, t]"])

prop("C05", "Physical properties follow their value, map and reciprocal consistently",
     "At any time an invertible property has exactly one source of truth - a directly assigned value, a map applied to the current model, or the reciprocal of its partner property - and the last assignment made decides which; reading it (or its reciprocal, or its derivative with respect to the model) always yields the value that source implies for the current model. A property with no source, or a mapped property with no model, raises instead of returning something.",
     ["histories"], "All sequences of assigning, deleting and reading values, maps, reciprocal partners and models, on single properties, reciprocal pairs and several independent properties.",
     "Tests check each transition once; stale or conflicting state needs longer assignment histories.",
     ["simpeg/props.py", "simpeg/base/pde_simulation.py"],
     [("property state machine", "simpeg/props.py PhysicalProperty / Invertible / Reciprocal"), ("model setter", "simpeg/props.py HasModel.model")],
     observe=["attribute get/set/delete", "<prop>Map", "<prop>Deriv", "model"])

prop("C06", "Maps: exact composition, shapes, derivatives and inverses",
     "For every map and every composition, sum or slicing of maps, the derivative is the Jacobian of the mapping (as a matrix and applied to a vector), the declared shape is the actual one, a product of maps is function composition with the chain rule, and an offered inverse undoes the mapping. Maps that select, embed, tile, project or average place every model entry exactly where documented, and mismatched shapes are rejected. Reassigning a map's settings takes effect on its next use.",
     ["inputs", "programs"], "All maps of the public map library, all well-typed expression trees of maps, all models in their domain.",
     "Tests check single maps at one random model with a derivative-order test; interactions of composition, active cells and shapes are sampled once.",
     ["simpeg/maps/_base.py", "simpeg/maps/_property_maps.py", "simpeg/maps/_mesh_based.py", "simpeg/maps/_injection.py", "simpeg/maps/_clustering.py", "simpeg/maps/_parametric.py", "simpeg/maps/_surjection.py"],
     [("composition", "simpeg/maps/_base.py ComboMap, IdentityMap.__mul__"), ("derivatives", "deriv methods")],
     observe=["map * model", "map.deriv(m, v)", "map.inverse", "map.shape", "map1 * map2"])

prop("C07", "Objective function algebra",
     "For every objective function built by adding, scaling (by any number, negative ones included) and dividing other objective functions, the value, gradient and Hessian (applied to a vector, and as a matrix where the terms offer one) are the correspondingly weighted sums of its terms' and the derivative really is the gradient of the value; zero-weighted terms contribute nothing. Multipliers, mappings and weights may be changed at any time and the next evaluation uses the current ones, and building an expression never alters the operands.",
     ["programs", "histories", "inputs"], "All expression trees over objective functions, all multipliers, all evaluation and mutation histories.",
     "Tests evaluate a handful of two- or three-term sums; nested sums, repeated terms, mutation after construction and operand aliasing are combinatorial.",
     ["simpeg/objective_function.py", "simpeg/data_misfit.py"],
     [("expression building", "simpeg/objective_function.py BaseObjectiveFunction operators, ComboObjectiveFunction")],
     observe=["f(m)", "f.deriv(m)", "f.deriv2(m, v)", "multipliers"])

prop("C08", "Regularization measures the documented model quantity",
     "Each smallness, smoothness, cross-gradient, joint-total-variation, linear-correspondence and vector and PGI regularization returns the weighted squared norm (or sparse-norm approximation) of the documented function of model minus reference on the active cells, and its gradient and Hessian are consistent with it. Changing reference model, weights, norms, gradient orientation, units, mapping, active cells or multipliers changes only what that setting governs and takes effect on the next evaluation; parent settings propagate to the children as documented.",
     ["histories", "inputs", "configurations"], "All meshes, active sets, weights, reference models, norms and all histories of reassigning them.",
     "Tests check derivative consistency and a few values with the settings given at construction; they do not enumerate setting histories or interaction of active cells, weights and children.",
     ["simpeg/regularization/base.py", "simpeg/regularization/sparse.py", "simpeg/regularization/regularization_mesh.py", "simpeg/regularization/vector.py", "simpeg/regularization/cross_gradient.py", "simpeg/regularization/jtv.py", "simpeg/regularization/correspondence.py", "simpeg/regularization/pgi.py", "simpeg/regularization/_gradient.py"],
     [("weights dictionary and W cache", "simpeg/regularization/base.py set_weights/W"), ("child propagation", "WeightedLeastSquares setters"), ("mesh operators", "regularization_mesh.py")],
     observe=["reg(m)", "reg.deriv", "reg.deriv2", "weights", "reference_model"])

prop("C09", "Optimizers descend, stay feasible and stop for a stated reason",
     "Every optimizer accepts only steps that satisfy its sufficient-decrease rule, keeps every iterate inside the bounds (or active set) it was given, counts iterations, line-search steps and stored states correctly, and stops exactly when one of its stopping rules holds, an iteration limit is hit, or the line search breaks. On convergence it reports a point whose projected gradient meets the tolerance, and reusing an optimizer for a new run starts from clean state.",
     ["inputs", "histories"], "All smooth objective functions, start points, bounds, limits and reuse histories.",
     "Tests run each optimizer on Rosenbrock and one quadratic to convergence; feasibility and decrease must hold at every iterate of every run, including broken line searches and limits.",
     ["simpeg/optimization.py"],
     [("iteration loop", "simpeg/optimization.py Minimize.minimize"), ("line search", "Minimize.modifySearchDirection"), ("bounds", "Bounded / ProjectedGradient / ProjectedGNCG"), ("stoppers", "StoppingCriteria / IterationPrinters")],
     observe=["xc, f, g at each iteration", "iter, iterLS", "stoppers", "recall"])

prop("C10", "Inversion lifecycle and directive semantics",
     "An inversion runs the directives' initialize once, end-of-iteration after every accepted iteration in list order, and finish once, and every directive sees the state of the iteration that just ended. Directives do exactly what they document: trade-off cooling by factor and rate, target-misfit stopping, sensitivity weights, IRLS norms and threshold cooling, saving per-iteration records, alpha and beta estimates; invalid directive orders are rejected before the run starts.",
     ["histories", "configurations"], "All lists of directives, rates, factors, limits and iteration counts, including early stops and re-runs.",
     "Tests run complete inversions and look at the final model; ordering, per-iteration timing and interaction between directives are not observed.",
     ["simpeg/inversion.py", "simpeg/directives/_directives.py", "simpeg/directives/_regularization.py", "simpeg/directives/_pgi_directives.py", "simpeg/directives/_sim_directives.py", "simpeg/inverse_problem.py", "simpeg/optimization.py"],
     [("directive dispatch", "simpeg/directives/_directives.py DirectiveList.call"), ("inversion run", "simpeg/inversion.py BaseInversion.run")],
     observe=["sequence of hook calls", "beta/norms/weights per iteration", "saved records"])

prop("C11", "The inverse problem evaluates phi_d + beta * phi_m at the point asked",
     "At any model the inverse problem returns misfit plus trade-off times regularization, their gradient and their Hessian action for the current trade-off and terms, with the misfit equal to the squared norm of the weighted residual between predicted and observed data. Stored fields and predicted data are only ever reused for the model they were computed at, per-term misfit values and predicted data are reported against the right term, and all of it holds in whatever order models are visited.",
     ["histories", "inputs", "configurations"], "All evaluation orders of models with warm-started fields, all combinations of misfit terms (including ones without simulation and nested sums), all trade-off changes.",
     "Tests evaluate through whole inversions; stale warm starts and misassigned terms only show with particular evaluation orders and term mixes.",
     ["simpeg/inverse_problem.py", "simpeg/data_misfit.py", "simpeg/objective_function.py"],
     [("evaluation and warm start", "simpeg/inverse_problem.py BaseInvProblem.evalFunction/getFields"), ("residual and weights", "simpeg/data_misfit.py")],
     observe=["evalFunction", "phi_d, phi_m", "dpred", "misfit values"])

prop("C12", "Composite simulations equal the composition of their parts",
     "A meta simulation's data, sensitivity products and sensitivity diagonal (by its documented formula) equal the concatenation (stitched), sum or repetition of its member simulations' own results, each at the model its mapping prescribes and with the data weights of its own slice. This holds for every number and order of members and after any history of model, map or member changes.",
     ["histories", "inputs", "configurations"], "All member lists (kinds, orders, sizes), mapping sets and evaluation histories.",
     "Tests use two or three equal-sized members and a single evaluation.",
     ["simpeg/meta/simulation.py"],
     [("stitching", "simpeg/meta/simulation.py MetaSimulation/SumMetaSimulation/RepeatedSimulation")],
     observe=["dpred", "Jvec", "Jtvec", "getJ", "getJtJdiag"])

prop("C13", "Parallel composite simulations match the serial ones under any schedule",
     "The multi-process composite simulations return the same results as the serial composite for any number of workers, any distribution of members and any order in which workers finish, and each answer belongs to the request that asked for it. A failing member surfaces as an error to the caller and later requests still get their own answers; joining ends all workers.",
     ["schedules", "fault_sequences", "configurations"], "All worker counts, delays, request sequences and failures of single members at any request.",
     "Tests run one request at a time with healthy workers.",
     ["simpeg/meta/multiprocessing.py"],
     [("work queues", "simpeg/meta/multiprocessing.py _SimulationProcess, MultiprocessingMetaSimulation")],
     observe=["dpred", "Jvec", "Jtvec", "getJtJdiag", "exceptions"])

prop("C14", "Potential-field answers do not depend on engine, storage or parallelism",
     "For the same mesh, active cells, survey and model, gravity, gravity-gradient and magnetic results (data, sensitivities, sensitivity diagonal) agree between the available engines, storage modes (in memory, on disk, forward only), data types within their precision, serial and parallel execution, and mesh types describing the same cells. Sensitivities kept on disk are used only for the problem they were computed for.",
     ["configurations", "histories"], "All combinations of engine, storage, dtype, parallel flag, mesh type, components and active sets, and sequences of simulations sharing a storage path.",
     "Tests compare single combinations against analytic prisms with percent-level tolerances.",
     ["simpeg/potential_fields/base.py", "simpeg/potential_fields/gravity/simulation.py", "simpeg/potential_fields/gravity/_numba/_3d_mesh.py", "simpeg/potential_fields/gravity/_numba/_2d_mesh.py", "simpeg/potential_fields/magnetics/simulation.py", "simpeg/potential_fields/magnetics/_numba/_3d_mesh.py", "simpeg/potential_fields/magnetics/_numba/_2d_mesh.py"],
     [("kernels", "simpeg/potential_fields/*/_numba/"), ("storage", "simpeg/potential_fields/base.py linear_operator")],
     observe=["dpred", "G", "Jvec", "Jtvec", "getJtJdiag"])

prop("C15", "Each datum depends only on its own source, receiver and the model",
     "The data predicted for a survey are the concatenation of what each source-receiver pair gives alone: adding, removing, reordering or splitting sources and receivers, locations, times or frequencies permutes or extends the data vector accordingly and changes no other datum. The same holds for the rows of the sensitivity.",
     ["inputs", "configurations"], "All sub-surveys and permutations of sources and receivers, for every simulation family.",
     "Tests use one fixed survey per physics; cross-talk between pairs needs comparing different surveys.",
     ["simpeg/simulation.py", "simpeg/electromagnetics/base_1d.py", "simpeg/electromagnetics/frequency_domain/simulation_1d.py", "simpeg/electromagnetics/time_domain/simulation_1d.py", "simpeg/electromagnetics/static/resistivity/survey.py", "simpeg/electromagnetics/viscous_remanent_magnetization/simulation.py", "simpeg/potential_fields/gravity/simulation.py"],
     [("per-pair projection loops", "dpred/Jvec/Jtvec of each simulation")],
     observe=["dpred", "Jvec", "Jtvec"])

prop("C16", "Files and utility transforms round-trip without loss",
     "Writing survey data with any of the write_* functions (UBC DC/IP 2D and 3D, octree, MAG3D, GRAV3D, GG3D, XYZ tables) and reading them back with the matching read_* function yields the same survey geometry (electrodes, poles and dipoles, stations, components), values and uncertainties up to the format's printed precision, whatever the number of sources and stations, their order, coordinates, or the sign or magnitude of the data, and writing leaves the data object as it was. Natural source record arrays, electrode tables (ABMN) and the split of 3D surveys into 2D lines keep every datum once, coordinate transforms compose to the identity with their inverses, and pickled or copied maps, surveys, data, regularizations and simulations answer like the original, independently of it.",
     ["inputs"], "All surveys and data representable in each format; all vectors and rotations.",
     "Tests round-trip one sample per format.",
     ["simpeg/utils/io_utils/io_utils_electromagnetics.py", "simpeg/utils/io_utils/io_utils_pf.py", "simpeg/utils/mat_utils.py", "simpeg/utils/model_utils.py", "simpeg/electromagnetics/static/utils/static_utils.py", "simpeg/electromagnetics/natural_source/survey.py"],
     [("readers and writers", "simpeg/utils/io_utils"), ("transforms", "simpeg/utils/mat_utils.py, electromagnetics/static/utils/static_utils.py")],
     observe=["write_* / read_* pairs", "utility functions"])

prop("C17", "Assignments are validated and failed assignments change nothing",
     "Every public setting of simulations, surveys, sources, receivers, waveforms, data, misfits, regularizations, directives, optimizers, maps and composites refuses, with an error, values outside its documented domain (numeric ranges with inclusive or exclusive ends, accepted words with their aliases and case rules, types, array shapes and kinds, unique lists, unit directions, active cells) and accepts the values inside it, normalised as documented. What was set is what is read back, a value read back can be assigned again and stays, a value given is never modified, and a refused assignment leaves every public attribute of the object as it was. The validators in simpeg.utils (validate_float, validate_integer, validate_string, validate_type, validate_list_of_types, validate_ndarray_with_shape, validate_location_property, validate_direction, validate_callable, validate_active_indices) decide exactly that.",
     ["histories", "inputs"], "All assignment histories mixing acceptable and unacceptable values over all validated attributes.",
     "Tests probe one bad value per attribute and never look at the object afterwards.",
     ["simpeg/utils/code_utils.py", "simpeg/survey.py", "simpeg/data.py", "simpeg/simulation.py", "simpeg/regularization/base.py", "simpeg/directives/_directives.py", "simpeg/optimization.py", "simpeg/maps/_parametric.py", "simpeg/electromagnetics/frequency_domain/sources.py", "simpeg/electromagnetics/time_domain/sources.py"],
     [("validators", "simpeg/utils/code_utils.py validate_*"), ("setters", "throughout")],
     observe=["attribute assignment and read back", "simpeg.utils.validate_*"])

prop("C18", "Seeded computations are reproducible and inputs are never modified",
     "Given the same seed, every randomised computation (synthetic noise, eigenvalue and trade-off estimates, random models, mixture fits, starting vectors of estimates) gives the same result (to about one part in a million) regardless of what ran before, whichever way the seed is given, and without disturbing the caller's global random state; successive draws from one generator differ, and synthetic noise has the requested level. No public computation (simulations and their sensitivities, objective functions, maps, inversions, utilities) modifies arrays, surveys, maps or data objects the caller passed in, the answer does not depend on the memory layout of the arguments, and editing one result does not change the data it was made from.",
     ["histories", "inputs"], "All seeds, preceding histories and argument arrays.",
     "Tests use one seed in one order and do not compare arguments before and after.",
     ["simpeg/simulation.py", "simpeg/data.py", "simpeg/directives/_directives.py", "simpeg/utils/model_builder.py", "simpeg/utils/mat_utils.py", "simpeg/utils/code_utils.py", "simpeg/maps/_base.py", "simpeg/regularization/base.py"],
     [("generators from seeds", "random_seed arguments"), ("no in-place updates", "throughout")],
     observe=["make_synthetic_data", "estimates", "argument arrays before/after"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as fh:
        for p in P:
            fh.write(json.dumps(p) + "\n")
