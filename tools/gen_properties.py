#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os
S = "src/factorama/"
P = []
def prop(id, title, statement, over, text, tests, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=tests,
        anchors=dict(files=[f if "/" in f else S + f for f in files],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or [], hook_needed=None)))

prop("P01", "The graph is a registry with unique ids, stable order and exact lookups",
 "Adding a variable (factor) whose id is already used by a variable (factor) of the graph throws and changes nothing; every other addition is appended, whatever the ids are. Looking up an id returns exactly the variable added under it, or null, and the lists of variables and factors are in insertion order at all times.",
 ["histories", "inputs"], "every sequence of additions and lookups, with any ids (also negative, huge, sparse, decreasing, equal ids of a variable and a factor)",
 "the tests add a handful of variables with small increasing ids; one test tries a duplicate id.",
 ["factor_graph.cpp", "factor_graph.hpp"],
 [("id maps next to insertion-ordered vectors", "FactorGraph::add_variable/add_factor/get_variable")],
 [("variables_vector_, variables_map_", "registered variables", "factor_graph.hpp"), ("factors_, factors_map_", "registered factors", "factor_graph.hpp")],
 ["get_variable", "get_all_variables", "get_all_factors", "num_variables", "get_variables_of_type"])

prop("P02", "Finalizing lays out the state columns and residual rows without gap or overlap",
 "After a successful finalize_structure(), the columns of the non-constant variables are consecutive blocks of their sizes in insertion order (a constant variable has dimension 0), the rows of the factors are consecutive blocks of their residual sizes in insertion order, and num_values() and num_residuals() are the totals. Finalizing throws, and leaves the graph not finalized, if a factor refers to a null variable or to a non-constant variable that is not in the graph, or if there are fewer residuals than values.",
 ["histories", "configurations"], "every set of variables and factors, constant flags, insertion orders and ids",
 "tests check a few fixed graphs; none checks placements after re-finalizing or with constants in every position.",
 ["factor_graph.cpp"], [("column and row offsets assigned in one pass over the insertion-ordered vectors", "FactorGraph::finalize_structure")],
 [("variable_placement_, factor_placement_", "column/row block of each variable/factor", "factor_graph.hpp")],
 ["variable_placement", "factor_placement", "num_values", "num_residuals", "finalize_structure"])

prop("P03", "Nothing computed for an older structure is ever served",
 "Residuals and Jacobians can be computed only while the graph is finalized for its current variables and factors: after any addition the compute functions throw until finalize_structure() is called again. The cached accessors (residual(), jacobian(), sparse_jacobian()) throw until the quantity has been computed since the last finalize_structure(), and a re-finalized graph behaves exactly like a freshly built graph with the same contents.",
 ["histories"], "every interleaving of additions, set_constant, finalize, compute and accessor calls on one graph",
 "tests build, finalize once and compute; interleavings of additions, re-finalizing and cached accessors are not sampled.",
 ["factor_graph.cpp", "factor_graph.hpp"], [("validity flags dropped on every structural change", "FactorGraph::invalidate_structure"), ("structure_finalized_ guards", "compute_* in factor_graph.cpp")],
 [("structure_finalized_, residual_valid_, jacobian_valid_, sparse_jacobian_valid_", "what is valid for the current structure", "factor_graph.hpp")],
 ["compute_full_residual_vector", "compute_full_jacobian_matrix", "compute_sparse_jacobian_matrix", "residual", "jacobian", "sparse_jacobian"])

prop("P04", "The residual vector is the stack of the factors' residuals at current values",
 "Whenever it is computed, by any overload and however often, the full residual vector has num_residuals() entries and its block at each factor's rows is that factor's residual at the variables' current values, whatever changed since the previous computation and whatever the output buffer contained.",
 ["histories", "inputs"], "every finalized graph, every sequence of value changes and computations",
 "tests compute residuals once or twice for fixed graphs.",
 ["factor_graph.cpp"], [("each factor writes its own segment", "FactorGraph::compute_full_residual_vector")], None, ["compute_full_residual_vector (both overloads)", "residual"])

prop("P05", "Dense and sparse Jacobians both equal the placed factor blocks, on every call",
 "Whenever they are computed, in any order and however often, the dense and the sparse Jacobian of a finalized graph are the same num_residuals() x num_values() matrix: the block of each factor and each of its non-constant variables is that factor's Jacobian at the current values, and every other entry is zero.",
 ["histories", "inputs"], "every finalized graph, every sequence of value changes and dense/sparse/combined computations",
 "tests compare dense and sparse once; the cached sparsity pattern matters from the second computation on, and for values that pass through zero.",
 ["factor_graph.cpp"], [("pattern built on the first computation, values copied into it later", "FactorGraph::compute_sparse_jacobian_matrix, copy_sparse_data_to_eigen_matrix"), ("dense blocks written in place", "FactorGraph::compute_full_jacobian_matrix")],
 [("sparse_jacobian_row_indices_, sparse_jacobian_data_", "row structure and values per column", "factor_graph.hpp")],
 ["compute_full_jacobian_matrix", "compute_sparse_jacobian_matrix", "compute_full_jacobian_and_residual", "jacobian", "sparse_jacobian"])

prop("P06", "State-vector get, set and increment act on exactly the non-constant variables",
 "get_variable_vector() is the concatenation of the non-constant variables' values in insertion order; setting a state vector or applying an increment gives each non-constant variable its own slice and leaves every constant variable unchanged. Vectors of the wrong size are rejected before any variable is changed, and applying an increment requires a finalized graph.",
 ["histories", "inputs"], "every graph, constant mask, state vector and increment (also of wrong sizes)",
 "tests do one round trip on a small graph.",
 ["factor_graph.cpp"], [("slices by running offset or placement", "get_variable_vector, set_variable_values_from_vector, apply_increment")], None,
 ["get_variable_vector", "set_variable_values_from_vector", "apply_increment", "Variable::value"])

prop("P07", "Every variable stays on its manifold and its views of the value agree",
 "After construction, set and every increment: a rotation matrix is a proper rotation equal to the exponential of the variable's rotation vector, a 2D heading lies in [-pi, pi], a plane normal has unit length, and an inverse range lies within its limits. Increments are: addition for positions, points, generic and planar states, Exp(delta)*R for rotations (of 3D poses and rotation variables), and addition followed by normalization / angle wrapping / clipping for plane normals, headings and inverse ranges; value() and all other accessors describe the same state, and vectors of the wrong size are rejected without effect.",
 ["inputs", "histories"], "every value and increment (all magnitudes, rotations of any angle incl. near 0 and pi), and every sequence of operations",
 "variable tests apply a few fixed increments to each type.",
 ["pose_variable.cpp", "pose_2d_variable.cpp", "rotation_variable.hpp", "plane_variable.hpp", "inverse_range_variable.cpp", "landmark_variable.hpp", "generic_variable.hpp"],
 [("retraction per variable type", "apply_increment / set_value_from_vector of each Variable")],
 [("pose_CW_, dcm_CW_", "pose vector and its cached rotation matrix", "pose_variable.hpp"), ("value_, dcm_AB_", "rotation vector and matrix", "rotation_variable.hpp")],
 ["Variable::value", "dcm_CW", "rotation", "unit_vector", "theta", "inverse_range", "pos_W"])

prop("P08", "Exp, Log and the SO(3) helpers are the maps they claim to be",
 "ExpMapSO3 gives the rotation by the vector's angle about its axis; LogMapSO3 of a rotation matrix returns a vector of length at most pi whose exponential is that matrix, for every angle including the neighbourhoods of 0 and pi; skew_symmetric(v)*x is the cross product, unskew inverts it on the antisymmetric part, and compute_inverse_right_jacobian_so3(w) is the derivative of Log(Exp(d)*Exp(w)) with respect to d at d = 0.",
 ["inputs"], "every rotation vector and rotation matrix", "tests check round trips at a few angles.",
 ["random_utils.cpp"], [("series near 0, axis-angle near pi, general formula between", "ExpMapSO3, LogMapSO3, compute_inverse_right_jacobian_so3")], None, ["ExpMapSO3", "LogMapSO3", "compute_inverse_right_jacobian_so3"])

prop("P09", "A cloned variable is an equal but independent copy",
 "clone() returns a new variable of the same type, id, size, constant flag, value and auxiliary data (rotation matrix, origin and bearing, limits); afterwards no operation on one of the two changes the other, and both respond to the same operation in the same way.",
 ["histories", "inputs"], "every variable type and state, and every sequence of operations after cloning", "tests clone each type once and compare value().",
 ["pose_variable.cpp", "pose_2d_variable.cpp", "inverse_range_variable.cpp", "rotation_variable.hpp", "plane_variable.hpp", "landmark_variable.hpp", "generic_variable.hpp"], [("copy construction", "clone() of each Variable")], None, ["Variable::clone"])

prop("P10", "3D bearing factors measure the documented direction error",
 "With p the camera position, R its rotation, l the landmark (for an inverse-range landmark: origin + bearing/inverse_range) and w = 1/sigma: BearingObservationFactor and InverseRangeBearingFactor return w*(normalize(R*(l-p)) - normalize(observed)). BearingProjectionFactor2D returns w times the components of normalize(R*(l-p)) along an orthonormal tangent basis of the observed direction, and w*(1,1) when the landmark is behind (depth not above the tolerance).",
 ["inputs"], "every pose, landmark, observed direction (also not normalized), sigma and tolerance", "factor tests evaluate a few configurations and compare Jacobians with finite differences at 1e-2 tolerance.",
 ["bearing_observation_factor.hpp", "inverse_range_bearing_factor.cpp", "bearing_projection_factor_2d.cpp"], [("compute_residual", "BearingObservationFactor, InverseRangeBearingFactor, BearingProjectionFactor2D")], None, ["compute_residual"])

prop("P11", "2D factors measure range, wrapped bearing and pose differences as documented",
 "Angle residuals (bearing, heading prior, heading difference) are 1/sigma times the difference wrapped to [-pi, pi]; the bearing is that of the landmark in the pose's frame (atan2 of R(theta)^T*(l-p)), the range residual is (|l-p| - range)/sigma. Position residuals of the 2D prior and between factor are (p-p0)/sigma and ((p_b-p_a) - measured)/sigma, with p_b-p_a expressed in pose a's frame when local_frame is set.",
 ["inputs"], "every pose, landmark, observation and sigma, including headings and observations on both sides of the +-pi seam and outside it", "tests sample a few headings, few across the seam.",
 ["bearing_observation_factor_2d.cpp", "range_bearing_factor_2d.cpp", "pose_2d_prior_factor.cpp", "pose_2d_between_factor.cpp"], [("compute_residual with atan2(sin,cos) wrapping", "the four 2D factors")], None, ["compute_residual"])

prop("P12", "Linear factors measure the documented weighted differences",
 "With w = 1/sigma: GenericPriorFactor returns w*(x - prior); GenericBetweenFactor w*(b - a - measured); LinearVelocityFactor w*((x2 - x1) - v*dt) on as many components as the velocity has, starting at the initial index; PosePositionPriorFactor w*(p - prior); PosePositionBetweenFactor w*((p_b - p_a) - measured), with p_b - p_a rotated into pose a's frame by R_a when local_frame is set.",
 ["inputs", "configurations"], "every variable size, value, measurement, sigma, dt, index and frame option", "tests evaluate few configurations, mostly 3D and index 0.",
 ["generic_prior_factor.hpp", "generic_between_factor.cpp", "linear_velocity_factor.cpp", "pose_prior_factors.cpp", "pose_between_factors.hpp"], [("compute_residual", "the five linear factors")], None, ["compute_residual"])

prop("P13", "Rotation factors and the coordinate transform measure the documented error",
 "With w = 1/sigma: RotationPriorFactor and PoseOrientationPriorFactor return w*Log(R*R_prior^T); PoseOrientationBetweenFactor returns w*Log(R2*R1^T*C) with C the calibration rotation; CoordinateTransformFactor returns w*(lm_A - (scale*R_AB*lm_B - B_origin_A)).",
 ["inputs"], "all rotations (any angle, also near 0 and pi), points, scales and sigmas", "tests evaluate a few rotations.",
 ["rotation_prior_factor.hpp", "pose_prior_factors.cpp", "pose_between_factors.hpp", "coordinate_transform_factor.hpp"], [("compute_residual", "the four factors")], None, ["compute_residual"])

prop("P14", "Plane factors measure signed (optionally range-scaled) distance to n.p + d = 0",
 "PlaneFactor returns w*(n.p + d), divided by (1 + |p - p0|/r0) when distance scaling is on; PlanePriorFactor returns w_n times the tangential part (I - n n^T)(n - n_prior) of the normal error, followed by w_d*(d - d_prior). The convention n.p + d is the same as that of PlaneVariable.",
 ["inputs", "configurations"], "every plane, point, prior, sigma and scaling option", "tests evaluate few planes; the scaled variant has one scenario.",
 ["plane_factor.cpp", "plane_prior_factor.cpp", "plane_variable.hpp"], [("compute_residual", "PlaneFactor, PlanePriorFactor")], None, ["compute_residual"])

prop("P15", "Every factor's Jacobian is the derivative of its residual along increments",
 "For every built-in factor and each of its non-constant variables, the Jacobian block equals the derivative of the residual with respect to an increment applied to that variable through apply_increment, at every state where the residual is differentiable, to numerical precision (relative 1e-5).",
 ["inputs", "configurations"], "every factor type and option, every state (small and large rotations, far and near landmarks, any weights) and constant mask", "the tests compare with finite differences at few states, often with absolute tolerances of 1e-2..1e-4 that hide small terms.",
 ["bearing_observation_factor.cpp", "inverse_range_bearing_factor.cpp", "bearing_projection_factor_2d.cpp", "bearing_observation_factor_2d.cpp", "range_bearing_factor_2d.cpp", "pose_2d_prior_factor.cpp", "pose_2d_between_factor.cpp", "generic_prior_factor.hpp", "generic_between_factor.cpp", "linear_velocity_factor.cpp", "pose_prior_factors.cpp", "pose_between_factors.cpp", "rotation_prior_factor.hpp", "coordinate_transform_factor.hpp", "plane_factor.cpp", "plane_prior_factor.cpp"], [("analytic derivatives", "compute_jacobians of each factor")], None, ["compute_jacobians"])

prop("P16", "Factor evaluation is pure and its Jacobian container always well formed",
 "Evaluating a factor changes no variable and gives the same result again; both residual overloads agree and residual_size() is the residual's length. compute_jacobians() leaves exactly one matrix per entry of variables(), in that order, residual_size() x size for a non-constant variable and empty for a constant one, whatever the container held before.",
 ["histories", "inputs", "configurations"], "every factor, constant mask, and prior content of the reused containers", "tests call with empty containers; the optimizer reuses them.",
 ["generic_prior_factor.hpp", "coordinate_transform_factor.hpp", "pose_between_factors.cpp", "plane_factor.cpp", "bearing_projection_factor_2d.cpp"], [("resize of the reused vector", "compute_jacobians of each factor")], None, ["compute_residual", "compute_jacobians", "residual_size", "variables"])

prop("P17", "Gauss-Newton takes the normal-equations step and solves linear problems exactly",
 "Each Gauss-Newton iteration moves the variables, through their increments, by learning_rate times the solution dx of (J^T J) dx = -J^T r at the current values; on a full-rank linear problem the first full step therefore reaches the weighted least-squares optimum. If J^T J is singular or numerically ill-conditioned the step is not taken and the run ends invalid with an error status.",
 ["inputs", "histories"], "every graph, start, learning rate and iteration count", "integration tests check that a few problems converge to a loose tolerance, which wrong steps can also achieve.",
 ["sparse_optimizer.cpp"], [("sparse LDLT on H = J^T J", "SparseOptimizer::single_step_gauss_newton")], None, ["optimize", "current_stats_", "Variable::value"])

prop("P18", "Levenberg-Marquardt keeps a step only if the cost falls, else rolls back",
 "In every Levenberg-Marquardt run the squared residual never increases from one iteration to the next, so the final cost is at most the initial cost. A trial step is kept if and only if it lowers the cost; every other trial is undone, so that all variables (constant ones included) have the values they had before it.",
 ["inputs", "histories"], "every graph, start and damping settings, including runs in which all trials fail", "integration tests look at final states of converging runs; rejected trials and failing runs are hardly sampled.",
 ["sparse_optimizer.cpp"], [("trial, compare, restore saved values", "SparseOptimizer::single_step_levenberg_marquardt")], None, ["optimize", "Variable::value", "current_stats_"])

prop("P19", "Levenberg-Marquardt damping follows its documented rule within its bounds",
 "Damping starts at initial_lambda; each iteration solves (J^T J + lambda*I) dx = -J^T r and scales dx by learning_rate, lambda is multiplied by lambda_down_factor (not below 1e-12) when a step is accepted and by lambda_up_factor (not above max_lambda) when a trial fails. At most five trials are made per iteration, and trials stop as soon as lambda reaches max_lambda.",
 ["inputs", "configurations", "histories"], "every graph, start and damping settings", "no test looks at the damping parameter.",
 ["sparse_optimizer.cpp", "sparse_optimizer.hpp"], [("lambda update", "SparseOptimizer::single_step_levenberg_marquardt")], [("damping_parameter", "current lambda", "OptimizerStats")], ["current_stats_.damping_parameter", "Variable::value"])

prop("P20", "optimize() stops when its rules say, with a truthful status",
 "A run performs at most max_num_iterations iterations and stops early exactly when the step is below step_tolerance, the residual norm's improvement is below residual_tolerance or negative, or the solver fails. SUCCESS is reported for convergence, for reaching the iteration limit and for ending below the initial cost; DIVERGED when the residual norm went up to at least its initial value, SINGULAR_HESSIAN, ILL_CONDITIONED or FAILED for solver failures (then valid is false); RUNNING is never the final status.",
 ["inputs", "configurations", "histories"], "every graph, start, method, tolerance and iteration limit (also 0 and 1)", "tests check SUCCESS on converging problems.",
 ["sparse_optimizer.cpp"], [("loop of optimize()", "SparseOptimizer::optimize")], [("current_stats_.status, valid", "outcome of the run", "OptimizerStats")], ["optimize", "current_stats_", "initial_stats_"])

prop("P21", "The reported statistics describe the state the optimizer leaves in the graph",
 "After optimize(), initial_stats_ holds chi2 and residual norm of the starting values, current_stats_ holds chi2 = |r|^2 and residual_norm = |r| of the values the variables now have (unless the solver failed, when they are those of the unchanged last good state), delta_norm is the length of the last step (0 if none was accepted), and current_iteration counts the iterations carried out. Repeating a run from the same start gives the same result, whatever the optimizer was used for before.",
 ["inputs", "histories"], "every run, also repeated on the same optimizer with other graphs or settings in between", "tests print statistics but compare few of them with the graph.",
 ["sparse_optimizer.cpp"], [("statistics updated per step", "single_step_*, optimize")], [("current_stats_, initial_stats_", "statistics", "sparse_optimizer.hpp")], ["current_stats_", "initial_stats_"])

prop("P22", "A run that meets NaN or infinity is never reported as a success",
 "If the residual, the Jacobian or the step becomes non-finite during optimize(), or if a factor throws, the run ends with valid = false and a status other than SUCCESS, or, for Levenberg-Marquardt, rolls back to a finite state; a run reported valid always leaves finite values, residuals and statistics.",
 ["inputs", "fault_sequences"], "every position (factor, variable, iteration, evaluation) at which a non-finite number or an exception appears", "no test injects non-finite values or throwing factors.",
 ["sparse_optimizer.cpp"], [("finite checks and catch in the loop", "SparseOptimizer::optimize")], None, ["current_stats_", "Variable::value"])

prop("P23", "Results depend on the problem, not on ids, insertion order or constants' columns",
 "Optimization and covariance estimation never change a constant variable, and a problem with a constant variable gives the same result as one with that value fixed. Renumbering ids or adding variables and factors in another order permutes the state vector, the residual and the results but changes no residual block, step, status or covariance (beyond rounding).",
 ["configurations", "inputs"], "every graph, permutation of its additions, renumbering of ids and constant mask", "tests use one insertion order and increasing ids.",
 ["factor_graph.cpp", "sparse_optimizer.cpp"], [("placements looked up by id, blocks placed by insertion order", "FactorGraph::finalize_structure, SparseOptimizer::single_step_*")], None, ["optimize", "estimate_covariance"])

prop("P24", "A covariance reported valid is that variable's block of (J^T J)^-1",
 "After optimize() and prepare_to_estimate_covariances(), a covariance reported valid equals the variable's diagonal block of the inverse of J^T J at the values the graph had when it was prepared; it is size x size, symmetric and has no negative variance. On a linear problem it is the exact covariance of the estimate.",
 ["inputs", "configurations"], "every well-conditioned graph, method, settings and constant mask", "tests check a few diagonal values on simple problems.",
 ["sparse_optimizer.cpp"], [("solve with unit vectors on the cached factorization", "SparseOptimizer::estimate_covariance")], None, ["prepare_to_estimate_covariances", "estimate_covariance"])

prop("P25", "A covariance is valid only if prepared for the current run and structure",
 "estimate_covariance() reports valid only if optimize() has completed and covariances were prepared since the last setup(), optimize() or structural change of the graph; for a null, constant or unknown variable, or an unbounded or non-finite variance, it reports invalid with an empty matrix. Preparing or estimating changes no variable value.",
 ["histories", "inputs"], "every order of setup, optimize, prepare, estimate and structural changes, any variable argument", "tests call optimize, prepare, estimate in that order.",
 ["sparse_optimizer.cpp"], [("cached Hessian flag and revision", "SparseOptimizer")], [("optimization_complete_, cached_hessian_valid_for_covariance_est_", "covariance life cycle", "sparse_optimizer.hpp")], ["prepare_to_estimate_covariances", "estimate_covariance", "print_all_covariances"])

prop("P26", "Numerical Jacobians approximate the derivative and restore the variables",
 "ComputeNumericalJacobians returns, for any factor, the central-difference derivative of its residual along increments (empty for constant variables) and leaves every variable as it was. detailed_factor_test() returns true for graphs whose factors all have correct Jacobians and false when some entry of a Jacobian is wrong by more than its tolerance, and does not change the graph's values; it throws if the graph is not finalized.",
 ["inputs", "configurations"], "every factor, state, epsilon, and every single wrong Jacobian entry", "tests use it as a helper and check it on one wrong factor at most.",
 ["numerical_jacobian.hpp", "factor_graph.cpp"], [("perturb by +-epsilon and restore", "ComputeNumericalJacobians"), ("comparison loop", "FactorGraph::detailed_factor_test")], None, ["ComputeNumericalJacobians", "detailed_factor_test"])

prop("P27", "HuberKernel applies the documented loss and its exact derivative",
 "With n = |r|: a residual with n <= delta is returned unchanged; otherwise the returned vector is parallel to r and its squared norm is 2*delta*n - delta^2 (twice the Huber loss), so the loss is continuous and grows linearly. The transformed Jacobians are the derivatives of the transformed residual, and empty Jacobians stay empty.",
 ["inputs"], "every residual, Jacobian set and delta", "no test covers the kernel.",
 ["kernels.hpp"], [("scaling by sqrt(2*rho)/n and its derivative", "HuberKernel::apply_to_residual, apply_to_jacobians")], None, ["apply_to_residual", "apply_to_jacobians"])

prop("P28", "Stopwatch accumulates exactly the time it was running",
 "For every sequence of start, stop, reset and elapsed: elapsed() is the total time between effective starts and stops since the last reset, including the current running interval; start while running and stop while stopped have no effect, and reset stops and clears.",
 ["histories"], "every sequence of operations and any pauses between them", "tests try a few sequences with sleeps.",
 ["stopwatch.hpp"], [("running flag and accumulated time", "Stopwatch")], [("is_running_, accumulated_time_", "state", "stopwatch.hpp")], ["elapsed"])

prop("P29", "The Python API gives the same results as the C++ library",
 "Building any problem through the Python module (every variable and factor class with its documented positional and keyword arguments and defaults, the graph, the optimizer and its settings) gives the same residuals, Jacobians, placements, optimization results, statuses and covariances as the C++ API, errors arrive as Python exceptions, and values set from Python are seen by the graph.",
 ["inputs", "configurations"], "every class, argument combination and value", "python tests touch each class with one configuration and compare few numbers.",
 ["python_bindings/python/factorama/_factorama.cpp", "python_bindings/python/factorama/__init__.py"], [("bindings", "PYBIND11_MODULE")], None, ["factorama Python module"])

prop("P30", "Python objects stay valid for as long as they are referenced, in any order",
 "Whatever order Python objects (variables, factors, graph, optimizer, returned arrays and lists) are dropped and garbage collected in, the ones still referenced keep working and keep their values, and an array obtained earlier never changes into garbage.",
 ["histories", "schedules"], "every order of deletions and collections among the objects of a problem", "the tests keep all their objects alive.",
 ["python_bindings/python/factorama/_factorama.cpp"], [("shared_ptr holders, keep_alive, return value policies", "PYBIND11_MODULE")], None, ["factorama Python module"])

prop("P31", "PlotFactorGraph draws the graph it is given, and leaves it alone",
 "PlotFactorGraph works for every graph with finite values that the API can build, in 2D and in 3D mode and with each option on or off, and returns the axes it drew on (the given ones if any, with what was on them; otherwise new ones of the right dimension). Its markers are exactly the 3D poses, 3D landmarks, 2D poses and 2D landmarks (generic variables of size 2) of the graph, at their current positions; arrows show the three axes of each 3D pose (3D mode) or the heading of each 2D pose (2D mode). With plot_measurements each bearing factor has a line that starts at its pose and follows the measured bearing over the distance of its landmark, each range-bearing factor one of the measured range; with plot_between_factors each between factor of two poses has a line joining them; with plot_covariance each drawn variable whose covariance is valid has the 1-sigma ellipse or ellipsoid of its position covariance at its position (3D mode: 3D poses and landmarks). Every variable drawn lies within the limits of the axes, which are labelled and have equal scales, and the legend names what is drawn. Nothing else is drawn as a marker, line, arrow or region, and neither the variables nor the lists of the graph change.",
 ["configurations", "inputs"], "every mix of variable and factor types, with each option on and off", "the python tests plot few graphs and hardly look at what was drawn.",
 ["python_bindings/python/factorama/__init__.py"], [("drawing", "PlotFactorGraph"), ("measurement lines", "_plot_bearing_lines"), ("between lines", "_plot_between_factors"), ("covariances", "_plot_covariance_ellipse_2d"), ("covariances", "_plot_covariance_ellipsoid_3d"), ("axes", "_plot_3d_pose_arrows")], None, ["PlotFactorGraph", "_plot_bearing_lines", "_plot_between_factors"])
prop("P32", "What the library prints about variables, graphs and runs is true",
 "For every variable, graph and run: name() of a variable is its type's name followed by its id, and print() names the variable and states its current value; print_variables() prints every variable once, in order; print_structure() states the numbers of variables, factors, residuals and state values; print_jacobian_and_residual() works for every finalized graph (one without free variables or residuals included) and states the size of the full Jacobian at the current values, exactly its zero columns (norm below 1e-12), its rank and the norm of the residual, and if detailed both in full; print_all_covariances() states for every variable that it is constant, that its covariance is invalid, or the covariance estimate_covariance() returns. A verbose optimize() states its settings and the initial and final residual norm, chi2, step norm, number of iterations, improvement, status and outcome that its statistics have; the summary of each iteration states the residual norms before and after it, the size of the Jacobian and (Levenberg-Marquardt) the damping, the number of trials made and whether a step was accepted; a run that is not verbose prints no such report. All up to the digits printed.",
 ["inputs", "configurations", "histories"], "every variable kind at special values; graphs with zero columns, without free variables or residuals; runs that converge, fail, reject trials or get stuck", "the tests print a few graphs and look at none of the output.",
 ["src/factorama/factor_graph.cpp", "src/factorama/sparse_optimizer.cpp", "src/factorama/base_types.hpp"], [("graph reports", "FactorGraph::print_"), ("run reports", "settings_.verbose"), ("covariance report", "print_all_covariances"), ("variable report", "::print() const")], None, ["FactorGraph::print_structure", "FactorGraph::print_jacobian_and_residual", "SparseOptimizer::optimize", "SparseOptimizer::print_all_covariances"])
prop("P33", "A factor says about itself what it was made from, for ever",
 "For every factor, with every argument given or left to its default: id(), variables() (the given ones, in order), type(), name() (its kind and the names of its variables, or its kind and id), residual_size(), the weights (the inverse of the sigma given, 1 where none is) and the observation accessors (bearings normalized) are what its construction determined, and stay so whatever is done to its variables and however often it is evaluated.",
 ["inputs", "histories"], "every factor kind and parameter, at construction and after any calls on it and its variables", "the tests read few of these, and only right after construction.",
 ["src/factorama/base_types.hpp", "src/factorama/"], [("names and types", "name() const"), ("weights", "weight() const"), ("type names", "FactorType::get_factor_names")], None, ["Factor::name", "Factor::type", "Factor::variables"])
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
with open("properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), max(len(p["title"]) for p in P))
