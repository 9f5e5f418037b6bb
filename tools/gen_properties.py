#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the single source of the property texts)."""
import json, os, sys

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}}
    if observe:
        d["anchors"]["observe_at"] = [observe]
    if state:
        d["anchors"]["state"] = [{"name": state, "meaning": state, "where": files[0]}]
    P.append(d)


# ------------------------------------------------------------------ QP problem layer
prop("P01", "A solved QP satisfies every hard constraint, or the solve raises",
     "For any linear problem made of variables and hard equality, inequality, limit and polygon constraints, either the solve raises an error or the returned values satisfy every hard constraint within numerical tolerance. A well-conditioned feasible problem is always solved, and a clearly contradictory or ill-sized one always raises instead of returning a value.",
     ["inputs", "configurations"],
     "All sets of variables, hard/soft constraints (any row and column layout, any weights) and all settings of sparsity use, equality elimination and regularization.",
     "Unit tests check a few hand-made problems with known solutions; feasibility of the result must hold for every constraint layout, rank deficiency and option combination.",
     ["src/placo/problem/problem.cpp", "src/placo/problem/constraint.cpp", "src/placo/problem/qp_error.cpp"],
     [("equality rewriting by rank-revealing QR", "src/placo/problem/problem.cpp solve()"),
      ("hard/soft inequality slack layout", "src/placo/problem/problem.cpp solve()"),
      ("limits as pairs of inequalities", "src/placo/problem/problem.cpp add_limit()")],
     "values of the problem variables after solve(), or the raised error")

prop("P02", "A solved QP is the optimum of the weighted soft objectives, under any option",
     "The returned point minimises the sum of weight times squared residual of soft equalities, plus weight times squared violation of soft inequalities, plus the small regularization, over the points satisfying the (independent) hard constraints. The optimum does not depend on whether sparsity is exploited, whether equalities are eliminated, or on the order in which constraints and variables are added, and the reported activity and slacks of the inequalities agree with the returned point.",
     ["inputs", "configurations"],
     "All mixes of hard and soft equalities/inequalities/limits/polygons with any weights and column patterns, under all option combinations and orderings.",
     "Optimality is a statement about all other feasible points; the tests compare a few hand-solved cases, none of which mixes column patterns, slacks and eliminated equalities.",
     ["src/placo/problem/problem.cpp", "src/placo/problem/sparsity.cpp", "src/placo/problem/constraint.cpp"],
     [("Hessian/gradient assembly with column sparsity", "src/placo/problem/problem.cpp solve()"),
      ("slack variables for soft inequalities", "src/placo/problem/problem.cpp solve()"),
      ("interval union", "src/placo/problem/sparsity.cpp")],
     "variable values, constraint activity flags and slacks after solve()")

prop("P03", "Expression arithmetic is exact affine-function arithmetic",
     "Any expression built from variables, constants and vectors with sums, differences, negation, scaling, matrix multiplication, products with constant expressions, slicing, stacking, piecewise addition, sum and mean evaluates, at any assignment of the variables, to what the same operations give on the evaluated operands. Comparing two expressions yields a constraint satisfied exactly by the assignments for which the comparison holds. Operations on incompatible sizes raise.",
     ["inputs", "programs"],
     "All expression trees over the supported operators and operand kinds (either side), all shapes and all variable assignments.",
     "Operator coverage is combinatorial (operator x operand kind x side x shape); tests exercise a few of these with scalar operands.",
     ["src/placo/problem/expression.cpp", "src/placo/problem/variable.cpp", "src/placo/problem/constraint.cpp", "bindings/expose-problem.cpp"],
     [("overloaded operators", "src/placo/problem/expression.cpp"), ("variable slices as expressions", "src/placo/problem/variable.cpp expr()")],
     "expression value at an assignment; whether the resulting constraint is met")

prop("P04", "A polygon constraint is met exactly by points inside the shrunk polygon",
     "For any clockwise convex polygon and any margin, imposing the polygon constraint on a point expression (given as one 2D expression or as separate x and y expressions) admits exactly the points lying inside the polygon at a distance of at least the margin from each supporting edge line. Solving with such a constraint returns the closest admissible point to the desired one, or raises when the shrunk polygon is empty.",
     ["inputs"],
     "All convex polygons with 3 or more vertices, all margins, all affine point expressions, hard or soft.",
     "The geometric meaning must hold for all polygon shapes, vertex counts, positions relative to the origin, and margins, not for one square.",
     ["src/placo/problem/polygon_constraint.cpp"],
     [("edge half-planes with margin", "src/placo/problem/polygon_constraint.cpp in_polygon()/in_polygon_xy()")],
     "constraint rows evaluated at points; solution of a projection problem")

prop("P05", "Integrated decision variables follow the exact dynamics at all times",
     "For an integrated variable of any order, or with any user-given system matrix, the state expression at any step or at any time of the covered range and for any derivative order, the value after solving, and the extracted trajectory all agree with each other and with the exact solution of the linear dynamics driven by the piecewise-constant solved inputs from the given initial state. Trajectory and value are continuous across steps for all derivatives below the driven one, and queries for invalid steps or derivative orders raise instead of returning garbage.",
     ["inputs", "histories"],
     "All orders, system matrices, step counts, time steps, start times, initial states (including states inherited from another integrator), inputs and query times.",
     "Discretisation must be exact for all matrices, times and derivative orders; tests look at single-step or integer-time samples.",
     ["src/placo/problem/integrator.cpp", "src/placo/problem/variable.cpp"],
     [("matrix exponential transition", "src/placo/problem/integrator.cpp"), ("expr / expr_t / value / get_trajectory", "src/placo/problem/integrator.cpp")],
     "expr/expr_t/value/trajectory results")

prop("P06", "Re-using a problem gives the same result as building it afresh",
     "After any history of adding variables and constraints, reconfiguring priorities and weights, solving, failing to solve, and clearing constraints or variables, solving the problem gives the same outcome (values or error) as a freshly built problem with the same live content. A variable's value always reflects the last successful solve, and expressions and integrators report values from it.",
     ["histories"],
     "All interleavings of additions, reconfigurations, option toggles, solves (successful or failing) and clears.",
     "Stale state (old slacks, old sizes, old versions, cached trajectories) only shows for particular histories.",
     ["src/placo/problem/problem.cpp", "src/placo/problem/variable.cpp", "src/placo/problem/integrator.cpp"],
     [("variable versioning", "src/placo/problem/variable.h"), ("clear_constraints / clear_variables", "src/placo/problem/problem.cpp")],
     "values after the last solve compared with a fresh problem")

# ------------------------------------------------------------------ tools
prop("P07", "Splines and polynomials interpolate, clamp and differentiate consistently",
     "A cubic spline (scalar, angular or 3D) passes through every added point with the requested velocity, is continuously differentiable and cubic in between, holds its end values outside its time range, and its velocity and acceleration are the derivatives of its position; in angular mode each piece turns along the shorter way. Polynomials, including those whose coefficients are solved for, evaluate to the mathematical value of the polynomial and of all its derivatives.",
     ["inputs", "histories"],
     "All point sequences (including non-increasing times, which must raise), angular jumps, query times, additions and clears interleaved with queries, and all polynomial degrees, coefficients and derivative orders.",
     "Continuity and interpolation must hold at all query times and after any sequence of add/query/clear.",
     ["src/placo/tools/cubic_spline.cpp", "src/placo/tools/cubic_spline_3d.cpp", "src/placo/tools/polynom.cpp", "src/placo/problem/problem_polynom.cpp"],
     [("Hermite fit per interval, lazily rebuilt", "src/placo/tools/cubic_spline.cpp"), ("derivative coefficients", "src/placo/tools/polynom.cpp")],
     "pos/vel/acc/duration/value results", "points list and dirty flag of the spline")

prop("P08", "Frame, angle and axis helpers satisfy their geometric definitions",
     "Angle wrapping returns the equivalent angle in [-pi, pi]; frame interpolation goes from the first to the second frame along a constant-velocity rotation and straight line; yaw extraction and floor flattening keep heading and ground position while removing height, roll and pitch; the rotation built from an axis is a rotation mapping that axis onto the direction; and the optimal rigid transformation between matched point sets is a proper rigid transform minimising the squared distances. Axis masks keep exactly the selected axes in the selected frame, and generated directions are unit vectors.",
     ["inputs"],
     "All angles, frames, axes, point sets (including planar or mirrored ones), interpolation factors and mask strings.",
     "These are identities over continuous groups with degenerate corners (antipodal axes, reflections, half turns).",
     ["src/placo/tools/utils.cpp", "src/placo/tools/axises_mask.cpp", "src/placo/tools/directions.cpp"],
     [("slerp interpolation", "src/placo/tools/utils.cpp"), ("SVD rigid fit", "src/placo/tools/utils.cpp optimal_transformation()"), ("axis selection", "src/placo/tools/axises_mask.cpp")],
     "return values")

prop("P09", "2D segment predicates agree with exact plane geometry",
     "For non-degenerate segments away from tolerance boundaries, parallelism, alignment, point membership, segment-segment intersection, line or half-line passing through a segment, and the lines' intersection point agree with exact geometry. Results are unaffected by translating and rotating the scene, and intersection tests are symmetric in their operands.",
     ["inputs"],
     "All pairs of non-degenerate segments and points, in all relative positions and at any coordinates.",
     "The predicates have many relative-position cases; tests sample about one per case.",
     ["src/placo/tools/segment.cpp"],
     [("cross-product parametrisation", "src/placo/tools/segment.cpp")],
     "predicate results and intersection points")

# ------------------------------------------------------------------ model
prop("P10", "Joint accessors read back what was set and touch nothing else",
     "Setting a (revolute or prismatic) joint's position, velocity, acceleration, limits, velocity limit, torque limit, rotor inertia or gear ratio by name is read back by name, and changes no other joint or base entry. Offsets and sizes designate the same entries of the state vectors, reset and neutral state give the neutral configuration, and any access through an unknown joint or frame name raises.",
     ["inputs", "histories", "configurations"],
     "All robots (any joint order, kinds and branching), all joints, values and sequences of accessor calls.",
     "Index arithmetic must be right for every joint of every model and after any sequence of calls; tests check a couple of joints of one robot.",
     ["src/placo/model/robot_wrapper.cpp", "bindings/expose-robot-wrapper.cpp"],
     [("name to offset lookup", "src/placo/model/robot_wrapper.cpp")],
     "state vectors and getters")

prop("P11", "Frames follow forward kinematics, and placing a frame puts it exactly there",
     "After a kinematics update, every frame's world pose equals the forward kinematics of the model at the current state, and relative transforms equal the composition of world poses. Placing a frame (or the floating base) at a given world pose from an up-to-date robot makes that frame report exactly this pose after the next kinematics update, without changing any joint or the relative pose of any two frames.",
     ["inputs", "histories", "configurations"],
     "All robots, configurations, frames and target poses, in any sequence of placements, joint changes and updates.",
     "A group-valued identity over all configurations and frames; tests use a few poses of one robot.",
     ["src/placo/model/robot_wrapper.cpp"],
     [("set_T_world_frame / set_T_world_fbase", "src/placo/model/robot_wrapper.cpp"), ("update_kinematics", "src/placo/model/robot_wrapper.cpp")],
     "frame poses and state.q")

prop("P12", "Jacobians, their time variations and Hessians are the true derivatives",
     "For every frame and reference (local, world, local-world-aligned), the frame and joint Jacobians map any joint velocity to the actual velocity of that frame, the relative-position and CoM Jacobians to the derivative of those positions, and the centroidal map to the actual momentum about the CoM. The time variations of frame, joint and CoM Jacobians are their derivatives along the current velocity, and the frame Hessian is the derivative of the local frame Jacobian with respect to a joint.",
     ["inputs", "configurations"],
     "All robots, configurations, velocities, frames and reference choices.",
     "Derivative identities hold over the whole configuration manifold; a wrong block or reference is invisible at special poses.",
     ["src/placo/model/robot_wrapper.cpp"],
     [("pinocchio frame Jacobian wrappers", "src/placo/model/robot_wrapper.cpp"), ("relative_position_jacobian", "src/placo/model/robot_wrapper.cpp")],
     "returned matrices vs finite differences of poses")

prop("P13", "Mass, gravity, bias and static torques satisfy rigid-body mechanics",
     "The mass matrix is symmetric positive definite and gives the kinetic energy of the links (plus rotor inertia times gear ratio squared), gravity and bias terms equal those of rigid-body inverse dynamics for the configured gravity, and total mass and CoM are those of the links. Torques holding the robot static, or producing given joint accelerations, with one frame fixed to the ground satisfy the full equation of motion with a single contact wrench at that frame and no base torque.",
     ["inputs", "configurations"],
     "All robots, configurations, velocities, accelerations, support frames, gravity vectors, rotor inertias and gear ratios.",
     "Mechanics identities over all states; tests check masses and one static pose.",
     ["src/placo/model/robot_wrapper.cpp"],
     [("mass_matrix / non_linear_effects / generalized_gravity", "src/placo/model/robot_wrapper.cpp"),
      ("static_gravity_compensation_torques, torques_from_acceleration_with_fixed_frame", "src/placo/model/robot_wrapper.cpp")],
     "returned matrices and torques")

prop("P14", "Integrating the state follows the constant-acceleration motion",
     "Integrating by a time step updates velocity by acceleration times the step and moves the configuration along the manifold by the displacement of the updated velocity over the step, leaving acceleration unchanged, the base orientation normalised, and converging to the true motion as the step shrinks. Added configuration noise keeps every joint inside its limits when it started inside them and leaves the floating base untouched.",
     ["inputs", "histories"],
     "All robots, states, accelerations, step sizes and step sequences.",
     "Manifold integration errors appear only for particular rotations and step histories.",
     ["src/placo/model/robot_wrapper.cpp"],
     [("integrate", "src/placo/model/robot_wrapper.cpp"), ("add_q_noise", "src/placo/model/robot_wrapper.cpp")],
     "state before and after")

prop("P15", "Self-collisions and distances report the true geometry of enabled pairs",
     "For each enabled collision pair the reported distance is the true distance between the two shapes when they are apart (not positive when they penetrate) with witness points on them in world coordinates, and a collision is reported exactly when they penetrate; names, bodies and parents identify the pair. Enabled pairs are exactly those selected (all pairs of shapes carried by different joints by default, those listed in a pairs file, or none when ignored).",
     ["inputs", "configurations"],
     "All robots with primitive shapes, configurations, pair files (names or indices) and flags.",
     "Geometric truth over all configurations and pair selections; tests look at one robot posture.",
     ["src/placo/model/robot_wrapper.cpp"],
     [("self_collisions / distances", "src/placo/model/robot_wrapper.cpp"), ("load_collision_pairs", "src/placo/model/robot_wrapper.cpp")],
     "lists returned by self_collisions() and distances()")

# ------------------------------------------------------------------ kinematics
prop("P20", "Every kinematics task's error and matrix are a true error and its derivative",
     "For each kind of task, the reported error vanishes exactly when the goal is met (on the unmasked axes), and its matrix predicts to first order how the error changes under any small configuration change (orientation errors being rotation vectors, their rate the angular velocity, exact at the goal; manipulability away from singularities). Masks select exactly the requested axes in the world, local or custom frame.",
     ["inputs", "configurations"],
     "All robots, configurations, targets, frames and masks, for position, orientation, relative, CoM, joints, gear, wheel, distance, axis alignment, momentum and manipulability tasks.",
     "First-order exactness over all configurations is what makes the solver converge; wrong blocks still converge in tests from nearby.",
     ["src/placo/kinematics/position_task.cpp", "src/placo/kinematics/orientation_task.cpp", "src/placo/kinematics/relative_position_task.cpp", "src/placo/kinematics/relative_orientation_task.cpp", "src/placo/kinematics/com_task.cpp", "src/placo/kinematics/joints_task.cpp", "src/placo/kinematics/gear_task.cpp", "src/placo/kinematics/wheel_task.cpp", "src/placo/kinematics/distance_task.cpp", "src/placo/kinematics/axis_align_task.cpp", "src/placo/kinematics/centroidal_momentum_task.cpp", "src/placo/kinematics/manipulability_task.cpp"],
     [("task update() building A and b", "src/placo/kinematics/*_task.cpp"), ("axis mask", "src/placo/tools/axises_mask.cpp")],
     "task.A, task.b, task.error() vs finite differences of the robot's frames")

prop("P21", "A kinematics step honours hard and scaled tasks, limits and masks",
     "Any successful solve returns a displacement that meets every hard task to first order (within solver tolerance), every scaled task up to one common scale between 0 and 1 (reported by the solver), leaves masked joints (and a masked base) still, and keeps joints within their position limits and their velocity limits over the time step whenever these are enabled. Applying the solve moves the robot state by exactly the returned displacement, otherwise the state is untouched.",
     ["inputs", "configurations"],
     "All robots, configurations, task sets with mixed priorities, masks, limits and time steps.",
     "Limits and hard tasks interact through the QP; each combination of masks, offsets and priorities is a different code path.",
     ["src/placo/kinematics/kinematics_solver.cpp"],
     [("compute_limits_inequalities", "src/placo/kinematics/kinematics_solver.cpp"), ("task priorities to constraints", "src/placo/kinematics/kinematics_solver.cpp solve()"), ("masked DoFs", "src/placo/kinematics/kinematics_solver.cpp")],
     "returned displacement, robot.state.q and solver.scale")

prop("P22", "A kinematics step is the optimal compromise of soft tasks and regularization",
     "Among all displacements allowed by the hard tasks, masks and limits, the returned one minimises the weighted sum of squared linearised soft task errors plus the regularization costs (default, per-joint, kinetic energy). Doubling all soft weights together with the regularizations leaves the result unchanged, and raising one task's weight never increases that task's residual.",
     ["inputs", "configurations"],
     "All robots, configurations, task mixes, weights, regularizations and limits.",
     "Optimality is against all other displacements; tests only check convergence to targets.",
     ["src/placo/kinematics/kinematics_solver.cpp", "src/placo/kinematics/regularization_task.cpp", "src/placo/kinematics/kinetic_energy_regularization_task.cpp"],
     [("soft task weighting", "src/placo/kinematics/kinematics_solver.cpp"), ("regularization matrices", "src/placo/kinematics/regularization_task.cpp")],
     "returned displacement vs KKT certificate of the documented QP")

prop("P23", "Repeated solving converges to reachable targets within the limits",
     "When targets are taken from a configuration near enough to the current one and inside the joint limits, repeatedly solving and applying makes all task errors vanish, whatever the mix of compatible tasks, with limits never exceeded on the way. At convergence the robot's actual frames, CoM, joints and distances are at their targets.",
     ["inputs", "histories"],
     "All robots, start configurations, nearby reachable targets and compatible task mixes (hard or soft).",
     "Convergence depends on every block of every Jacobian along the whole path.",
     ["src/placo/kinematics/kinematics_solver.cpp", "src/placo/kinematics/frame_task.cpp", "src/placo/kinematics/relative_frame_task.cpp"],
     [("solve/apply loop", "src/placo/kinematics/kinematics_solver.cpp")],
     "final poses vs targets")

prop("P24", "Kinematics constraints keep the robot in the allowed region",
     "With a hard CoM polygon, cone, yaw, maximal distance, joint half-space or self-collision constraint, each solve returns a displacement satisfying the documented linearised limit exactly, so repeated small steps from an allowed configuration toward any target keep (up to second-order terms) the CoM in the shrunk polygon, the angle under its maximum, the distance under its maximum, the joints in the half-spaces and the bodies apart by the margin (a cone being approximated by its slices). Soft versions never make a feasible problem fail.",
     ["inputs", "histories", "configurations"],
     "All robots, configurations, constraint parameters and disturbing targets, hard or soft.",
     "Inequalities bind only for particular directions; a wrong sign, offset or index is invisible where the limit is not active.",
     ["src/placo/kinematics/com_polygon_constraint.cpp", "src/placo/kinematics/cone_constraint.cpp", "src/placo/kinematics/yaw_constraint.cpp", "src/placo/kinematics/distance_constraint.cpp", "src/placo/kinematics/joint_space_half_spaces_constraint.cpp", "src/placo/kinematics/avoid_self_collisions_constraint.cpp"],
     [("constraint linearisations", "src/placo/kinematics/*_constraint.cpp")],
     "configuration after each step")

prop("P25", "A kinematics solver's outcome depends only on its live tasks, not its history",
     "After any history of adding, configuring, retargeting, removing and clearing tasks and constraints, masking and unmasking, toggling limits and solving (also failing solves), the solver behaves exactly like a fresh solver holding the same live items. Unknown joint or frame names raise, and task counts are right.",
     ["histories"],
     "All interleavings of solver operations, including failures.",
     "Leftover state (stale matrices, dangling entries, sticky masks or scale) only shows up for particular operation orders.",
     ["src/placo/kinematics/kinematics_solver.cpp", "src/placo/kinematics/frame_task.cpp"],
     [("task ownership and removal", "src/placo/kinematics/kinematics_solver.cpp"), ("mask set", "src/placo/kinematics/kinematics_solver.cpp")],
     "returned displacement vs fresh solver")

# ------------------------------------------------------------------ dynamics
prop("P30", "Inverse dynamics results satisfy the full equation of motion",
     "Every successful dynamics solve returns accelerations, torques and contact wrenches such that mass matrix times acceleration plus bias equals joint torques plus the effect of all active contacts and external wrenches (minus damping, with gravity-only or extra forces as configured), with zero torque on a free floating base. With a masked base its acceleration is zero, and the reported total contact torque is the sum of the contacts' effects.",
     ["inputs", "configurations"],
     "All robots, states, task sets, contact sets and kinds, external wrenches and options.",
     "The identity must hold for every state and contact combination; no test covers the dynamics solver at all.",
     ["src/placo/dynamics/dynamics_solver.cpp", "src/placo/dynamics/contacts.cpp"],
     [("torque expression from equation of motion", "src/placo/dynamics/dynamics_solver.cpp solve()"), ("contact Jacobians", "src/placo/dynamics/contacts.cpp")],
     "result.tau, result.qdd, result.tau_contacts, contact wrenches")

prop("P31", "Hard dynamics tasks produce exactly the documented PD acceleration",
     "For each hard task (position, orientation, frame, relative ones, CoM, joints, gear, torque), the acceleration of the controlled quantity that results from the solve, measured on the motion itself, equals proportional gain times error plus derivative gain times velocity error plus the feed-forward (default derivative gain being critical damping); torque tasks impose the target torque with spring-damper behaviour. Masks restrict this to the selected axes.",
     ["inputs", "configurations"],
     "All robots, states with nonzero velocities, targets with velocity and acceleration, gains and masks.",
     "Bias terms (Jacobian time variation, Coriolis-like terms) only matter for moving states and particular frames; there are no tests.",
     ["src/placo/dynamics/position_task.cpp", "src/placo/dynamics/orientation_task.cpp", "src/placo/dynamics/relative_position_task.cpp", "src/placo/dynamics/relative_orientation_task.cpp", "src/placo/dynamics/com_task.cpp", "src/placo/dynamics/joints_task.cpp", "src/placo/dynamics/gear_task.cpp", "src/placo/dynamics/torque_task.cpp", "src/placo/dynamics/task.cpp"],
     [("task update() with bias terms", "src/placo/dynamics/*_task.cpp"), ("default kd", "src/placo/dynamics/task.cpp get_kd()")],
     "second time derivative of the task quantity along the resulting motion")

prop("P32", "Contact wrenches are physically admissible",
     "In every successful dynamics solve, unilateral contacts only push, tangential forces stay within the friction limit of the contact along each surface axis, the centre of pressure of planar and line contacts stays inside the contact area, an external wrench contact transmits exactly the given wrench expressed in the right frame, and inactive or removed contacts have no effect. Force, tangential and moment weights penalise exactly those components.",
     ["inputs", "configurations", "histories"],
     "All robots, states, contact kinds, sizes, surface orientations, friction coefficients, weights and task demands.",
     "Constraints bind only under demanding tasks; axes and index mix-ups are invisible when they do not bind.",
     ["src/placo/dynamics/contacts.cpp"],
     [("friction pyramid, unilaterality, ZMP inequalities", "src/placo/dynamics/contacts.cpp add_constraints()"), ("wrench frames", "src/placo/dynamics/contacts.cpp")],
     "contact.wrench after solve")

prop("P33", "Dynamics solves respect torque, velocity and joint limits",
     "With the corresponding limit enabled, joint torques stay within the model's (or overridden) torque limits, next-step velocities within velocity limits, torques within the velocity-dependent motor line, and accelerations satisfy the documented safe-braking bound toward joint limits (and push back when already beyond). Limits of one joint never bind another, and disabled limits have no effect.",
     ["inputs", "configurations"],
     "All robots, states, limits, safe accelerations, time steps and task demands.",
     "Each limit binds only in part of the state space and per joint index.",
     ["src/placo/dynamics/dynamics_solver.cpp"],
     [("compute_limits_inequalities", "src/placo/dynamics/dynamics_solver.cpp")],
     "result.tau and result.qdd")

prop("P34", "A dynamics solver is optimal and independent of its history",
     "The solve returns the minimum of the weighted soft tasks, contact weights and torque cost over what the hard tasks, contacts and limits allow. After any history of adding, configuring, removing and clearing tasks, contacts and constraints, and of solving, it behaves exactly like a fresh solver with the same live items; integrating on solve advances the robot state by the returned acceleration.",
     ["histories", "inputs"],
     "All interleavings of solver operations and solves, all weights.",
     "Dangling or stale items appear for particular operation orders only; no test covers them.",
     ["src/placo/dynamics/dynamics_solver.cpp"],
     [("solve() cost assembly", "src/placo/dynamics/dynamics_solver.cpp"), ("add/remove/clear ownership", "src/placo/dynamics/dynamics_solver.cpp")],
     "results vs fresh solver and vs reference optimum")

prop("P35", "Dynamics self-collision avoidance brakes and pushes bodies apart",
     "With self-collision avoidance, for every enabled pair of bodies closer than the trigger distance, the next-step velocity at which their closest points approach stays below what the safe accelerations of the joints can still brake before the margin, and bodies within the margin are accelerated apart at least that much. Pairs beyond the trigger have no effect, hard and soft priorities are honoured, the motion is the best one under exactly these bounds, and integrating such solves from rest never makes bodies collide. Without a time step the solve raises.",
     ["inputs", "configurations", "histories"],
     "All robots with geometries, states, margins, triggers, safe accelerations, time steps, priorities and task demands.",
     "The bound acts only for close and approaching pairs, in any direction and for any pair of links; no test covers it.",
     ["src/placo/dynamics/avoid_self_collisions_constraint.cpp", "src/placo/dynamics/dynamics_solver.cpp"],
     [("AvoidSelfCollisionsConstraint::add_constraint", "src/placo/dynamics/avoid_self_collisions_constraint.cpp")],
     "result.qdd against reported distances")

# ------------------------------------------------------------------ humanoid
prop("P40", "LIPM trajectories obey the linear inverted pendulum equations",
     "For any pendulum built in a problem (from an initial state or chained after another), the position, velocity, acceleration and jerk expressions and trajectories are consistent derivatives starting from the given state, and ZMP, DCM and ZMP velocity equal their definitions from position, velocity, acceleration and jerk at all times. A chained pendulum continues the previous one's end state.",
     ["inputs", "histories"],
     "All durations, step counts, heights, start times, initial states, chain lengths and imposed targets.",
     "Consistency must hold at all times and chain depths, not at the sampled timesteps of one example.",
     ["src/placo/humanoid/lipm.cpp"],
     [("jerk-driven integrators", "src/placo/humanoid/lipm.cpp"), ("build_LIPM_from_previous", "src/placo/humanoid/lipm.cpp")],
     "expressions and trajectory values")

prop("P41", "Swing foot trajectories join their endpoints smoothly and rise as requested",
     "For each swing-foot generator, the trajectory starts and ends exactly at the given positions with the specified (zero or given) velocities, its velocity is the derivative of its position and continuous, and it rises as requested: the polynomial generators pass at the requested height at one and three quarters of the swing, while the spline generator stays at the height during its plateau and, when starting at rest, never leaves the range between its endpoints and that height. A trajectory re-made midway continues from the current position and velocity, keeps its vertical profile and still reaches the (new) target at the end time.",
     ["inputs", "histories"],
     "All durations, start times, heights, rise ratios, endpoints, elapsed ratios, initial velocities and re-planning times.",
     "Smoothness and bounds are for all times and parameters; tests evaluate one trajectory.",
     ["src/placo/humanoid/swing_foot.cpp", "src/placo/humanoid/swing_foot_quintic.cpp", "src/placo/humanoid/swing_foot_cubic.cpp"],
     [("polynomial fits", "src/placo/humanoid/swing_foot*.cpp")],
     "pos(t), vel(t)")

prop("P42", "Step clipping always yields a feasible step and keeps feasible ones",
     "Each clipping rule (ellipsoid, box, conic, and their variants that also avoid stepping on the support foot) returns, for positive limits, a step within the configured forward, backward, lateral and rotation limits, and shrinks without reversing any component. The plain clips return feasible steps unchanged and are idempotent; the overlap variants do so for feasible steps that neither turn nor overlap, and otherwise add the turning spacing and shrink the step until the feet do not overlap. Walk timings (steps, durations, ratios) are mutually consistent.",
     ["inputs", "configurations"],
     "All steps (any sign and magnitude) and all walk parameters.",
     "Feasibility must hold for every step and parameter set, tests check a few.",
     ["src/placo/humanoid/humanoid_parameters.cpp"],
     [("clip functions", "src/placo/humanoid/humanoid_parameters.cpp"), ("timestep conversions", "src/placo/humanoid/humanoid_parameters.cpp")],
     "clip results and timing getters")

prop("P43", "Footstep plans alternate feet, stay feasible and reach their goal",
     "For any start feet and goal, planned footsteps start from the given feet, strictly alternate sides, keep every step within the walking limits and on the ground, and end with both feet at the goal (goal-directed planner, each of whose steps moves and turns, the shorter way, toward the goal, whenever the goal stance is itself a feasible step both ways and within the step budget) or repeat the requested step (repetitive planner) then rejoin. The derived support phases alternate single and optional double supports over those same footsteps with correct start and end phases, and support polygons are exactly the clockwise hull of their feet.",
     ["inputs", "configurations"],
     "All start placements, goals, step sizes and counts, starting sides and walk parameters.",
     "Termination, alternation and feasibility over all goals; tests check a few plans.",
     ["src/placo/humanoid/footsteps_planner.cpp", "src/placo/humanoid/footsteps_planner_naive.cpp", "src/placo/humanoid/footsteps_planner_repetitive.cpp"],
     [("plan_impl loops", "src/placo/humanoid/footsteps_planner_naive.cpp"), ("make_supports", "src/placo/humanoid/footsteps_planner.cpp"), ("support polygon hull", "src/placo/humanoid/footsteps_planner.cpp")],
     "footsteps and supports lists")

prop("P44", "A walk plan is dynamically balanced, continuous and steps where planned",
     "For any supports the planner produces, the walk trajectory keeps the ZMP inside the current support polygon (with margin) at every planning step, starts at the given CoM at rest and ends at rest above the last support, with CoM position, velocity and acceleration and both feet poses continuous in time. Supporting feet stay exactly on their planned footsteps, swinging feet leave from and land on them, and every phase has the duration the parameters give. Among the balanced motions it is the one closest to the ZMP references, in the least squares sense.",
     ["inputs", "configurations"],
     "All footstep plans, walk parameters, start CoM positions and query times.",
     "Balance and continuity are over all times and plans; no test covers the generator's output.",
     ["src/placo/humanoid/walk_pattern_generator.cpp", "src/placo/humanoid/lipm.cpp", "src/placo/humanoid/swing_foot_cubic.cpp"],
     [("plan_com LIPM constraints", "src/placo/humanoid/walk_pattern_generator.cpp"), ("plan_feet_trajectories", "src/placo/humanoid/walk_pattern_generator.cpp")],
     "trajectory queries over time")

prop("P45", "Replanning and querying a walk never breaks it",
     "Replanning at any allowed time gives a trajectory continuous with the old one in CoM position, velocity, acceleration and feet poses, covering the remaining supports; when impossible it returns the old trajectory from that time on, flagged as failed. Queries (pose, phase, current, next and previous support, timing) never modify the trajectory and agree with its list of phases, each phase's target DCM being the trajectory's DCM at its end, and moving a trajectory by a transform moves every query result by it.",
     ["histories", "inputs"],
     "All plans, replan times (repeated), transforms and query sequences.",
     "Needs sequences of replans and queries at arbitrary times; not covered by any test.",
     ["src/placo/humanoid/walk_pattern_generator.cpp"],
     [("replan / replan_supports / trim_old_trajectory", "src/placo/humanoid/walk_pattern_generator.cpp"), ("part lookup", "src/placo/humanoid/walk_pattern_generator.cpp _findPart()"), ("apply_transform", "src/placo/humanoid/walk_pattern_generator.cpp")],
     "trajectory queries before and after")

prop("P46", "Humanoid support tracking and balance quantities are consistent",
     "Changing support side keeps the whole robot still in the world and makes the floor-flattened new support foot the reference; placing on floor puts the support foot exactly at the reference (flat, or with the given orientation) without changing joints; inertial updates give the trunk the measured orientation while keeping the support foot position. DCM and ZMP follow their definitions, support-constrained CoM velocity is that of a robot whose support foot position is still with the measured trunk rotation, and joint torques from accelerations and contact forces satisfy the equation of motion.",
     ["inputs", "histories"],
     "All configurations, velocities, support sequences, orientations and contact forces.",
     "Needs sequences of support changes and arbitrary states; tests check one or two poses.",
     ["src/placo/humanoid/humanoid_robot.cpp"],
     [("update_support_side / ensure_on_floor / update_from_imu", "src/placo/humanoid/humanoid_robot.cpp"), ("get_com_velocity, get_torques", "src/placo/humanoid/humanoid_robot.cpp")],
     "frame poses, state and returned values")

prop("P47", "Walk tasks make the robot track the walk trajectory",
     "After initialising walk tasks and updating them from a trajectory or explicit targets, solving brings both feet, the CoM (or trunk) and the trunk orientation to the targets at that time, and the reported errors per foot, CoM and trunk are the current distances to the last targets. Removing the walk tasks leaves the solver without them; the simple walk alternates supports, keeps the support foot still during a step, lands the swing foot at the requested displacement and keeps feet level.",
     ["inputs", "histories"],
     "All trajectories, times, CoM/trunk modes, step commands and sequences of steps and phases.",
     "Tracking must hold along whole walks and all commands; not covered by tests.",
     ["src/placo/humanoid/walk_tasks.cpp", "src/placo/humanoid/dummy_walk.cpp"],
     [("update_tasks", "src/placo/humanoid/walk_tasks.cpp"), ("next_step / update", "src/placo/humanoid/dummy_walk.cpp")],
     "robot frames after solving, reported errors")

prop("P48", "Step adjustment keeps the DCM viable and is the best compromise",
     "Given a measured DCM during a single support, adjusting the supports changes only the remaining duration of the current support and the position of the next footstep. The next footstep stays in the reachable area of the current support foot (mirrored for the other side), the duration stays in its bounds, and among those the result minimises the documented weighted compromise between nominal duration, nominal footstep, nominal DCM offset and viability (DCM offset polygon, mirrored for the other side). The ZMP proposed to bring the DCM from one point to another is the exact one when it lies in the support polygon with margin, and otherwise the closest point of it.",
     ["inputs", "configurations"],
     "All walks, supports of either side, elapsed times, measured DCMs, reachable area and DCM offset polygons.",
     "The optimum depends on side, orientation and timing together, and constraints bind only for disturbed DCMs; no test covers it.",
     ["src/placo/humanoid/walk_pattern_generator.cpp", "src/placo/humanoid/humanoid_parameters.cpp"],
     [("update_supports / get_optimal_zmp", "src/placo/humanoid/walk_pattern_generator.cpp")],
     "returned supports and ZMP")

prop("P49", "Settings read back what was last given to them, and nothing else changes",
     "Every setting of a solver, task, constraint, contact, problem, walk parameter set, footstep, support, trajectory part or walk object reads back the last value given to it (as an argument when it is created, by assignment or through its setter), whatever other settings of this object or of another object of the same kind were written since, and whatever was solved in between. The different handles of one item (a frame task and its position and orientation parts, the tasks of a contact, a contact obtained again from its solver, gains set for all the tasks of a solver) see the same values.",
     ["histories", "configurations"],
     "All interleavings of writes, reads and solves over all objects, including several of the same class.",
     "Tests write one setting and look at its effect; cross-talk between settings, objects or handles only shows in particular histories.",
     ["src/placo/kinematics/frame_task.cpp", "src/placo/dynamics/frame_task.cpp", "src/placo/kinematics/kinematics_solver.cpp", "src/placo/dynamics/dynamics_solver.cpp", "src/placo/tools/prioritized.cpp", "src/placo/humanoid/footsteps_planner.cpp", "bindings/expose-kinematics.cpp", "bindings/expose-dynamics.cpp"],
     [("get/set_T_world_frame, get/set_T_a_b", "src/placo/kinematics/frame_task.cpp"), ("add_*_task, add_*_contact, add_*_constraint", "src/placo/kinematics/kinematics_solver.cpp"), ("configure", "src/placo/tools/prioritized.cpp")],
     "attributes and getters of the Python objects")

prop("P50", "The drawing helpers show exactly the geometry they are given, and nothing older",
     "After any history of calls to the drawing helpers, the viewer holds, for each name, exactly the geometry last given under this name: frames at their pose and scale, points, lines and paths through the given points, crosses, cylinders, arrows from their first to their second point, one outline per footstep or support (moved by the given transform, coloured by side) and nothing of an earlier, longer drawing. Robot frames are drawn where the robot has them, and contact forces are drawn for every active contact and no other, from the point where they act, along the force expressed in the world, whatever the kind of the contact and its position in the list.",
     ["inputs", "histories"],
     "All geometries, names drawn again with more or fewer parts, contact lists with inactive ones in any place.",
     "No test draws anything: the helpers need a viewer. Leftovers of an earlier drawing and wrong reference frames only show in particular histories.",
     ["python/placo_utils/visualization.py", "bindings/expose-dynamics.cpp"],
     [("frame_viz, points_viz, path_viz, arrow_viz, footsteps_viz, contacts_viz", "python/placo_utils/visualization.py")],
     "the placo_utils.visualization functions, with a recording viewer")

prop("P51", "Status reports list exactly the live tasks, with their current errors",
     "The status report of a kinematics or dynamics solver lists every task that is alive once (both parts of a frame task), and nothing else, with its name, type, priority, weight and its error (and error derivative) for the current state and targets, however large they are, whatever was solved, moved, renamed or removed before; the scaling is reported when, and only when, the last solve had scaled tasks. The counters of a solved problem, and their report, follow from its constraints: variables, inequality rows, one slack per soft inequality row, and every hard equality row either eliminated (one variable determined by each) or kept.",
     ["inputs", "histories"],
     "All task kinds, states, targets (tiny to huge) and histories of solves, moves, settings and removals.",
     "No test reads a report; a report of a removed task or of an error as it was at the last solve only shows in a history, an overflow only for huge errors.",
     ["src/placo/kinematics/kinematics_solver.cpp", "src/placo/dynamics/dynamics_solver.cpp", "src/placo/problem/problem.cpp"],
     [("KinematicsSolver::dump_status_stream", "src/placo/kinematics/kinematics_solver.cpp"), ("DynamicsSolver::dump_status_stream", "src/placo/dynamics/dynamics_solver.cpp"), ("Problem::dump_status", "src/placo/problem/problem.cpp")],
     "dump_status() of the solvers and of the problem, on the standard output")

prop("P52", "Objects and arrays obtained from the library stay valid for as long as held",
     "In Python, an object obtained from the library (a solver, a task, a contact, a planner, a trajectory, the state or the model of a robot, an integrator, a polynom, a solver given by another object...) keeps working, and gives what it would have given, when the objects it was made from or obtained through are no longer held by the program, whatever takes their memory. An array read from a live object holds, for as long as it is held, what was read or what the object now holds, however the object is used afterwards. What is not held any more is released: making, using and dropping objects over and over does not take more and more memory.",
     ["inputs", "histories"],
     "All bound classes that refer to others, random contents, orders of release, and histories of uses after an array was read.",
     "Tests keep every object in a local variable until they end; a dangling reference reads plausible values until its memory is taken by something else.",
     ["bindings/expose-kinematics.cpp", "bindings/expose-dynamics.cpp", "bindings/expose-walk-pattern-generator.cpp", "bindings/expose-problem.cpp", "bindings/expose-robot-wrapper.cpp"],
     [("exposeKinematics", "bindings/expose-kinematics.cpp"), ("exposeDynamics", "bindings/expose-dynamics.cpp"), ("exposeWalkPatternGenerator", "bindings/expose-walk-pattern-generator.cpp"), ("exposeProblem", "bindings/expose-problem.cpp"), ("exposeRobotWrapper", "bindings/expose-robot-wrapper.cpp")],
     "the objects and arrays a Python program gets from the bindings")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
