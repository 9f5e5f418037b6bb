"""Technique and oracle of each check, for MANIFEST.json."""
T = {
 "P10": ("stateful PBT: joint accessor histories on generated robots", "a dictionary model of every joint's values"),
 "P11": ("PBT: generated robots and states, differential forward kinematics and placement", "pinocchio forward kinematics and an own composition of joint placements"),
 "P12": ("PBT: generated robots and states, derivatives against finite differences of poses", "central finite differences along the manifold"),
 "P13": ("PBT: generated robots and states against link-by-link mechanics", "energy and Newton-Euler sums computed in numpy, equation of motion residual"),
 "P14": ("PBT: generated states, metamorphic step splitting and closed form", "pinocchio's manifold integration and analytic motion"),
 "P15": ("PBT: generated robots of boxes and spheres against own distance geometry", "analytic and numeric shape distances in numpy, model of the enabled pairs"),
 "P20": ("PBT: generated tasks of every kind, errors and matrices against definitions and finite differences", "task errors recomputed from poses, finite differences"),
 "P21": ("PBT: generated task mixes, row by row check of the returned displacement", "hard rows, limits and masks recomputed from poses with pinocchio and numpy"),
 "P22": ("PBT: generated task mixes, KKT certificate and metamorphic weight changes", "KKT residual of the QP recomputed from the task definitions"),
 "P23": ("PBT: solve/apply histories towards generated reachable goals", "task errors recomputed from poses; an ideal loop decides what is reachable"),
 "P24": ("PBT: generated constraints and targets, linear limit and multi-step region check", "region membership and linearised rows recomputed from poses"),
 "P25": ("stateful PBT: solver operation histories against a freshly built solver", "a model of the live items, rebuilt from scratch"),
 "P30": ("PBT: generated robots, contacts and tasks, residual of the equation of motion", "pinocchio inverse dynamics with contact wrenches"),
 "P31": ("PBT: generated dynamics tasks, acceleration measured on the motion", "finite differences of poses along the returned acceleration, documented PD law"),
 "P32": ("PBT: generated contacts and loads, physical admissibility of the wrenches", "friction, unilateral and centre of pressure inequalities, definition of the wrench frames"),
 "P33": ("PBT: generated states and limits, limit inequalities on the result", "limit formulas evaluated in numpy"),
 "P34": ("PBT and stateful PBT: KKT certificate and histories against a fresh solver", "KKT residual of the recomputed QP, model of the live items"),
 "P35": ("PBT: generated robots with geometries, bounds of close pairs and closed loops", "approach and separation bounds recomputed with pinocchio from the reported distances, KKT residual"),
 "P40": ("PBT: generated pendulum chains against closed form", "own integration of the jerk driven pendulum"),
 "P41": ("PBT: generated swing trajectories, end conditions, derivative and bound checks", "definitions evaluated in numpy"),
 "P42": ("PBT: generated steps and parameters, feasibility, identity and idempotence of clipping", "limit sets evaluated in numpy"),
 "P43": ("PBT: generated starts and goals, invariants over whole plans", "step limits, alternation, hulls recomputed in numpy"),
 "P44": ("PBT: generated walks, invariants over the sampled trajectory", "ZMP polygon membership, continuity and footstep poses recomputed in numpy"),
 "P45": ("stateful PBT: replan and query histories", "the old trajectory and a model of the phase list"),
 "P46": ("PBT: generated humanoid states and support histories", "pinocchio kinematics and dynamics, definitions in numpy"),
 "P47": ("PBT: generated walk targets, solve loops and simple walk histories", "frames recomputed by forward kinematics"),
 "P48": ("PBT: generated walks and measured DCMs, differential against a reference optimisation", "own half-plane projection and SLSQP minimisation of the stated cost"),
 "P49": ("stateful PBT: write, read and solve histories over the settings of all objects", "a dictionary of the last values given"),
 "P50": ("stateful PBT: histories of drawing calls with a recording viewer", "the geometry given last; contact forces from the dynamics solution, forward kinematics"),
 "P51": ("stateful PBT: reports parsed after histories of solves, moves, settings and removals", "a list of the live tasks, their errors recomputed by forward kinematics, counts of rows"),
 "P52": ("stateful PBT: objects kept while all they come from is released and its memory reused; arrays held over histories of uses", "the same object with everything held; the contents of the array when read, or those of its object now; the bytes in use according to the allocator"),
}
