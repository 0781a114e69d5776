#!/usr/bin/python3
# Generates /verif/properties.jsonl (one place to edit the properties).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, **kw):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
         'why_tests_cant': why, 'anchors': dict(files=files, mechanism=mechanism)}
    P.append(d)

prop('P01', 'Derivatives and primitives of a variable form one coherent chain',
 "Asking for the derivative (any order) of a variable and then for the primitive of the same order gives back the original variable, as long as it lives; repeating a request while the result is alive returns the same object, and derivative number, base variable and order comparisons (isDerivativeOf, isPrimitiveOf, isBasePrimitive, basePrimitive) always agree with the chain of requests, for variables and subvariables alike. A derivative keeps its primitives alive, has the size of its space (tangent space for a derivative), and creating or destroying one never changes the value of the variables that already exist.",
 ['histories', 'inputs'], 'all sequences of derivative/primitive/subvariable requests and releases up to the stated length, all values',
 'The unit tests follow two or three fixed chains; releasing and re-requesting in other orders, derivatives of subvariables and value preservation are not exercised.',
 ['src/Variable.cpp', 'include/tvm/Variable.h'], 'Variable owns a weak link to its derivative; the derivative owns its primitive.')
prop('P02', 'A subvariable is exactly a segment of its supervariable',
 "A subvariable designates one fixed segment of its supervariable: reading or writing one changes exactly the corresponding coefficients of the other and no other, also through subvariables of subvariables and through derivatives. Containment, intersection and equality queries between variables, and the subvariable's start and size in its supervariable, are those of the corresponding index ranges; two subvariables of unrelated variables never contain or intersect one another.",
 ['inputs', 'histories'], 'all Euclidean supervariables of size up to 8, all subranges and nestings, all values, derivative orders up to 2',
 'The tests use a handful of hand-picked ranges; aliasing must hold for every nested range and every value.',
 ['src/Variable.cpp', 'include/tvm/Variable.h', 'include/tvm/Range.h', 'src/Space.cpp'], 'subvariables map into the memory of the supervariable, at an offset computed from a Space shift.')
prop('P03', 'A vector of variables maps each variable to its own slice',
 "After any sequence of additions and removals, the variables of a vector are mapped, in insertion order, to consecutive disjoint ranges that cover exactly [0, total size), whatever the mapping was before; the value vector returned or set is the concatenation of the values of the variables over these ranges. Adding never duplicates a variable (nor accepts one overlapping an already present part), membership and index queries agree with the history, and a change of content is always visible through the stamp.",
 ['histories', 'inputs'], 'all histories up to the stated length over a pool of variables and subvariables, all values',
 'Tests exercise a few add/remove sequences with one or two vectors; the mapping cache depends on the interleaving of vectors sharing variables.',
 ['src/VariableVector.cpp', 'include/tvm/VariableVector.h', 'src/Variable.cpp'], 'mappings are computed lazily and cached per vector with a stamp.')
prop('P04', 'Range counting agrees with counting each index separately',
 "After any sequence of adding and removing ranges, the reported maximal ranges are exactly the maximal runs of indexes covered at least once (split at each change of count when asked for), sorted and disjoint, and the reported dimension is the number of covered indexes. A range is accepted for removal only if each of its indexes is currently counted.",
 ['histories', 'inputs'], 'all sequences of up to the stated number of additions/removals of ranges within bounded indexes',
 'The unit test replays a few fixed sequences; correctness depends on the relative order of all bounds, which only an exhaustive case split covers.',
 ['src/internal/RangeCounting.cpp', 'include/tvm/internal/RangeCounting.h'], 'a sorted list of limits with +/- counts')
prop('P05', 'Counted variables give the union of what is currently in use',
 "After any history of additions and removals of variables and subvariables, the list of counted variables covers exactly the coefficients added more often than removed, without overlap, in a stable order by first use of each supervariable, and partitions derived from it consist of pairwise disjoint parts covering the same coefficients such that each added variable is a union of parts. The count reported for each variable is the number of times it is in use.",
 ['histories'], 'all histories of additions and removals up to the stated length over a pool of overlapping subvariables',
 'Tests replay few histories; the counting structure must be right after every history.',
 ['src/internal/VariableCountingVector.cpp', 'include/tvm/internal/VariableCountingVector.h', 'include/tvm/internal/VariableVectorPartition.h'], 'range counting per supervariable with cached unions')
prop('P06', 'Matrix properties are never claimed for a matrix that lacks them',
 "For any properties known about operands, the properties deduced for a negation, a product by a scalar, a sum, a difference, a product, or an inverse-type combination are true of the resulting matrix for all matrices satisfying the operands' properties (shape, positiveness, invertibility, constness). Combining the arguments given by the user always yields a consistent set of properties, and contradictory arguments are rejected. Conversely what was declared is reported by every query it implies, and the properties attached to a matrix are forgotten when other values are assigned, unless asked otherwise.",
 ['inputs'], 'all pairs of operand properties and all 2x2 / 1x1 (3x3 for shapes) real matrices that satisfy them, all scalars',
 'The unit test compares the tables with copies of the tables; soundness quantifies over all matrices.',
 ['src/internal/MatrixProperties.cpp', 'include/tvm/internal/MatrixProperties.h'], 'lookup tables over shape x positiveness')
prop('P07', 'The update order respects every dependency, and cycles are reported',
 "For every dependency graph, the computed order lists each node exactly once and after all the nodes it depends on; if no such order exists an error is raised, never a partial order. Strongly connected components, reduction, and removal of nodes agree with the graph: two nodes share a component exactly when each reaches the other.",
 ['inputs', 'histories'], 'all directed graphs up to the stated number of nodes, all insertion orders of a node set up to isomorphism covered by edge choice',
 'The tests contain a few graphs; order correctness is a statement over all graphs.',
 ['src/graph/DependencyGraph.cpp', 'include/tvm/graph/internal/DependencyGraph.h'], 'Tarjan and depth first ordering')
prop('P08', 'Executing the call graph runs each needed update once, in order',
 "When a call graph built from declared inputs is executed, every update that an input (transitively, through other nodes and through the node's internal dependencies) needs is run exactly once, after all the updates it depends on, and no update that nothing needs is run; therefore every requested output is up to date. This stays true after the graph is rebuilt or inputs are added.",
 ['histories', 'configurations'], 'all assignments of output/update/input dependencies up to the stated number of nodes, updates and outputs',
 'Tests use one or two fixed node sets; dependency declarations are arbitrary user programs.',
 ['src/graph/CallGraph.cpp', 'include/tvm/graph/CallGraph.h', 'include/tvm/graph/abstract/Node.h', 'include/tvm/graph/abstract/Node.hpp', 'src/graph/Inputs.cpp'], 'dependency graph of update calls, sorted, compiled into a plan')
prop('P09', 'Declared outputs, their enabling and declared inputs are reported faithfully',
 "An output is usable exactly when it is declared, statically available for the class and dynamically enabled for the instance, and querying by enum, by number or by name agrees. Requesting an unavailable output of a node as an input is refused, a declared input is recorded once with exactly the outputs requested, and removing inputs removes exactly these.",
 ['histories', 'configurations'], 'all sequences of enable/disable and add/remove input operations up to the stated length',
 'Tests check a few classes; the state is a product of static and dynamic switches.',
 ['include/tvm/graph/abstract/Outputs.h', 'include/tvm/graph/abstract/OutputSelector.h', 'include/tvm/graph/internal/Inputs.hpp', 'src/graph/Inputs.cpp'], 'template-declared outputs with dynamic masks')
prop('P10', 'Linear functions and constraints evaluate to their definition',
 "For every value of the variables and every coefficients, a basic linear function evaluates to A x + b, with velocity A dx/dt and zero normal acceleration, its jacobian with respect to each declared variable (or a part of it) is the matching block of A; the identity function returns its variable; a basic linear constraint reports the left and right-hand sides it was given and its value A x. Changing coefficients changes all of these at the next update, and dimensions that do not match are refused.",
 ['inputs', 'histories'], 'all coefficient and variable values, the stated sizes and variable splits (including subvariables)',
 'Tests evaluate some numeric instances.',
 ['src/function/BasicLinearFunction.cpp', 'src/function/LinearFunction.cpp', 'src/function/IdentityFunction.cpp', 'src/constraint/BasicLinearConstraint.cpp', 'src/constraint/LinearConstraint.cpp', 'src/constraint/RHSVectors.cpp', 'src/internal/FirstOrderProvider.cpp'], 'FirstOrderProvider keeps a jacobian per variable; RHS conventions per constraint type')
prop('P11', 'A linearized task constrains the derivative as its task dynamics prescribes',
 "For a task on a function f with task dynamics of order k, the linear constraint built from it reads, for every value of f and its derivatives, J z {=,>=,<=} r where z is the derivative of order k of the variables and the right-hand side is such that the k-th derivative of f equals (is above, is below, is within) the value prescribed by the task dynamics for the task's right-hand side; for a double sided task each bound follows its own side. Constraint type, right-hand-side convention and variables match those of the task.",
 ['inputs', 'configurations'], 'all values, all task types (==, >=, <=, double sided), orders 0,1,2, sizes up to the stated bound',
 'Tests check a few scalar instances.',
 ['src/constraint/LinearizedTaskConstraint.cpp', 'src/Task.cpp', 'include/tvm/constraint/internal/LinearizedTaskConstraint.h', 'src/task_dynamics/TaskDynamics.cpp', 'src/task_dynamics/TaskDynamicsImpl.cpp'], 'updates of kinematic/dynamic right-hand sides by constraint type')
prop('P12', 'Task dynamics values follow their published formulas',
 "For every function value, derivative, right-hand side and gains, the value of each task dynamics is its documented formula: none and constant yield the right-hand side offset or given constant, proportional -kp e, proportional-derivative -kv de/dt - kp e, reference feed-forward adding the value of the reference, one-step-to-zero reaching zero after one time step, with scalar, diagonal and matrix gains all giving the same law; default damping is critical (kv = 2 sqrt(kp)). Changing gains takes effect at the next evaluation, and mismatched sizes are refused.",
 ['inputs', 'histories'], 'all gains (scalar, vector, matrix), values and right-hand sides at the stated sizes',
 'Tests evaluate some numeric instances for a subset of gain types.',
 ['src/task_dynamics/Proportional.cpp', 'src/task_dynamics/ProportionalDerivative.cpp', 'src/task_dynamics/Constant.cpp', 'src/task_dynamics/None.cpp', 'src/task_dynamics/OneStepToZero.cpp', 'src/task_dynamics/Reference.cpp', 'src/task_dynamics/TaskDynamicsImpl.cpp'], 'one implementation class per dynamics')
prop('P13', 'Clamped task dynamics stay in their bounds and keep the direction',
 "The value of a clamped task dynamics lies within its bounds for every value of the underlying dynamics. It is equal to the underlying value when that value already lies within the bounds, and otherwise is the underlying vector scaled by the largest factor in [0,1] that brings all the components within the bounds (hence with the same direction).",
 ['inputs', 'configurations'], 'all values, bounds (scalar or vector, symmetric or pair), for each wrapped task dynamics, sizes up to the bound',
 'Tests evaluate few numeric values.',
 ['include/tvm/task_dynamics/Clamped.h'], 'scaling by the tightest component ratio')
prop('P14', 'Velocity damping bounds the velocity as documented',
 "For every distance and parameters (interaction distance di > safety distance ds, offset, damping xsi), the velocity damper prescribes -xsi (d - ds)/(di - ds) when d is at most di and leaves the constraint inactive (big bound) beyond; with automatic damping the coefficient is computed once on entering the interaction zone from the velocity at that time (the zone being entered elsewhere than at the safety distance), and stays constant until the zone is left. Each component behaves independently, and the second-order (anticipation) law bounds the acceleration so that the next velocity satisfies the first-order law.",
 ['inputs', 'histories'], 'all parameter values, distances and velocities, over the stated number of consecutive updates',
 'Tests cover some numeric trajectories; activation depends on history.',
 ['src/task_dynamics/VelocityDamper.cpp', 'include/tvm/task_dynamics/VelocityDamper.h'], 'per component state automaton updated at each evaluation')
prop('P15', 'Assigning a constraint transcribes it exactly, whatever the conventions',
 "For every combination of source constraint (type and right-hand-side convention) and target (type and convention) that is accepted, and any scalar and vector weights for objectives, the matrix rows and vector(s) written in the target, interpreted in the target's convention, define exactly the set of variable values allowed by the source constraint (scaled by the square root of the weight when weighted). Rows and columns not belonging to the constraint are left untouched; re-running after the constraint values or weights changed gives the assignment of the new values.",
 ['inputs', 'configurations'], 'all source/target convention pairs, all coefficient values and weights, the stated sizes',
 'The tests check numerically a part of the convention table with fixed data.',
 ['src/scheme/Assignment.cpp', 'include/tvm/scheme/internal/Assignment.h', 'include/tvm/scheme/internal/Assignment.hpp', 'src/scheme/AssignmentTarget.cpp'], 'convention table selecting compiled assignments')
prop('P16', 'Assignments account for substituted variables',
 "When some variables of a constraint are substituted by linear expressions of others, the rows written in the target are those of the constraint after performing the substitution, for every value of the constraint and of the substitution matrices, including variables appearing both directly and through substitutions. The right-hand side accounts for the constant part of the substitution in every convention.",
 ['inputs', 'configurations'], 'all values, the stated shapes of substitution and conventions',
 'A single test uses substitution in an assignment.',
 ['src/scheme/Assignment.cpp', 'src/scheme/MatrixAssignment.cpp', 'src/hint/Substitutions.cpp'], 'compiled assignments chained with substitution matrices')
prop('P17', 'Bounds on a variable combine to their intersection',
 "A constraint that bounds a variable through a diagonal matrix (identity, negative identity or any invertible diagonal) assigned to bound vectors gives exactly the componentwise interval of values the constraint allows, for either sign of each coefficient; bounding the same variable or parts of it several times yields the intersection of the intervals, independent of the order.",
 ['inputs', 'configurations', 'histories'], 'all bound values, diagonal coefficients of either sign, constraint types and conventions, up to the stated number of bounds',
 'Tests check a few numeric instances.',
 ['src/scheme/Assignment.cpp', 'src/scheme/AssignmentTarget.cpp', 'include/tvm/scheme/internal/CompiledAssignment.h'], 'compiled assignments with min/max operations')
prop('P18', 'A compiled assignment performs exactly the operation it was built for',
 "Every compiled assignment (copy, add, subtract, min, max; of a matrix, vector, constant or zero; with none, minus, scalar, or diagonal weights; multiplied on the proper side by nothing, a general matrix or an inverse diagonal) sets its target to target op (weight * source * multiplier) for every value of all operands, and touches nothing else. Its result depends on the operand values at the time it is run, not on the time it was built.",
 ['inputs', 'configurations'], 'all operand values at the stated sizes, all supported template combinations',
 'Tests run random matrices for the combinations.',
 ['include/tvm/scheme/internal/CompiledAssignment.h', 'include/tvm/scheme/internal/CompiledAssignmentWrapper.h'], 'template generated assignment classes')
prop('P19', 'Updating a solver incrementally equals rebuilding it',
 "After any sequence of additions and removals of constraints, objectives and bounds, weight changes and variable additions or removals passed to a least-squares solver, the matrices and vectors the solver works on are the ones obtained by building from scratch the resulting problem: each present constraint, bound and objective contributes its rows exactly once, and absent ones contribute nothing.",
 ['histories', 'inputs'], 'all event histories up to the stated length over a pool of constraints and variables, all coefficient values',
 'No running test exercises the incremental path (the tests of it need a numerical solver that is not available).',
 ['src/solver/LeastSquareSolver.cpp', 'include/tvm/solver/abstract/LeastSquareSolver.h', 'include/tvm/solver/internal/SolverEvents.h', 'include/tvm/scheme/internal/AssignmentTarget.h'], 'assignments are kept and re-targeted when events are processed')
prop('P20', 'The weighted scheme solves the problem the user wrote',
 "For a control problem made of tasks with priorities 0 and 1, weights and bounds, the data given to the underlying solver by the weighted least-squares scheme define exactly the problem: level-0 tasks are constraints or bounds with the values prescribed by their task dynamics, level-1 tasks are objectives scaled by the square root of their weights, over exactly the variables of the tasks. This holds after tasks are added, removed, or re-weighted between two resolutions, and the solution found is written back to the variables of the problem.",
 ['histories', 'inputs', 'configurations'], 'all task values, weights and solver outputs; task menus and histories up to the stated length',
 'The end-to-end tests need numerical solvers and do not run here.',
 ['src/scheme/WeightedLeastSquares.cpp', 'src/scheme/ResolutionScheme.cpp', 'src/scheme/helpers.cpp', 'src/LinearizedControlProblem.cpp', 'src/ControlProblem.cpp', 'src/solver/LeastSquareSolver.cpp'], 'problem events are translated to solver events')
prop('P21', 'The hierarchical scheme puts each task at its own priority level',
 "For a control problem with tasks at several priority levels, the data given level by level to the underlying hierarchical solver by the hierarchical least-squares scheme are exactly the tasks of that level, weighted as required, with bounds at level 0, over exactly the variables of the problem, with the rows of a level appearing once each. Building the problem again after a change gives the data of the new problem, and the solution is written back to the variables.",
 ['histories', 'inputs', 'configurations'], 'all values; task menus over three levels and rebuild histories up to the stated length',
 'The end-to-end tests need numerical solvers and do not run here.',
 ['src/scheme/HierarchicalLeastSquares.cpp', 'src/solver/HierarchicalLeastSquareSolver.cpp', 'include/tvm/solver/abstract/HierarchicalLeastSquareSolver.h'], 'per-level data filled by assignments')
prop('P22', 'Substituting a variable keeps its defining constraint satisfied',
 "For every set of substitutions accepted (simple, chained, or grouped; square, or with at least as many variables as constraints), and all values of the remaining variables, setting the substituted variables from the substitution satisfies each defining constraint, and reduces nothing else: each value satisfying the constraints is reachable, remaining constraints being kept when the substitution leaves some. Substitutions that depend on one another are handled in a valid order, and adding or removing substitutions followed by a re-computation gives the result for the current set.",
 ['inputs', 'configurations', 'histories'], 'all right-hand sides, remaining variables and non-pivot coefficients, over a menu of pivot matrices and dependency patterns at the stated sizes',
 'Tests use numeric random instances for a few patterns.',
 ['src/hint/Substitutions.cpp', 'src/hint/SubstitutionUnit.cpp', 'src/hint/Substitution.cpp', 'src/hint/SubstitutionCalculatorImpl.cpp', 'src/hint/GenericCalculator.cpp', 'src/hint/DiagonalCalculator.cpp', 'src/hint/AutoCalculator.cpp'], 'groups ordered by dependency graph, eliminated by QR or diagonal calculators')
prop('P23', 'Affine expressions written with operators mean what they say',
 "An expression built from variables and matrices with +, -, products by scalars or matrices, and constants, turned into a function or a task, evaluates for every value of the variables to the value of the expression computed directly, repeated variables being merged. Comparing an expression, a function or a variable to a constant or a vector (==, >=, <=, and chained double inequalities) defines the task with the same solution set.",
 ['inputs', 'programs'], 'all values and coefficients; expressions from a menu of operator trees up to the stated size',
 'The tests evaluate a few expressions numerically.',
 ['include/tvm/utils/AffineExpr.h', 'include/tvm/utils/internal/AffineExprOperators.h', 'include/tvm/utils/internal/AffineExprDetail.h', 'include/tvm/utils/ProtoTask.h', 'include/tvm/function/BasicLinearFunction.h', 'src/Task.cpp'], 'expression templates')
prop('P24', 'Pending changes keep only their net effect',
 "When additions, removals and changes concerning constraints, objectives, bounds, variables and weights accumulate before being processed, what remains to process is the net effect of the history: for a solver, adding then removing, or removing then adding back, the same item leaves nothing to do for it; for a problem, adding then removing a task leaves nothing to do for it (a task removed then added back is rebuilt); and nothing else is forgotten or duplicated. Notifications of a problem reach each scheme that uses it, once each, in order.",
 ['histories'], 'all event histories up to the stated length',
 'Tests of events do not run here or check one history.',
 ['include/tvm/solver/internal/SolverEvents.h', 'include/tvm/scheme/internal/ProblemComputationData.h', 'src/ControlProblem.cpp', 'src/LinearizedControlProblem.cpp', 'include/tvm/scheme/internal/ProblemDefinitionEvent.h'], 'sets of pairs of added / removed items')
prop('P25', 'Requirement changes are signalled to all and only current subscribers',
 "Changing a weight, anisotropic weight or priority stores the new value and calls each callback currently registered exactly once, after the new value is visible; a callback whose token was released or destroyed is never called, whichever object (token or owner) dies first. Invalid values are refused without changing anything.",
 ['histories', 'inputs'], 'all register/release/destroy/move/change sequences up to the stated length, all values',
 'Tests check single scenarios.',
 ['include/tvm/requirements/abstract/SingleSolvingRequirement.h', 'include/tvm/internal/CallbackManager.h', 'include/tvm/internal/PairElementToken.h', 'include/tvm/requirements/SolvingRequirements.h', 'include/tvm/requirements/Weight.h', 'include/tvm/requirements/PriorityLevel.h', 'include/tvm/requirements/AnisotropicWeight.h'], 'tokens paired by pointers, callback map')
prop('P26', 'Products of spaces add up and compare consistently',
 "Sizes, representation sizes and tangent sizes of a product of spaces are the sums over its factors, whatever the order of multiplication, a product of Euclidean spaces is Euclidean, and equality holds exactly between spaces with the same type and sizes. A variable created from a space has its sizes, and its derivatives the tangent size.",
 ['inputs'], 'all sizes and types, products up to three factors',
 'Tests check a few spaces.',
 ['src/Space.cpp', 'include/tvm/Space.h', 'src/Variable.cpp'], 'size triple and type')
prop('P27', 'The clock counts its ticks',
 "After n advances, the clock reports n ticks and the time step it was built with; the copies of a clock advance separately, and what depends on the time of a clock in a call graph is recomputed from its current ticks at each execution.",
 ['histories', 'inputs'], 'all time steps and initial times, histories up to the stated length',
 'There is no dedicated test.',
 ['src/Clock.cpp', 'include/tvm/Clock.h'], 'tick counter')
prop('P28', 'Standalone evaluation of a function equals its update through the graph',
 "Evaluating a function through the update-less facade with given variable values (and velocities, accelerations) yields exactly the outputs that the function computes for these values through a call graph, whichever way the values are passed, for single values or concatenations, and leaves the variables with the values documented. The automatic derivative checks accept functions whose outputs are consistent and reject functions whose jacobian, velocity or normal acceleration is off by more than the tolerance.",
 ['inputs', 'histories'], 'all values; functions with affine outputs and arbitrary errors in their derivatives',
 'Tests check numeric instances.',
 ['src/utils/UpdatelessFunction.cpp', 'include/tvm/utils/UpdatelessFunction.h', 'src/utils/checkFunction.cpp'], 'facade owning a call graph; finite differences')
prop('P29', 'A control problem contains exactly the tasks added and not removed',
 "After any sequence of additions and removals of tasks (and substitutions), the problem lists exactly the tasks currently added, once each and in order of insertion, gives for each its constraint, and its variables; removing an absent task or adding a present one has no effect or is refused, and a refusal leaves the problem as it was. Updating the problem brings all the outputs of its constraints up to date with the variables and nothing added later is missed.",
 ['histories', 'inputs'], 'all histories up to the stated length, all values',
 'Tests check a single scenario.',
 ['src/ControlProblem.cpp', 'src/LinearizedControlProblem.cpp', 'include/tvm/ControlProblem.h'], 'vectors of TaskWithRequirements, an Updater around a call graph')
prop('P30', 'Schemes refuse exactly the requirements they cannot honour',
 "A resolution scheme accepts a requirement exactly when its declared abilities cover it: priority level within range, constraint or objective type supported at that level, and supported violation evaluation; anything else raises an error rather than being solved differently from what was asked. The same holds for requirements changed after a task was added, and an error leaves nothing behind: a later resolution solves the current problem or is refused again.",
 ['inputs', 'configurations'], 'all abilities and requirement values within bounds',
 'Tests cover few combinations.',
 ['src/scheme/SchemeAbilities.cpp', 'include/tvm/scheme/internal/SchemeAbilities.h', 'src/scheme/WeightedLeastSquares.cpp', 'src/scheme/HierarchicalLeastSquares.cpp', 'src/scheme/ResolutionScheme.cpp'], 'ability tables')
prop('P31', 'A plane reports the normal, offset and velocities it was given',
 "A plane positioned by a normal and an offset reports these; positioned by a normal and a point, it reports the normal, the point, and the offset such that the point lies on the plane. Its velocities and accelerations are those set last; setting one of these does not change the others, and what depends on the plane in a call graph uses the current ones.",
 ['inputs', 'histories'], 'all values',
 'There is no dedicated test.',
 ['src/geometry/Plane.cpp', 'include/tvm/geometry/Plane.h'], 'outputs of a node')
prop('P32', 'Each back-end passes its numerical library the problem it was given',
 "The solver wrappers (LSSOL, QLD, Quadprog, LexLS, hierarchical LexLS), when built from any set of equality and inequality constraints, bounds, objectives and minimum norm, with any of their options, and when rebuilt or updated, call the numerical library with matrices, vectors, sizes and leading dimensions that describe exactly this problem in the conventions of that library (right-hand side signs, stacked or double sided bounds, normal equations or factorised cost, levels), and return the point given by the library as the result.",
 ['inputs', 'histories', 'configurations'], 'all coefficient values; menus of problems, options and build / rebuild / update histories up to the stated length',
 'The wrappers need libraries that are not available, so no test of them runs.',
 ['src/solver/QLDLeastSquareSolver.cpp', 'src/solver/LSSOLLeastSquareSolver.cpp', 'src/solver/QuadprogLeastSquareSolver.cpp', 'src/solver/LexLSLeastSquareSolver.cpp', 'src/solver/LexLSHierarchicalLeastSquareSolver.cpp'], 'assignment targets into library buffers')
prop('P33', 'Diagnostics report the current values and true dependencies of a graph',
 "Probing a computation graph (a node, an output, a call graph or a whole problem) reports exactly the enabled outputs reachable from what was probed, with their current value; following an output up reports exactly the outputs it depends on, through every kind of dependency (declared inputs, internal and direct dependencies), each with its value, for any graph; a search by value or by absence of a variable selects exactly the values that qualify.",
 ['inputs', 'configurations'], 'all values; all dependency patterns of the graphs within bounds',
 'The diagnostic test is compiled but never run, and would use a single graph.',
 ['src/diagnostic/GraphProbe.cpp', 'include/tvm/diagnostic/GraphProbe.h', 'src/graph/Logger.cpp', 'src/graph/Log.cpp', 'include/tvm/diagnostic/matrix.h'], 'a log of pointers collected when nodes declare their outputs')
prop('P34', 'An event reaches exactly the living listeners registered for it',
 "Notifying an event from a source makes every living listener registered for this event on this source process it, once per registration and in order of registration, and nobody else; listeners destroyed since, and registrations or destructions done by a listener while it is notified, never make the notification fail.",
 ['histories', 'schedules'], 'all histories of registrations, destructions, notifications and reactions up to the stated length',
 'The events test is compiled but not run, and has a single history.',
 ['src/event/Source.cpp', 'src/event/Listener.cpp', 'include/tvm/event/Source.h'], 'vectors of weak pointers')
prop('P35', 'Drawings of a graph show exactly its elements and dependencies',
 "The dot description of a whole graph, of a node or of a call graph contains each update, output and (for a node) input exactly once under a name unique to it, and an edge for exactly each declared dependency (input to update, update to update, update to output, input to output); what a call graph or an output depends on, and nothing else, is highlighted, and nothing that happens while the log is disabled appears.",
 ['inputs', 'histories'], 'all graphs within the stated size',
 'The graph test only prints the drawings, and nobody reads them.',
 ['src/graph/Log.cpp', 'include/tvm/graph/internal/Logger.h', 'include/tvm/graph/internal/Log.h'], 'search in the logs and text generation')
prop('P41', 'Robot functions are consistent with the rigid-body model',
 "For every configuration and velocity of a robot, the position, Jacobian, velocity and normal acceleration of a frame, and the functions built on them (position, orientation, centre of mass, distance to planes, posture, contact, collision, equation of motion, selection of joints) are up to date with the rigid-body computations they rely on and consistent with one another: velocity is Jacobian times joint velocities, acceleration its derivative; they use the degrees of freedom, joints, contact points and forces they are given, and no other. A robot is integrated once per clock step and its limits are those given for each joint; identifiers of contacts are totally ordered.",
 ['inputs', 'histories'], 'all configurations',
 'The robot part is not built by the tests.',
 ['src/Robot.cpp', 'src/robot/Frame.cpp', 'src/robot/CollisionFunction.cpp', 'src/robot/DynamicFunction.cpp', 'src/robot/JointsSelector.cpp', 'include/tvm/robot/Contact.h'], 'rigid-body kinematics, index arithmetic and update dependencies')
prop('P40', 'Numerical back-ends return optimal solutions',
 "The point computed by the numerical library behind a back-end (QLD, LSSOL, Quadprog, LexLS) minimises the objectives under the constraints it was passed.",
 ['inputs'], 'all feasible problems', 'Back-ends are not available.',
 ['src/solver/QLDLeastSquareSolver.cpp', 'src/solver/LSSOLLeastSquareSolver.cpp', 'src/solver/QuadprogLeastSquareSolver.cpp', 'src/solver/LexLSLeastSquareSolver.cpp'], 'external numerical libraries')

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
