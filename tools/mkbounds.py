#!/usr/bin/env python3
"""Writes harness/<ID>.json: what a check explores ("bounds", "budget") and what it takes for granted ("assumptions")."""
import json, os
H = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness')
REAL = 'doubles are reals (no rounding, overflow or NaN in symbolic values), each ranging over the interval given when it is created'
BASE = [REAL, 'the choices enumerated by forking (which operation, which variable, which type) are exhausted within the bounds; a path whose end is not reached within the budget is reported as incomplete and makes the check fail']
RINT = 'integers are mathematical integers within the interval given when they are created (no wrap around)'
B = {}
def b(i, quick, thorough, out, extra=(), budget=None):
    d = {'bounds': f'quick: {quick}; thorough: {thorough}. Outside: {out}', 'assumptions': BASE + list(extra)}
    if budget: d['budget'] = budget
    B[i] = d
b('P01', 'every history of 3 operations (derivation by 1 or 2, primitives, base primitive, subvariable, release, writing) starting from a variable on R2, SO3 or R2 x SE3, derivatives up to order 3, symbolic values', 'histories of 4 operations', 'longer histories, higher orders, threads')
b('P02', 'supervariable of 4 Euclidean factors or R2 x SO3 x R, derivative order 0 to 2, any two parts made of consecutive factors (also nested, of another variable, of a derivative), every way of writing, symbolic values', '5 Euclidean factors', 'more factors, more than two parts at once')
b('P03', 'every history of 3 operations among 10 (add, add with index, remove by variable or by index in [-2,4], clear, set, copies, moves, concatenation) on two vectors over a pool of 5 variables and overlapping parts, symbolic values', 'histories of 4 operations', 'longer histories, other pools')
b('P04', 'every history of 3 additions and removals of ranges with symbolic limits in [0,30] (any order of the limits is met), queries between the operations or not, an arbitrary symbolic index', 'histories of 4 operations', 'longer histories', [RINT])
b('P05', 'every history of 3 additions, removals, clears on a Euclidean variable of size 4 with parts of symbolic limits, on a product with SE3 or its derivative, on variables being destroyed (4 operations), split or not', 'size 5, histories of 4 (5) operations', 'longer histories', [RINT])
b('P06', 'every combination of properties (8 shapes, 7 positiveness, constness and invertibility given or not), every operator, and all real 2x2 matrices with coefficients in [-10,10]', 'the same', 'larger matrices: a claim false only from size 3 on is not seen', ['2x2 matrices distinguish the properties of the lattice (each claim of MatrixProperties that is false for some size is false for size 2)'])
b('P07', 'all the graphs with 4 nodes without self loops, all those with 3 nodes with self loops and with the removal of any node followed by additions, edges being symbolic booleans added in two orders', '5 nodes', 'more nodes')
b('P08', 'all the patterns of output, internal, input and direct dependencies for 1 to 4 nodes of 3 updates (one of them of a derived class) drawn by 5 generators, requests added at once or incrementally, clear and rebuild', 'more symbolic edges in each generator', 'larger graphs, nodes created while executing')
b('P09', 'classes with up to 2 levels of selectors and providers, symbolic enabling masks over 2 to 5 outputs, 2 changes by enumeration, number or name; inputs recorded and removed in histories of 2 operations', '3 changes, 3 histories', 'deeper hierarchies')
b('P10', 'functions and constraints of 1 or 2 rows on up to 3 variables or parts of two variables (sizes 3 and 2), repeated or overlapping, all constructors, types and conventions, coefficients and values symbolic and changed once; sizes given at construction are symbolic integers in [0,4]; addition and removal of variables in histories of 4 operations', 'the same', 'more rows and columns', [RINT])
b('P11', 'tasks of the 4 types with a right-hand side given in each possible form, dynamics of order 0, 1, 2, a function with 2 rows on two variables (sizes 2 and 1), also on a space whose tangent size differs; values, velocities, normal accelerations, jacobians, gains symbolic', 'the same', 'orders above 2, more rows')
b('P12', 'each dynamics, sizes 1 and 2, scalar, diagonal and matrix gains, symbolic values, velocities, right-hand sides and gains, changed once in each possible way', 'each of the 4 types of task', 'more rows', ['the damping of a matrix gain is checked on matrices with symbolic eigenvalues and either the standard basis or a fixed rotation (the square root comes from an eigenvalue decomposition)'])
b('P13', '2 rows, scalar or vector limits given in each form, symbolic values and limits, over a proportional or a clamped / feed forward dynamics, re-evaluated once', '3 rows', 'more rows; Min > 0 or Max < 0, which the class refuses')
b('P14', '1 or 2 components, first and second order, lower and greater tasks, scalar or vector parameters, default or given offset, all symbolic; automatic damping over histories of 4 steps (3 for 2 components); both sides of a double sided task', 'histories of 6 (4) steps', 'longer histories', ['with automatic damping, a component does not enter its zone exactly at the safety distance (the damping is undefined there)'])
b('P15', 'the 4 source types x conventions, 4 target types x conventions, 1 row sources and 2 row double targets, one or two variables in two arrangements, right or wrong target sizes, 5 kinds of weights, then one change of the values, mapping, target memory, weights; everything symbolic', 'three arrangements of variables', 'more rows', ['the square root of a weight is the positive root (exact)'])
b('P16', 'the conventions of P15 with 8 configurations of substitutions (simple, chained, sharing variables, joint, +/- identity, zero and given right-hand sides), symbolic matrices, vectors and weights, one change afterwards', 'all the changes in each configuration', 'more rows')
b('P17', 'all the conventions, 8 kinds of bounding matrices (+/- identity, multiple, diagonal, with and without declared properties), 2 components, symbolic coefficients with absolute values in [1/1024, 8], bounds and previous content; two bounds on a variable or its parts in both orders', 'three bounds, more parts', 'smaller coefficients (their bounds would exceed the conventional infinity)')
b('P18', 'all the instances of the compiled assignments: 5 operations x 4 weights x 3 multipliers x sources, 2 rows, symbolic operands changed between two runs, targets inside a larger memory, from() and to() redirected', 'the same', 'more rows (the code is written with whole-matrix Eigen expressions)')
b('P19', 'every history of up to 2 simultaneous changes (plus a change of weights) among 9 items (constraints, bounds, objectives, on 3 variables) from 6 starting sets, symbolic coefficients, limits, weights; then rebuilt from scratch', 'a second round of changes', 'longer histories', ['the recording solver standing for a back-end implements the abstract interface as the documentation of LeastSquareSolver requires (P32 checks the real back-ends)'])
b('P20', 'problems over a menu of 8 tasks in 5 starting sets, a change (addition, removal, weight, substitution, data), two kinds of recording solvers on the same problem, automatic damping or not, symbolic data, gains, values and weights', 'two changes', 'longer histories, more levels than 2', ['the solver returns an arbitrary symbolic point'])
b('P21', 'problems over a menu of tasks on 3 levels in 6 starting sets, a change, automatic damping or not, feasible first level or not, symbolic data and weights', 'two changes', 'longer histories', ['the solver returns an arbitrary symbolic point'])
b('P22', 'substitutions of up to 3 variables of sizes 1 to 3 by up to 4 constraints: single row, scalar and diagonal matrices are fully symbolic, matrices factorized by QR come from a menu with symbolic other matrices and right-hand sides; rank deficient, chained, grouped and cyclic sets; histories of 4 additions and removals', 'histories of 5, all orders', 'pivoting matrices out of the menu: their QR decomposition branches on every coefficient and involves nested square roots', ['results of a QR factorization are compared within 1e-6'])
b('P23', 'about 75 written expressions covering each operator on each kind of operand (matrix, diagonal, identity, multiple, expression, transposes, derivatives, parts, repeated and overlapping variables) and each comparison; symbolic matrices, scalars, vectors and values', 'the same', 'deeper nesting: the operators are templates, each expression is a program')
b('P24', 'solver events: every history of 4 additions, removals and changes over the items; problem events: histories of 4 events put in a queue, and of 5 operations on a problem with two listeners, including the reuse of the address of a destroyed object', 'one more operation', 'longer histories')
b('P25', 'every history of 3 operations among 15 (registration, release, move, destruction, callbacks that release others, changes) then a change, any object destroyed first; requirement sets built in 10 ways, symbolic values in [-3,5]', 'histories of 4 operations', 'a callback modifying its own manager')
b('P26', 'products of up to 2 factors (Euclidean of symbolic size, SO3, SE3, custom with symbolic sizes), associations in any order, variables created from them', '3 factors', 'larger sizes', [RINT])
b('P27', 'a symbolic time step, a symbolic number n of ticks in [0,100], copies and call graphs executed between the ticks; three more ticks and a copy from any number of ticks in [0, 2^62) (where a member ticks_ holds it)', 'n in [0,400]', 'clocks whose count is held elsewhere, beyond n ticks', [RINT])
b('P28', 'a nonlinear function of two variables (sizes 2 and 1) through chained updates, 7 outputs x 9 ways of passing values, 2 successive evaluations, 18 kinds of refused calls; derivative checks on a quadratic function with one symbolic group of values and an error of magnitude in [1,3] or none', '3 successive evaluations', 'errors smaller than the tolerance, other functions', ['finite differences are exact up to the tolerance of the check for the quadratic functions used'])
b('P29', 'every history of 4 operations (adding, removing 3 tasks, substitutions simple or grouped, updates) on a problem built empty or from another; symbolic data', 'histories of 5 operations', 'longer histories')
b('P30', 'abilities: any table of 3 entries with symbolic levels and flags, any symbolic requested level; schemes: histories of 3 changes of requirements with one resolution between, over the weighted and hierarchical schemes', '4 entries, one more change', 'longer histories')
b('P31', 'every history of 4 changes of a plane (by offset or point), velocities and accelerations, symbolic values; a call graph using any subset of its outputs', 'histories of 5 changes', 'normals that are not unit vectors (documented precondition)')
b('P32', 'the 5 wrappers with each of their options, problems over the items of P19 (7 hierarchies of up to 3 levels), built, changed once, rebuilt, minimum norm; symbolic coefficients, limits, weights and result', 'two changes, longer series of hierarchies', 'what the numerical libraries do with the data (not available here): P40', ['the libraries (LSSOL, QLD, Quadprog, LexLS) are replaced by stand-ins with the same interface that record their arguments and return an arbitrary symbolic point; the conventions of each library are those of its documentation'])
b('P33', 'all the dependency patterns (symbolic or enumerated edges) of graphs of 3 nodes with 2 outputs and updates, one of a derived class, through their 4 kinds of edges; a problem with 2 tasks of each kind of dynamics; symbolic values', 'more edges at once', 'larger graphs; nodes destroyed, or inputs removed, since they were logged (the log is never cleaned)')
b('P34', 'every history of a registration, two operations and a notification over 2 sources, 2 events, 3 listeners that may register or destroy others while notified', 'the first registration on any source and event', 'longer histories')
b('P35', 'graphs of 3 nodes (one of a derived class or not), each subset of 11 dependencies of all kinds and 2 requested outputs: the drawings of the whole, of a call graph, of what leads to an output, of each node', 'each subset of 17 dependencies, 2 groups of inputs, the log disabled for some time', 'larger graphs; the wording of the labels; nodes destroyed since they were logged')
b('P41', 'robots of 1 to 4 bodies with a free or fixed base, revolute, prismatic and spherical joints on two branches; symbolic positions, Jacobians, joint velocities and accelerations, inertia, targets, planes, nearest points, forces, limits; orientations among 3 rotations; each subset of the joints selected, contacts and collisions between two robots, with the environment, within a robot, 2 contacts of up to 2 points; identifiers of 32 values compared', 'all rows of the matrix of a contact, more orientations, all triples of identifiers', 'other joints and larger robots; the first step of the time derivative of the direction of a collision; contact frames of the equation of motion away from the origin of their body; the coefficients of the friction cones; what the parser reads in URDF files', ['RBDyn, SpaceVecAlg and sch-core are replaced by stand-ins with the same interface: the transforms follow the conventions of SpaceVecAlg, the Jacobians are symbolic and relative to the origin of the bodies, the angle-axis error of rotations is replaced by a polynomial one, the quantities become visible when the corresponding computation (kinematics, velocities...) is run'])
for i, d in B.items(): json.dump(d, open(f'{H}/{i}.json', 'w'), indent=1); open(f'{H}/{i}.json', 'a').write('\n')
