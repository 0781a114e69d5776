#!/usr/bin/env python3
"""DESIGN.md from tools/DESIGN.in.md: table of the properties, planted changes (tools/caught.txt: id<TAB>checks), mutants (tools/mutants.md)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOW = {
'P01': ('Variable.cpp', 'a model of the chains (base, order, values) predicts every query after each operation, and after the other handles are dropped'),
'P02': ('Variable.cpp, Range.h', 'index ranges computed from the sizes of the factors of the space; what is written through one part is read through all the others'),
'P03': ('VariableVector.cpp', 'a list model of the contents; mapping, value, membership and index queries for each variable of a pool after each operation'),
'P04': ('RangeCounting.cpp', 'the count at an arbitrary symbolic index, as a sum over the history, against the ranges reported'),
'P05': ('VariableCountingVector.cpp, VariableVectorPartition.h', 'counts per coefficient'),
'P06': ('MatrixProperties.cpp', 'a symbolic 2x2 matrix satisfying the operands; each claim on the result is a polynomial obligation on the computed matrix'),
'P07': ('DependencyGraph.cpp', 'transitive closure of the symbolic adjacency matrix'),
'P08': ('CallGraph.cpp, Node.hpp, Inputs', 'set of needed updates computed from the declarations; trace of the execution'),
'P09': ('Outputs.h, OutputSelector.h, Inputs.hpp, Node.hpp', 'masks (static, dynamic) per output, set of recorded inputs'),
'P10': ('BasicLinearFunction.cpp, BasicLinearConstraint.cpp, FirstOrderProvider.cpp, LinearFunction.cpp', 'A x + b computed coordinate by coordinate'),
'P11': ('LinearizedTaskConstraint.cpp, Task.cpp', 'the derivative of order k written out; the dynamics are symbolic functions'),
'P12': ('task_dynamics/*', 'the documented formulas'),
'P13': ('Clamped.h', 'a factor exists: for all values, within bounds, collinear, and equal to the largest one (obligations without division)'),
'P14': ('VelocityDamper.cpp', 'the documented law per component, a model of the zones over the history'),
'P15': ('Assignment.cpp, AssignmentTarget.cpp', 'the set of solutions of the rows read in the convention of the target against that of the source, coefficient by coefficient'),
'P16': ('Assignment.cpp, hint/*', 'as P15 after replacing the variables by the symbolic substitutions'),
'P17': ('Assignment.cpp/.hpp (bounds)', 'intersection of the intervals, multiplied out to avoid divisions'),
'P18': ('CompiledAssignment.h, CompiledAssignmentWrapper.h', 'target op (weight * source * multiplier), and the surroundings of the target'),
'P19': ('LeastSquareSolver.cpp, SolverEvents.h', 'the rows of the items present, matched as sets, in the matrices held by a recording back-end'),
'P20': ('WeightedLeastSquares.cpp, LinearizedControlProblem.cpp, helpers.cpp', 'the rows of the tasks, from their data; the point returned by the solver is symbolic'),
'P21': ('HierarchicalLeastSquares.cpp, HierarchicalLeastSquareSolver.cpp', 'as P20, level by level'),
'P22': ('hint/*', 'the constraints after replacement are identically satisfied; injectivity through minors'),
'P23': ('AffineExpr*.h, ProtoTask*.h', 'J and b accumulated term by term for each written expression'),
'P24': ('SolverEvents.h, ProblemComputationData.h, ProblemDefinitionEvent.h', 'sets of the items present before and after'),
'P25': ('SingleSolvingRequirement.h, CallbackManager.h, PairElementToken.h', 'a model of the tokens alive, numbers of calls and value seen at each call'),
'P26': ('Space.cpp, Variable.cpp', 'sums of symbolic sizes'),
'P27': ('Clock.cpp', 'the number of calls'),
'P28': ('UpdatelessFunction.cpp, checkFunction.cpp', 'the function written out'),
'P29': ('ControlProblem.cpp, LinearizedControlProblem.cpp', 'a list model, and the data of the constraints after an update'),
'P30': ('SchemeAbilities.cpp, ResolutionScheme.h, both schemes', 'the documented precedence of the abilities; after an error, the next resolution is that of the current problem'),
'P31': ('Plane.cpp', 'what was given last'),
'P32': ('solver/* wrappers', 'the problem in the conventions of each library, read from the arguments of the recorded call'),
'P33': ('GraphProbe.cpp, Log.cpp, Logger.cpp, matrix.h', 'a search in the edges drawn by the harness'),
'P34': ('Source.cpp, Listener.cpp', 'the list of the registrations of living listeners'),
'P41': ('Robot.cpp, robot/*.cpp, with stand-ins for RBDyn, SpaceVecAlg, sch-core', 'the mechanics of a point fixed to a moving body, written out from the Jacobians of the bodies'),
'P35': ('Log.cpp, Logger.h', 'the edges drawn by the harness, the dot text being parsed'),
}
rows = []
for l in open(V + '/properties.jsonl'):
    d = json.loads(l)
    if d['id'] not in HOW: continue
    h = json.load(open(f"{V}/harness/{d['id']}.json"))
    rows.append(f"### {d['id']} {d['title']}\n\nCode: {HOW[d['id']][0]}. Oracle: {HOW[d['id']][1]}.\n\nBounds: {h['bounds']}." + (''.join(f' Assumes: {a}.' for a in h['assumptions'] if not a.startswith(('doubles are', 'the choices')))) + '\n')
caught = dict(l.rstrip('\n').split('\t', 1) for l in open(V + '/tools/caught.txt')) if os.path.exists(V + '/tools/caught.txt') else {}
seeds = ['| change | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for s in sorted(os.listdir(V + '/seeded')) if os.path.isdir(V + '/seeded') else []:
    m = json.load(open(f'{V}/seeded/{s}/meta.json'))
    seeds.append(f"| {s} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {caught.get(s, m['property'])} |")
mut = open(V + '/tools/mutants.md').read() if os.path.exists(V + '/tools/mutants.md') else ''
t = open(V + '/tools/DESIGN.in.md').read().replace('@TABLE@', '\n'.join(rows)).replace('@SEEDS@', '\n'.join(seeds)).replace('@MUT@', mut.strip())
open(V + '/DESIGN.md', 'w').write(t)
