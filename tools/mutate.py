#!/usr/bin/env python3
"""mutate.py OUT N SEED [file-substring...]: draws N textual mutants (per file, spread over its lines) of the repository's sources, runs the
checks of the file's properties on each (first on the checks; the survivors are then built and tested), and writes one line per mutant to OUT.
Uses a scratch copy of the repository ($MUT_REPO) and of /verif ($MUT_VERIF)."""
import sys, os, re, random, subprocess, shutil
R = os.environ.get('MUT_REPO', '/tmp/w/repo'); V = os.environ.get('MUT_VERIF', '/tmp/w/verif')
MAP = [
 ('src/Variable.cpp', 'P01 P02'), ('src/VariableVector.cpp', 'P03'), ('src/internal/RangeCounting.cpp', 'P04'), ('include/tvm/Range.h', 'P02 P04'),
 ('src/internal/VariableCountingVector.cpp', 'P05'), ('include/tvm/internal/VariableVectorPartition.h', 'P05'),
 ('src/internal/MatrixProperties.cpp', 'P06'), ('include/tvm/internal/MatrixProperties.h', 'P06'), ('include/tvm/internal/MatrixWithProperties.h', 'P10 P06 P15'),
 ('src/graph/DependencyGraph.cpp', 'P07'), ('src/graph/CallGraph.cpp', 'P08'), ('include/tvm/graph/CallGraph.h', 'P08'),
 ('include/tvm/graph/abstract/Outputs.h', 'P09'), ('include/tvm/graph/abstract/OutputSelector.h', 'P09'), ('include/tvm/graph/abstract/Node.hpp', 'P09 P08'),
 ('include/tvm/graph/internal/Inputs.hpp', 'P09 P08'), ('include/tvm/graph/internal/Inputs.h', 'P09 P08'), ('include/tvm/graph/internal/AbstractNode.h', 'P09 P08'),
 ('src/function/BasicLinearFunction.cpp', 'P10'), ('include/tvm/function/BasicLinearFunction.h', 'P10 P23'), ('src/function/LinearFunction.cpp', 'P10'),
 ('src/function/Function.cpp', 'P10 P11'), ('src/function/IdentityFunction.cpp', 'P10'), ('src/internal/FirstOrderProvider.cpp', 'P10 P11'),
 ('include/tvm/internal/FirstOrderProvider.h', 'P10 P11'), ('src/constraint/BasicLinearConstraint.cpp', 'P10 P15'), ('src/constraint/LinearConstraint.cpp', 'P10 P11'),
 ('src/constraint/Constraint.cpp', 'P10 P11 P15'), ('include/tvm/utils/internal/MapWithVariableAsKey.h', 'P10 P11'), ('include/tvm/constraint/internal/RHSVectors.h', 'P10 P11 P15'),
 ('src/constraint/LinearizedTaskConstraint.cpp', 'P11'), ('include/tvm/constraint/internal/LinearizedTaskConstraint.h', 'P11'), ('src/Task.cpp', 'P11'),
 ('src/task_dynamics/TaskDynamicsImpl.cpp', 'P12'), ('src/task_dynamics/Constant.cpp', 'P12'), ('src/task_dynamics/None.cpp', 'P12'), ('src/task_dynamics/OneStepToZero.cpp', 'P12'),
 ('src/task_dynamics/Proportional.cpp', 'P12'), ('src/task_dynamics/ProportionalDerivative.cpp', 'P12'), ('src/task_dynamics/Reference.cpp', 'P12'),
 ('include/tvm/task_dynamics/FeedForward.h', 'P12'), ('include/tvm/task_dynamics/Clamped.h', 'P13'), ('src/task_dynamics/VelocityDamper.cpp', 'P14'),
 ('src/scheme/Assignment.cpp', 'P15 P16 P17'), ('include/tvm/scheme/internal/Assignment.hpp', 'P15 P16 P17'), ('src/scheme/AssignmentTarget.cpp', 'P15 P17'),
 ('include/tvm/scheme/internal/CompiledAssignment.h', 'P18 P15'), ('include/tvm/scheme/internal/CompiledAssignmentWrapper.h', 'P18 P15'),
 ('src/solver/LeastSquareSolver.cpp', 'P19 P20'), ('include/tvm/solver/abstract/LeastSquareSolver.h', 'P19 P20'), ('src/scheme/WeightedLeastSquares.cpp', 'P20 P30'),
 ('src/scheme/helpers.cpp', 'P20 P21'), ('src/scheme/HierarchicalLeastSquares.cpp', 'P21 P30'), ('src/solver/HierarchicalLeastSquareSolver.cpp', 'P21'),
 ('include/tvm/solver/abstract/HierarchicalLeastSquareSolver.h', 'P21'), ('src/hint/Substitution.cpp', 'P22'), ('src/hint/Substitutions.cpp', 'P22'),
 ('src/hint/SubstitutionUnit.cpp', 'P22'), ('src/hint/SubstitutionCalculatorImpl.cpp', 'P22'), ('src/hint/GenericCalculator.cpp', 'P22'), ('src/hint/DiagonalCalculator.cpp', 'P22'),
 ('include/tvm/utils/AffineExpr.h', 'P23'), ('include/tvm/utils/internal/AffineExprOperators.h', 'P23'), ('include/tvm/utils/internal/AffineExprDetail.h', 'P23'),
 ('include/tvm/utils/ProtoTask.h', 'P23'), ('include/tvm/utils/internal/ProtoTaskDetails.h', 'P23'),
 ('include/tvm/solver/internal/SolverEvents.h', 'P24 P19'), ('include/tvm/scheme/internal/ProblemComputationData.h', 'P24'), ('src/scheme/ProblemComputationData.cpp', 'P24'),
 ('include/tvm/requirements/abstract/SingleSolvingRequirement.h', 'P25'), ('include/tvm/requirements/AnisotropicWeight.h', 'P25'), ('src/requirements/PriorityLevel.cpp', 'P25'),
 ('src/requirements/Weight.cpp', 'P25'), ('include/tvm/internal/CallbackManager.h', 'P25'), ('include/tvm/internal/PairElementToken.h', 'P25'), ('include/tvm/requirements/SolvingRequirements.h', 'P25'),
 ('src/Space.cpp', 'P26'), ('include/tvm/Space.h', 'P26'), ('src/Clock.cpp', 'P27'), ('src/utils/UpdatelessFunction.cpp', 'P28'), ('include/tvm/utils/UpdatelessFunction.h', 'P28'),
 ('src/utils/checkFunction.cpp', 'P28'), ('src/ControlProblem.cpp', 'P29 P20'), ('src/LinearizedControlProblem.cpp', 'P29 P20'), ('src/scheme/SchemeAbilities.cpp', 'P30'),
 ('include/tvm/scheme/internal/SchemeAbilities.h', 'P30'), ('include/tvm/scheme/abstract/ResolutionScheme.h', 'P20 P30'), ('src/geometry/Plane.cpp', 'P31'),
 ('src/solver/LSSOLLeastSquareSolver.cpp', 'P32'), ('src/solver/QLDLeastSquareSolver.cpp', 'P32'), ('src/solver/QuadprogLeastSquareSolver.cpp', 'P32'),
 ('src/solver/LexLSLeastSquareSolver.cpp', 'P32'), ('src/solver/LexLSHierarchicalLeastSquareSolver.cpp', 'P32'),
 ('src/graph/Log.cpp', 'P35 P33'), ('src/graph/Logger.cpp', 'P35 P33'), ('include/tvm/graph/internal/Logger.h', 'P35 P33'), ('src/event/Source.cpp', 'P34'), ('src/event/Listener.cpp', 'P34')] + [
 (f'src/{x}.cpp', 'P41') for x in 'Robot robot/CoMFunction robot/CoMInConvexFunction robot/CollisionFunction robot/Contact robot/ConvexHull robot/DynamicFunction robot/Frame robot/GeometricContactFunction robot/JointsSelector robot/OrientationFunction robot/PositionFunction robot/PostureFunction robot/utils utils/sch'.split()] + [
 ('include/tvm/robot/Contact.h', 'P41')]
def muts(line):
    s = line.strip()
    if not s or s.startswith(('//', '*', '/*', '#', 'assert', 'throw', 'template', 'using', 'namespace', 'typedef', 'static_assert', 'class', 'struct', ': ', 'case ', 'TVM_', 'SET_', 'DISABLE_', 'ss <<', '<<', 'friend', 'enum')): return
    if '"' in s or 'throw' in s: return
    code = line.split('//')[0]
    def rep(pat, subs):
        for m in re.finditer(pat, code):
            for t in subs: yield code[:m.start()] + t + code[m.end():]
    yield from rep(r' < ', [' <= ']); yield from rep(r' <= ', [' < ']); yield from rep(r' > ', [' >= ']); yield from rep(r' >= ', [' > '])
    yield from rep(r' == ', [' != ']); yield from rep(r' != ', [' == ']); yield from rep(r' && ', [' || ']); yield from rep(r' \|\| ', [' && '])
    yield from rep(r' \+ ', [' - ']); yield from rep(r'(?<=[\w\)\]]) - ', [' + ']); yield from rep(r' \+= ', [' -= ', ' = ']); yield from rep(r' -= ', [' += ', ' = '])
    yield from rep(r'\btrue\b', ['false']); yield from rep(r'\bfalse\b', ['true']); yield from rep(r'(?<![\w.])0(?![\w.])', ['1']); yield from rep(r'(?<![\w.<])1(?![\w.>])', ['0', '2'])
    yield from rep(r'\bcontinue;', ['break;']); yield from rep(r'\bbreak;', [';']); yield from rep(r' \* ', [' + ']) if '=' in s and '*' in s and 'auto' not in s else ()
    m = re.match(r'(\s*(?:else )?if\()(.*)(\)\s*)$', code.rstrip('\n'))
    if m and m.group(2).count('(') == m.group(2).count(')'):
        for t in ('!(' + m.group(2) + ')', 'true', 'false'): yield m.group(1) + t + m.group(3) + '\n'
    m = re.match(r'(\s*return )(.*);\s*$', code)
    if m and re.search(r'==|!=|<|>|&&|\|\||^!|true|false', m.group(2)) and '->' not in m.group(2): yield m.group(1) + '!(' + m.group(2) + ');\n'
    if s.endswith(';') and not s.startswith(('return', 'break', 'continue', 'const ', 'auto', 'int ', 'double ', 'bool ', 'std::', 'Eigen::', 'private', 'public', 'virtual')) and re.match(r'[\w>.\-\[\]\(\)\*]+(\(.*\)|\s[-+*/]?=\s.*|\+\+|--)?;', s) \
       and ('(' in s or '=' in s): yield re.match(r'\s*', code).group(0) + ';\n'
    for a, b in (('MAX', 'MIN'), ('MIN', 'MAX'), ('ADD', 'SUB'), ('SUB', 'ADD'), ('COPY', 'ADD'), ('rSize', 'tSize'), ('tSize', 'rSize'), ('.rows()', '.cols()'), ('.cols()', '.rows()'), ('head', 'tail'), ('LOWER_THAN', 'GREATER_THAN'), ('GREATER_THAN', 'LOWER_THAN'),
                 ('OPPOSITE', 'AS_GIVEN'), ('AS_GIVEN', 'ZERO'), ('push_back', 'size_t'), ('front()', 'back()'), ('back()', 'front()')):
        yield from rep(r'(?<![\w])' + re.escape(a) + (r'(?!\w)' if a[-1].isalnum() else ''), [b])
def sh(c): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def main():
    out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); only = sys.argv[4:]
    rnd = random.Random(seed); todo = []
    for f, props in MAP:
        if only and not any(o in f for o in only): continue
        if not os.path.exists(f'{R}/{f}'): print('no', f); continue
        L = open(f'{R}/{f}').readlines()
        c = [(k, m) for k, l in enumerate(L) for m in dict.fromkeys(muts(l)) if m != l]
        rnd.shuffle(c)
        want = max(2, min(n, len(L) * n // 250)); seen = set(); pick = []
        for k, m in c:
            if k in seen: continue
            seen.add(k); pick.append((k, m))
            if len(pick) >= want: break
        todo += [(f, props, k, m) for k, m in pick]
    rnd.shuffle(todo)
    w = os.environ.get('MUT_PART')
    if w: a, b = map(int, w.split('/')); todo = todo[a::b]
    print(len(todo), 'mutants', flush=True)
    done = set(l.split('\t')[1] for l in open(out)) if os.path.exists(out) else set()
    for f, props, k, m in todo:
        key = f'{f}:{k+1}:{m.strip()}'
        if key in done: continue
        L = open(f'{R}/{f}').readlines(); old = L[k].strip(); L[k] = m
        open(f'{R}/{f}', 'w').writelines(L)
        res = 'MISSED'
        for p in props.split():
            r = sh(f'cd {V} && SYMTVM_REPO={R} timeout 900 python3 bin/symtvm.py check {p}')
            if r.returncode == 1: res = 'caught ' + p; break
            if r.returncode != 0:
                res = 'invalid ' + p + ' rc %d ' % r.returncode + (r.stdout.strip().splitlines() or [''])[-1][:80]
                if 'error:' in r.stdout or 'ompil' in r.stdout: break
                break
        if res == 'MISSED':
            t = sh(f'SEED_REPO={R} bash /verif/tools/seed.sh tests').stdout.strip()
            res = 'MISSED (%s)' % t[:90]
        open(out, 'a').write(f'{res}\t{key}\t[{old}]\n')
        sh(f'git -C {R} checkout -q -- .')
main()
