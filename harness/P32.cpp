// P32: the problem each back-end passes to its numerical library is the one of the constraints, bounds and objectives it was
// given, after any history of changes. The libraries are replaced by stand-ins recording what they are asked to solve.
#include <solver/QLDLeastSquareSolver.cpp>
#include <solver/QuadprogLeastSquareSolver.cpp>
#include <solver/LSSOLLeastSquareSolver.cpp>
#include <solver/LexLSLeastSquareSolver.cpp>
#include "p19.h"
void harness()
{
  using namespace tvm::solver;
  int kind = sym_choose("solver", 6);
  std::unique_ptr<abstract::LSSolverFactory> f;
  double chol = 0, damp = 0;
  bool boundsAsRows = false;
  switch(kind)
  {
    case 0: f = std::make_unique<QLDLSSolverFactory>(QLDLSSolverOptions().choleskyDamping(0.5)); break; // (without effect)
    case 1:
      f = std::make_unique<QLDLSSolverFactory>(QLDLSSolverOptions().cholesky(true).choleskyDamping(0.5));
      chol = 0.5;
      break;
    case 2:
    case 3:
      f = std::make_unique<QuadprogLSSolverFactory>(QuadprogLSSolverOptions().cholesky(kind == 3).choleskyDamping(0.5).damping(0.25));
      (kind == 3 ? chol : damp) = kind == 3 ? 0.5 : 0.25;
      boundsAsRows = true;
      break;
    case 4: f = std::make_unique<LSSOLLSSolverFactory>(LSSOLLSSolverOptions()); break;
    default: f = std::make_unique<LexLSLSSolverFactory>(LexLSLSSolverOptions().warmStart(sym_choose("warm start", 2)));
  }
  auto s = f->clone()->createSolver();
  World W(chol > 0);
  auto adapt = [&](rec::Problem & p) {
    VectorXd d = VectorXd::Constant(p.n, damp);
    if(chol && int(p.ls.size()) < p.n) d.setConstant(chol * chol);
    if(p.n == 0) sym_cut("no variable");
    if(chol || damp) rec::last.Q.diagonal() -= d;
    if(boundsAsRows)
      for(int i = 0; i < p.n; ++i)
        for(bool low : {true, false})
        {
          double & b = low ? p.xl[i] : p.xu[i];
          rec::Row r;
          r.a = VectorXd::Zero(p.n);
          r.a[i] = low ? 1 : -1;
          r.b = low ? b : -b;
          if(!rec::isBig(b)) p.ge.push_back(r);
          b = low ? -rec::big : rec::big;
        }
  };
  if(sym_choose("minimum norm", 2))
  {
    for(int i : {0, 1, 3}) W.in[i] = true;
    W.vars.add(W.x);
    W.vars.add(W.y);
    int n = W.vars.variables().totalSize();
    s->startBuild(W.vars.variables(), n, 1, 2, true);
    s->addConstraint(W.items[0].c);
    s->addConstraint(W.items[1].c);
    s->setMinimumNorm();
    s->addBound(W.items[3].c);
    s->finalizeBuild();
    for(int k = 0; k < 2; ++k)
      check(*s, W, [&](rec::Problem & p) {
        for(int i = 0; i < p.n; ++i) p.ls.push_back(rec::row(MatrixXd::Identity(p.n, p.n), VectorXd::Zero(p.n), i));
        double c = chol, d = damp;
        chol = damp = 0;
        adapt(p);
        chol = c;
        damp = d;
      });
    // and then an ordinary problem
    W.in[2] = true;
    W.vars.add(W.z);
    build(*s, W);
    check(*s, W, adapt);
    sym_reach("minimum norm");
    return;
  }
  history(*s, W, adapt, 1 + sym_tier());
  sym_reach("end");
}
