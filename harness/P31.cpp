// P31: a plane reports what it was given; offset and point are coherent for a plane given by a point.
#define VF_GRAPH
#include "vh.h"
#include <tvm/geometry/Plane.h>
using namespace tvm;
using namespace vf;
using Eigen::Vector3d;
namespace
{
Vector3d v3(const char * n) { return vec(n, 3); }
double dot3(const Vector3d & a, const Vector3d & b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
// moves the plane in its update
class Integrator : public graph::abstract::Node<Integrator>
{
public:
  SET_OUTPUTS(Integrator, P, V, A)
  SET_UPDATES(Integrator, Pos, Vel, Acc)
  Integrator(std::shared_ptr<geometry::Plane> p) : p(p.get())
  {
    registerUpdates(Update::Pos, &Integrator::pos, Update::Vel, &Integrator::vel, Update::Acc, &Integrator::acc);
    addOutputDependency(Output::P, Update::Pos);
    addOutputDependency(Output::V, Update::Vel);
    addOutputDependency(Output::A, Update::Acc);
  }
  void pos() { p->position(n, q); }
  void vel() { p->velocity(dn, dq); }
  void acc() { p->acceleration(ddn, ddq); }
  geometry::Plane * p;
  Vector3d n = v3("n"), q = v3("q"), dn = v3("dn"), dq = v3("dq"), ddn = v3("ddn"), ddq = v3("ddq");
};
void history()
{
  Vector3d n = v3("n"), pt = Vector3d::Zero(), dn = pt, dp = pt, ddn = pt, ddp = pt;
  double off = 0;
  std::unique_ptr<geometry::Plane> P;
  bool point = sym_choose("point", 2);
  if(point)
  {
    pt = v3("p");
    off = -dot3(n, pt);
    P = std::make_unique<geometry::Plane>(n, pt);
  }
  else
  {
    off = sym_real("off", -10, 10);
    P = std::make_unique<geometry::Plane>(n, off);
  }
  for(int k = 0; k < 4 + sym_tier(); ++k)
  {
    eqv(P->normal(), n, "normal");
    sym_check_eq(P->offset(), off, "offset");
    if(point) eqv(P->point(), pt, "point");
    if(point) sym_check_eq(dot3(P->normal(), P->point()) + P->offset(), 0, "the point is on the plane");
    eqv(P->normalDot(), dn, "velocity of the normal");
    eqv(P->speed(), dp, "velocity of the point");
    eqv(P->normalDotDot(), ddn, "acceleration of the normal");
    eqv(P->acceleration(), ddp, "acceleration of the point");
    switch(sym_choose("op", 5))
    {
      case 0:
        n = v3("n");
        pt = v3("p");
        off = -dot3(n, pt);
        P->position(n, pt);
        point = true;
        break;
      case 1:
        n = v3("n");
        off = sym_real("off", -10, 10);
        P->position(n, off);
        point = false; // the point is not updated in this case
        break;
      case 2:
        P->velocity(dn = v3("dn"), dp = v3("dp"));
        break;
      case 3:
        P->acceleration(ddn = v3("ddn"), ddp = v3("ddp"));
        break;
      default: // from its own data
        P->position(P->normal(), P->point());
        pt = P->point();
        off = -dot3(n, pt);
        point = true;
    }
  }
  sym_reach("history");
}
void integrator()
{
  auto P = std::make_shared<geometry::Plane>(v3("n"), v3("p"));
  auto I = std::make_shared<Integrator>(P);
  using O = Integrator::Output;
  if(sym_choose("by reference", 2))
    P->setIntegrator(*I, O::P, O::V, O::A);
  else
    P->setIntegrator(I, O::P, O::V, O::A);
  using PO = geometry::Plane::Output;
  int what = sym_choose("outputs", 8);
  Vector3d n = P->normal();
  if(what == 0) return;
  auto in = std::make_shared<graph::internal::Inputs>();
  if(what & 1) in->addInput(P, PO::Position);
  if(what & 2) in->addInput(P, PO::Velocity);
  if(what & 4) in->addInput(P, PO::Acceleration);
  graph::CallGraph g;
  g.add(in);
  g.update();
  for(int k = 0; k < 2; ++k)
  {
    g.execute();
    if(what & 1)
    {
      eqv(P->normal(), I->n, "normal from the integrator");
      eqv(P->point(), I->q, "point from the integrator");
      sym_check_eq(P->offset(), -dot3(I->n, I->q), "offset from the integrator");
    }
    else
      eqv(P->normal(), n, "not requested");
    eqv(P->normalDot(), what & 2 ? I->dn : Vector3d::Zero().eval(), "velocity from the integrator");
    eqv(P->speed(), what & 2 ? I->dq : Vector3d::Zero().eval(), "velocity from the integrator");
    eqv(P->normalDotDot(), what & 4 ? I->ddn : Vector3d::Zero().eval(), "acceleration from the integrator");
    eqv(P->acceleration(), what & 4 ? I->ddq : Vector3d::Zero().eval(), "acceleration from the integrator");
    I->n = v3("n");
    I->q = v3("q");
  }
  sym_reach("integrator");
}
} // namespace
void harness()
{
  if(sym_choose("part", 2))
    history();
  else
    integrator();
}
