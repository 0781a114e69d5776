// P41: the robot functions are consistent with what the rigid-body library reports: the library is replaced by a stand-in whose
// quantities (positions, Jacobians, velocities...) are symbolic and become visible when the corresponding computation is run.
#define VF_GRAPH
#include "vh.h"
#include <Robot.cpp>
#include <robot/CoMFunction.cpp>
#include <robot/CoMInConvexFunction.cpp>
#include <robot/CollisionFunction.cpp>
#include <robot/Contact.cpp>
#include <robot/ConvexHull.cpp>
#include <robot/DynamicFunction.cpp>
#include <robot/Frame.cpp>
#include <robot/FrictionCone.cpp>
#include <robot/GeometricContactFunction.cpp>
#include <robot/JointsSelector.cpp>
#include <robot/OrientationFunction.cpp>
#include <robot/PositionFunction.cpp>
#include <robot/PostureFunction.cpp>
#include <robot/utils.cpp>
#include <utils/sch.cpp>
#include <set>
using namespace tvm;
using namespace tvm::robot;
using namespace vf;
using Eigen::Matrix3d;
using Eigen::Vector3d;
using Eigen::Vector6d;
using F = function::abstract::Function;
namespace
{
// what the collision library reports
Vector3d near1, near2;
double dist2 = 4;
Vector3d v3(const char * n) { return vec(n, 3); }
Vector6d v6(const char * n) { return vec(n, 6); }
Matrix3d rot(int i)
{
  Matrix3d R;
  switch(i)
  {
    case 0: R << 1, 0, 0, 0, 1, 0, 0, 0, 1; break;
    case 1: R << 0, 1, 0, -1, 0, 0, 0, 0, 1; break;
    default: R << 0, 0, -1, 1, 0, 0, 0, -1, 0; break;
  }
  return R;
}
double closest(sch::CD_Pair & p, sch::Point3 & a, sch::Point3 & b)
{
  sym_check(p.a_->placed && p.b_->placed, "the hulls are placed");
  for(int i = 0; i < 3; ++i)
  {
    a[i] = near1[i];
    b[i] = near2[i];
  }
  return dist2;
}
sva::PTransformd placed(const sch::S_Object & o)
{
  Matrix3d R;
  Vector3d t;
  for(int i = 0; i < 3; ++i)
  {
    t(i) = o.m(i, 3);
    for(int j = 0; j < 3; ++j) R(j, i) = o.m(i, j);
  }
  return {R, t};
}
Matrix3d anyRot(const char * n) { return rot(sym_choose(n, 3)); }
MatrixXd hatM(const Vector3d & v)
{
  MatrixXd h(3, 3);
  h << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0;
  return h;
}
// New values of everything the library computes. Bodies: 0 (root), 1 (a), 2 (b, on 1), 3 (c, on 1).
void newState(const rbd::MultiBody & mb, rbd::MultiBodyConfig & m, const Matrix3d & R)
{
  int n = mb.nrDof();
  auto & s = m.next;
  s.alphaV = vec("alpha", n);
  int nb = mb.nrBodies();
  s.bodyPosW.resize(nb);
  s.J.resize(nb);
  s.parentToSon.assign(nb, sva::PTransformd());
  s.jointConfig.assign(nb, sva::PTransformd());
  s.jointVelocity.resize(nb);
  for(int b = 0; b < nb; ++b)
  {
    s.bodyPosW[b] = sva::PTransformd(R, v3("p"));
    s.J[b] = MatrixXd::Zero(6, n);
    for(int k = b; k != -1; k = mb.pred[k])
      for(int d = 0; d < mb.j[k].dof(); ++d) s.J[b].col(mb.jointPosInDof(k) + d) = v6("J");
    s.jointVelocity[b] = sva::MotionVecd(v6("jointVel"));
    s.parentToSon[b] = sva::PTransformd(rot(b % 3), v3("Xps"));
    s.jointConfig[b] = sva::PTransformd(rot((b + 1) % 3));
  }
  s.comJ = mat("comJ", 3, n);
  s.comJdot = mat("comJdot", 3, n);
  s.com = v3("com");
  s.C = vec("C", n);
  s.H = n ? mat("H", 1, n).replicate(n, 1) : MatrixXd(0, 0);
  for(int i = 0; i < n; ++i) s.H(i, i) += i + 1;
}
RobotPtr makeRobot(Clock & clk, const std::string & name, bool free, const Matrix3d & R, bool small = false, const rbd::parsers::Limits & l = {{}, {}, {}, {}}, bool mobile = true)
{
  rbd::MultiBody mb;
  rbd::MultiBodyConfig m;
  int nb = !mobile ? 1 : small ? 2 : 4;
  const char * jn[] = {"root", "a", "b", "c"};
  const char * bn[] = {"b0", "b1", "b2", "b3"};
  int pred[] = {-1, 0, 1, 1};
  rbd::Joint::Type ty[] = {free ? rbd::Joint::Free : rbd::Joint::Fixed, rbd::Joint::Rev, rbd::Joint::Spherical, rbd::Joint::Prism};
  for(int i = 0; i < nb; ++i)
  {
    rbd::Body b;
    b.n = bn[i];
    b.I.m = i + 1;
    mb.b.push_back(b);
    rbd::Joint j;
    j.n = jn[i];
    j.t = ty[i];
    mb.j.push_back(j);
    mb.pred.push_back(pred[i]);
    mb.succ.push_back(i);
    std::vector<double> q(j.params()), a(j.dof()), ad(j.dof());
    for(auto & x : q) x = sym_real("q", -3, 3);
    for(auto & x : a) x = sym_real("a", -3, 3);
    m.q.push_back(q);
    m.alpha.push_back(a);
    m.alphaD.push_back(ad);
  }
  mb.finish();
  m.bodyVelW.resize(nb);
  m.bodyVelB.resize(nb);
  m.bodyAccB.resize(nb);
  newState(mb, m, R);
  m.bodyPosW = m.next.bodyPosW;
  rbd::MultiBodyGraph g;
  return std::make_shared<Robot>(clk, name, g, mb, m, l);
}
// what is expected of a point fixed to a body, at rho (world axes) of its origin
struct Expected
{
  Expected(const Robot & r, int b, const Vector3d & local, const Matrix3d & Ebf)
  {
    const auto & m = r.mbc();
    const auto & s = m.next;
    Matrix3d Rt = s.bodyPosW[b].rotation().transpose();
    Vector3d rho = Rt * local;
    pos = s.bodyPosW[b].translation() + rho;
    rotation = Ebf * s.bodyPosW[b].rotation();
    J = s.J[b];
    MatrixXd top = J.topRows(3);
    J.bottomRows(3) -= mul(hatM(rho), top);
    vel = mul(J, s.alphaV);
    // the normal acceleration of the bodies
    std::vector<sva::MotionVecd> n(r.mb().nrBodies());
    for(int i = 0; i < r.mb().nrBodies(); ++i)
    {
      Matrix3d E = s.bodyPosW[i].rotation();
      Vector6d vw = s.J[i] * s.alphaV;
      Vector3d w = E * vw.head<3>(), v = E * vw.tail<3>();
      Vector3d jw = s.jointVelocity[i].angular(), jv = s.jointVelocity[i].linear();
      Vector3d a = w.cross(jw), l = w.cross(jv) + v.cross(jw);
      int p = r.mb().pred[i];
      if(p >= 0)
      {
        const auto & X = s.parentToSon[i];
        a += X.rotation() * n[p].angular();
        l += X.rotation() * (n[p].linear() - X.translation().cross(n[p].angular()));
      }
      n[i] = sva::MotionVecd(a, l);
    }
    // (spatial to classical, and from the origin of the body to the point)
    Vector3d w = vel.topRows(3), v0 = mul(s.J[b], s.alphaV).bottomRows(3);
    Vector3d aw = Rt * n[b].angular(), al = Rt * n[b].linear() + w.cross(v0);
    nacc = MatrixXd(6, 1);
    nacc.topRows(3) = aw;
    nacc.bottomRows(3) = al + aw.cross(rho) + w.cross(Vector3d(w.cross(rho)));
  }
  Vector3d pos;
  Matrix3d rotation;
  MatrixXd J, vel, nacc;
};
// the part of a function's Jacobian in the joints of r, in the order of its degrees of freedom
MatrixXd fullJ(const F & f, const Robot & r)
{
  MatrixXd J = MatrixXd::Zero(f.size(), r.mb().nrDof());
  int c = 0;
  for(const auto & v : r.q())
  {
    MatrixXd b = f.jacobian(*v);
    J.middleCols(c, v->space().tSize()) = b;
    c += v->space().tSize();
  }
  return J;
}
template<typename T>
void runAll(const std::shared_ptr<T> & f)
{ run(f, F::Output::Value, F::Output::Velocity, F::Output::NormalAcceleration, F::Output::Jacobian); }

void frames()
{
  Clock clk(0.5);
  bool free = sym_choose("free", 2);
  auto r = makeRobot(clk, "r", free, sym_tier() ? anyRot("R0") : rot(1), !free && sym_tier() == 0);
  int b = sym_choose("body", r->mb().nrBodies());
  Matrix3d Ebf = anyRot("Ebf");
  Vector3d t = v3("t");
  auto f = std::make_shared<Frame>("f", r, r->mb().body(b).name(), sva::PTransformd(Ebf, t));
  auto same = [&](const char * msg) {
    Expected e(*r, b, t, Ebf);
    eqv(f->position().translation(), e.pos, msg);
    eqv(f->position().rotation(), e.rotation, msg);
    MatrixXd J = f->jacobian();
    eqv(J, e.J, msg);
    eqv(f->velocity().vector(), e.vel, msg);
    eqv(f->normalAcceleration().vector(), e.nacc, msg);
  };
  sym_check(f->body() == r->mb().body(b).name() && f->name() == "f" && &f->robot() == r.get(), "the frame tells what it was created from");
  same("a frame is initialized with its state");
  auto pf = std::make_shared<PositionFunction>(f);
  auto of = std::make_shared<OrientationFunction>(f);
  Vector3d p0 = f->position().translation();
  Matrix3d R0 = f->position().rotation();
  newState(r->mb(), r->mbc(), anyRot("R1"));
  switch(sym_choose("what", 3))
  {
    case 0: {
      // each output alone is up to date
      auto o = sym_choose("output", 4);
      Expected e(*r, b, t, Ebf);
      if(o == 0)
      {
        run(f, Frame::Output::Position);
        eqv(f->position().translation(), e.pos, "the position of a frame is up to date");
        eqv(f->position().rotation(), e.rotation, "the orientation of a frame is up to date");
      }
      else if(o == 1)
      {
        run(f, Frame::Output::Jacobian);
        MatrixXd J = f->jacobian();
        eqv(J, e.J, "the Jacobian of a frame is up to date");
      }
      else if(o == 2)
      {
        run(f, Frame::Output::Velocity);
        eqv(f->velocity().vector(), e.vel, "the velocity of a frame is up to date");
      }
      else
      {
        run(f, Frame::Output::NormalAcceleration);
        eqv(f->normalAcceleration().vector(), e.nacc, "the normal acceleration of a frame is up to date");
      }
      break;
    }
    case 1: {
      bool objective = sym_choose("objective", 2);
      Vector3d target = p0;
      if(objective) pf->position(target = v3("target"));
      runAll(pf);
      same("the frame is up to date when a function of it is");
      Expected e(*r, b, t, Ebf);
      eqv(pf->value(), Vector3d(e.pos - target), "value of a position function");
      eqv(pf->velocity(), e.vel.bottomRows(3), "velocity of a position function");
      eqv(pf->normalAcceleration(), e.nacc.bottomRows(3), "normal acceleration of a position function");
      eqv(fullJ(*pf, *r), e.J.bottomRows(3), "Jacobian of a position function");
      eqv(mul(fullJ(*pf, *r), r->mbc().next.alphaV), pf->velocity(), "the velocity is the Jacobian times the velocities of the joints");
      pf->reset();
      runAll(pf);
      eqv(pf->value(), Vector3d(Vector3d::Zero()), "a reset function is null");
      sym_reach("position");
      break;
    }
    default: {
      Matrix3d target = R0;
      if(sym_choose("objective", 2)) of->orientation(target = anyRot("target"));
      runAll(of);
      Expected e(*r, b, t, Ebf);
      eqv(of->value(), sva::rotationError(target, e.rotation), "value of an orientation function");
      eqv(of->velocity(), e.vel.topRows(3), "velocity of an orientation function");
      eqv(of->normalAcceleration(), e.nacc.topRows(3), "normal acceleration of an orientation function");
      eqv(fullJ(*of, *r), e.J.topRows(3), "Jacobian of an orientation function");
      of->reset();
      runAll(of);
      eqv(of->value(), Vector3d(Vector3d::Zero()), "a reset function is null");
      sym_reach("orientation");
    }
  }
}
void com()
{
  Clock clk(0.5);
  bool free = sym_choose("free", 2);
  auto r = makeRobot(clk, "r", free, rot(0));
  sym_check_eq(r->mass(), 10, "mass of the robot");
  Vector3d target = r->com();
  eqv(target, r->mbc().next.com, "the center of mass is initialized");
  if(sym_choose("convex", 2) == 0)
  {
    auto f = std::make_shared<CoMFunction>(r);
    newState(r->mb(), r->mbc(), rot(1));
    if(sym_choose("objective", 2)) f->com(target = v3("target"));
    run(f, F::Output::Value, F::Output::Velocity, F::Output::NormalAcceleration, F::Output::Jacobian, F::Output::JDot);
    const auto & s = r->mbc().next;
    eqv(f->value(), Vector3d(s.com - target), "value of the function of the center of mass");
    eqv(f->velocity(), mul(s.comJ, s.alphaV), "its velocity");
    eqv(f->normalAcceleration(), mul(s.comJdot, s.alphaV), "its normal acceleration");
    eqv(fullJ(*f, *r), s.comJ, "its Jacobian");
    int c = 0;
    for(const auto & v : r->q())
    {
      MatrixXd b = f->JDot(*v);
      eqv(b, s.comJdot.middleCols(c, v->space().tSize()), "its Jacobian's derivative");
      c += v->space().tSize();
    }
    f->reset();
    run(f, F::Output::Value);
    eqv(f->value(), Vector3d(Vector3d::Zero()), "a reset function is null");
    sym_reach("com");
    return;
  }
  auto f = std::make_shared<CoMInConvexFunction>(r);
  sym_check(f->size() == 0, "no plane");
  if(sym_choose("reset before", 2))
  {
    f->addPlane(std::make_shared<geometry::Plane>(v3("n"), 1.));
    f->reset();
  }
  int n = 1 + sym_choose("planes", 2);
  std::vector<geometry::PlanePtr> ps;
  for(int i = 0; i < n; ++i)
  {
    ps.push_back(std::make_shared<geometry::Plane>(v3("n"), v3("pt")));
    f->addPlane(ps[i]);
  }
  newState(r->mb(), r->mbc(), rot(1));
  const auto & s = r->mbc().next;
  std::vector<Vector3d> nn(n), pp(n), nd(n), sp(n), ndd(n), ac(n);
  for(int i = 0; i < n; ++i)
  {
    ps[i]->position(nn[i] = v3("n"), pp[i] = v3("pt"));
    ps[i]->velocity(nd[i] = v3("nd"), sp[i] = v3("sp"));
    ps[i]->acceleration(ndd[i] = v3("ndd"), ac[i] = v3("ac"));
  }
  int only = sym_choose("only", 2);
  if(only)
  {
    run(f, F::Output::NormalAcceleration);
  }
  else
  {
    run(f, F::Output::Value, F::Output::Velocity, F::Output::NormalAcceleration, F::Output::Jacobian);
  }
  sym_check(f->size() == n, "a row per plane");
  Vector3d cd = mul(s.comJ, s.alphaV), cdd = mul(s.comJdot, s.alphaV);
  for(int i = 0; i < n; ++i)
  {
    Vector3d d = s.com - pp[i];
    double na = nn[i].dot(cdd - ac[i]) + 2 * nd[i].dot(cd - sp[i]) + ndd[i].dot(d);
    sym_check_eq(f->normalAcceleration()(i), na, "normal acceleration of the distance to a plane");
    if(only) continue;
    sym_check_eq(f->value()(i), nn[i].dot(d), "distance to a plane");
    sym_check_eq(f->velocity()(i), nn[i].dot(cd - sp[i]) + nd[i].dot(d), "velocity of the distance to a plane");
    MatrixXd J = fullJ(*f, *r).row(i), nt = nn[i].transpose();
    eqv(J, mul(nt, s.comJ), "Jacobian of the distance to a plane");
  }
  sym_reach("convex");
}
class AnyF : public F
{
public:
  SET_UPDATES(AnyF, Jac, JD)
  AnyF(RobotPtr r, int m, bool both) : F(m)
  {
    registerUpdates(Update::Jac, &AnyF::uj, Update::JD, &AnyF::ud);
    addOutputDependency<AnyF>(Output::Jacobian, Update::Jac);
    addOutputDependency<AnyF>(Output::JDot, Update::JD);
    if(both) addVariable(r->q(), false);
    else addVariable(r->qJoints(), false);
    for(const auto & v : variables())
    {
      J.push_back(mat("fJ", m, v->space().tSize()));
      D.push_back(mat("fD", m, v->space().tSize()));
    }
    value_ = vec("fv", m);
    velocity_ = vec("fd", m);
    normalAcceleration_ = vec("fn", m);
  }
  void uj()
  {
    for(int i = 0; i < variables().numberOfVariables(); ++i) jacobian_[variables()[i].get()] = J[i];
  }
  void ud()
  {
    for(int i = 0; i < variables().numberOfVariables(); ++i) JDot_[variables()[i].get()] = D[i];
  }
  std::vector<MatrixXd> J, D;
};
void selector()
{
  Clock clk(0.5);
  bool free = sym_choose("free", 2);
  auto r = makeRobot(clk, "r", free, rot(0));
  if(free && sym_choose("missing", 2))
  {
    auto f = std::make_shared<AnyF>(r, 2, false);
    sym_check(throws([&] { JointsSelector::ActiveJoints(f, r, {"a"}); }), "a function that does not depend on the robot is refused");
    return;
  }
  auto f = std::make_shared<AnyF>(r, 2, true);
  int mask = sym_choose("selected", 16);
  std::vector<std::string> sel, unsel;
  // (in any order)
  bool rev = sym_choose("reversed", 2);
  for(int k = 0; k < 4; ++k)
  {
    int i = rev ? 3 - k : k;
    (mask >> i & 1 ? sel : unsel).push_back(r->mb().joint(i).name());
  }
  std::shared_ptr<JointsSelector> s = sym_choose("inactive", 2) ? JointsSelector::InactiveJoints(f, r, unsel) : JointsSelector::ActiveJoints(f, r, sel);
  run(s, F::Output::Jacobian, F::Output::JDot);
  run(s, F::Output::Jacobian, F::Output::JDot);
  int base = free ? 6 : 0;
  bool ff = free && (mask & 1), jj = mask >> 1;
  sym_check(s->variables().contains(*r->qFreeFlyer()) == ff, "the free-flyer is a variable exactly when it is selected");
  sym_check(s->variables().contains(*r->qJoints()) == jj, "the joints are a variable exactly when one is selected");
  for(int i = 0; i < f->variables().numberOfVariables(); ++i)
  {
    const auto & v = f->variables()[i];
    if(!s->variables().contains(*v)) continue;
    bool isJ = v == r->qJoints();
    MatrixXd J = f->J[i], D = f->D[i];
    if(isJ)
      for(int k = 1; k < 4; ++k)
        if(!(mask >> k & 1))
        {
          J.middleCols(r->mb().jointPosInDof(k) - base, r->mb().joint(k).dof()).setZero();
          D.middleCols(r->mb().jointPosInDof(k) - base, r->mb().joint(k).dof()).setZero();
        }
    MatrixXd a = s->jacobian(*v), b = s->JDot(*v);
    eqv(a, J, "the Jacobian keeps the columns of the selected joints, the others are null");
    eqv(b, D, "the derivative of the Jacobian keeps the columns of the selected joints, the others are null");
  }
  eqv(s->value(), f->value(), "the value is that of the function");
  eqv(s->velocity(), f->velocity(), "the velocity is that of the function");
  eqv(s->normalAcceleration(), f->normalAcceleration(), "the normal acceleration is that of the function");
  sym_reach("selector");
}
void posture()
{
  Clock clk(0.5);
  bool free = sym_choose("free", 2);
  auto r = makeRobot(clk, "r", free, rot(0));
  auto f = std::make_shared<PostureFunction>(r);
  auto p = r->mbc().q;
  int w = sym_choose("target", 3);
  if(w == 1)
  {
    for(auto & x : p)
      for(auto & y : x) y = sym_real("target", -3, 3);
    f->posture(p);
  }
  if(w == 2)
  {
    int j = 1 + sym_choose("joint", 3);
    for(auto & y : p[j]) y = sym_real("target", -3, 3);
    f->posture(r->mb().joint(j).name(), p[j]);
  }
  newState(r->mb(), r->mbc(), rot(1));
  for(int i = 0; i < 4; ++i)
  {
    for(auto & y : r->mbc().q[i]) y = sym_real("q'", -3, 3);
    for(auto & y : r->mbc().alpha[i]) y = sym_real("a'", -3, 3);
  }
  run(f, F::Output::Value, F::Output::Velocity);
  const auto & m = r->mbc();
  VectorXd e(5), v(5);
  e[0] = m.q[1][0] - p[1][0];
  Eigen::Quaterniond q(p[2][0], p[2][1], p[2][2], p[2][3]);
  e.segment(1, 3) = sva::rotationError(q.matrix(), m.next.jointConfig[2].rotation());
  e[4] = m.q[3][0] - p[3][0];
  v << m.alpha[1][0], m.alpha[2][0], m.alpha[2][1], m.alpha[2][2], m.alpha[3][0];
  eqv(f->value(), e, "each joint is compared with its target");
  eqv(f->velocity(), v, "the velocity is that of the joints");
  MatrixXd J = f->jacobian(*r->qJoints());
  eqv(J, MatrixXd::Identity(5, 5), "the Jacobian is the identity");
  sym_check(f->variables().numberOfVariables() == 1 && f->size() == 5, "the function depends on the joints");
  sym_reach("posture");
}
sva::PTransformd anyX(const char * n) { return sva::PTransformd(anyRot(n), v3(n)); }
sva::PTransformd someX(int i, const char * n) { return sva::PTransformd(rot(i), v3(n)); }
void contacts()
{
  Clock clk(0.5);
  auto r1 = makeRobot(clk, "r1", true, rot(1), true);
  int other = sym_choose("other", 3); // another robot, the environment, the same robot
  auto r2 = other == 2 ? r1 : makeRobot(clk, "r2", false, rot(2), true, {{}, {}, {}, {}}, other == 0);
  sva::PTransformd X1 = someX(2, "X1"), X2 = someX(1, "X2");
  auto f1 = std::make_shared<Frame>("f1", r1, "b1", X1), f2 = std::make_shared<Frame>("f2", r2, "b0", X2);
  bool swap = sym_choose("swap", 2);
  auto A = swap ? f2 : f1, B = swap ? f1 : f2;
  std::vector<sva::PTransformd> pts{anyX("pt"), someX(2, "pt")};
  auto c = std::make_shared<Contact>(A, B, pts, 3);
  // the points of f2 are those of f1, seen from f2
  sym_check(c->f1Points().size() == 2 && c->f2Points().size() == 2, "the points");
  for(int i = 0; i < 2; ++i)
  {
    auto a = c->f1Points()[i] * A->position(), b = c->f2Points()[i] * B->position(); // in the world
    eqv(c->f1Points()[i].translation(), pts[i].translation(), "the points of a contact are given in the first frame");
    eqv(c->f1Points()[i].rotation(), pts[i].rotation(), "the points of a contact are given in the first frame");
    eqv(a.translation(), b.translation(), "the points of the second frame are those of the first");
    eqv(a.rotation(), b.rotation(), "the points of the second frame are those of the first");
  }
  auto X = c->X_f1_f2() * A->position();
  eqv(X.translation(), B->position().translation(), "transformation between the frames");
  eqv(X.rotation(), B->position().rotation(), "transformation between the frames");
  X = c->X_f2_f1() * B->position();
  eqv(X.translation(), A->position().translation(), "transformation between the frames");
  sym_check(&c->f1() == A.get() && &c->f2() == B.get() && c->f1View().f == A && c->f2View().f == B, "the frames of a contact");
  sym_check(&c->f1View().points == &c->f1Points() && &c->f2View().points == &c->f2Points(), "the view from each frame");
  Eigen::Matrix6d dof = Eigen::Matrix6d::Identity();
  int row = sym_tier() ? sym_choose("row", 6) : 1 + 3 * sym_choose("row", 2);
  dof.row(row) = v6("dof").transpose();
  auto g = std::make_shared<tvm::robot::internal::GeometricContactFunction>(c, dof);
  run(g, F::Output::Value);
  eqv(g->value(), MatrixXd::Zero(6, 1), "the function is null at first");
  auto init = B->position() * A->position().inv();
  newState(r1->mb(), r1->mbc(), rot(2));
  if(other != 2) newState(r2->mb(), r2->mbc(), rot(0));
  runAll(g);
  auto now = B->position() * A->position().inv();
  Expected e1(*r1, 1, X1.translation(), X1.rotation()), e2(*r2, 0, X2.translation(), X2.rotation());
  eqv(f1->position().translation(), e1.pos, "the frames are up to date");
  eqv(f2->position().translation(), e2.pos, "the frames are up to date");
  MatrixXd dm = dof;
  eqv(g->value(), mul(dm, sva::transformError(now, init).vector()), "value of the function of a contact");
  double s1 = swap ? -1 : 1;
  MatrixXd vel = s1 * mul(dm, e1.vel), na = s1 * mul(dm, e1.nacc);
  if(other != 1)
  {
    vel -= s1 * mul(dm, e2.vel);
    na -= s1 * mul(dm, e2.nacc);
  }
  eqv(g->velocity(), vel, "velocity of the function of a contact");
  eqv(g->normalAcceleration(), na, "normal acceleration of the function of a contact");
  MatrixXd J1 = s1 * mul(dm, e1.J), J2 = -s1 * mul(dm, e2.J);
  if(other == 2)
  {
    J1 += J2;
    eqv(fullJ(*g, *r1), J1, "Jacobian of the function of a contact within a robot");
  }
  else
  {
    eqv(fullJ(*g, *r1), J1, "Jacobian of the function of a contact for the first robot");
    if(other == 0) eqv(fullJ(*g, *r2), J2, "Jacobian of the function of a contact for the second robot");
    else sym_check(!g->variables().contains(*r2->qJoints()), "what cannot move is not a variable");
  }
  sym_reach("contact");
}
void ids()
{
  const char * names[] = {"a", "b"};
  std::vector<Contact::Id> v;
  int bits[3];
  for(int k = 0; k < 3; ++k)
  {
    int b = bits[k] = k == 2 && sym_tier() == 0 ? (bits[0] * 7 + bits[1] * 3 + 5) % 32 : sym_choose("id", 32);
    v.push_back(Contact::Id{names[b & 1], names[b >> 1 & 1], names[b >> 2 & 1], names[b >> 3 & 1], b >> 4});
  }
  auto key = [](const Contact::Id & i) { return i.r1 + i.f1 + i.r2 + i.f2 + std::to_string(i.ambiguityId); };
  for(auto & x : v)
    for(auto & y : v)
    {
      sym_check((x < y) == (key(x) < key(y)), "identifiers are ordered");
      sym_check((x == y) == (key(x) == key(y)), "identifiers are equal when they designate the same contact");
    }
  std::set<Contact::Id> s(v.begin(), v.end());
  std::set<std::string> t;
  for(auto & x : v) t.insert(key(x));
  sym_check(s.size() == t.size(), "a set of identifiers holds each of them");
  sym_reach("ids");
}
void dynamics()
{
  using function::abstract::LinearFunction;
  Clock clk(0.5);
  auto r = makeRobot(clk, "r1", sym_choose("free", 2), rot(1), true);
  auto env = makeRobot(clk, "env", false, rot(0), true, {{}, {}, {}, {}}, false);
  auto third = makeRobot(clk, "third", false, rot(0), true, {{}, {}, {}, {}}, false);
  auto fr = std::make_shared<Frame>("f", r, "b1", sva::PTransformd::Identity());
  auto fe = std::make_shared<Frame>("ground", env, "b0", sva::PTransformd(rot(2), v3("g")));
  auto ft = std::make_shared<Frame>("other", third, "b0", sva::PTransformd::Identity());
  auto d = std::make_shared<tvm::robot::internal::DynamicFunction>(r);
  int n = r->mb().nrDof();
  bool swap = sym_choose("swap", 2);
  bool lin = sym_choose("linearized", 2);
  int nrGen = 3, nb = 1 + sym_choose("points", 2);
  std::vector<sva::PTransformd> pts;
  for(int i = 0; i < nb; ++i) pts.push_back(someX(swap || lin ? 0 : i + 1, "pt"));
  auto c1 = std::make_shared<Contact>(swap ? fe : fr, swap ? fr : fe, pts, 0);
  auto c2 = std::make_shared<Contact>(fr, fe, pts, 1);
  auto c3 = std::make_shared<Contact>(ft, fe, pts, 0);
  int v0 = d->variables().numberOfVariables();
  sym_check(!d->addContact(c3, lin, 0.5, nrGen), "a contact of other robots is not added");
  sym_check(d->addContact(c1, lin, 0.5, nrGen), "a contact of the robot is added");
  sym_check(!d->addContact(c1, lin, 0.5, nrGen), "a contact is added once");
  sym_check(d->variables().numberOfVariables() == v0 + nb, "a force per contact point");
  std::vector<VariablePtr> f1;
  for(int i = 0; i < nb; ++i) f1.push_back(d->variables()[v0 + i]);
  bool second = sym_choose("second", 2);
  if(second) sym_check(d->addContact(c2, false, 0.5, nrGen), "a second contact is added");
  if(second && sym_choose("removed", 2))
  {
    d->removeContact(c2->id());
    second = false;
    sym_reach("removed");
  }
  sym_check(d->variables().numberOfVariables() == v0 + (second ? 2 : 1) * nb, "the forces of the contacts");
  newState(r->mb(), r->mbc(), rot(2));
  std::vector<VectorXd> f;
  auto acc = dot(r->q(), 2);
  VectorXd qdd = vec("qdd", n), tau = vec("tau", n);
  acc.set(qdd);
  r->tau()->set(tau);
  std::vector<VectorXd> fv;
  for(int i = 0; i < nb; ++i)
  {
    fv.push_back(vec("force", lin ? nrGen : 3));
    f1[i]->set(fv[i]);
  }
  std::vector<VectorXd> fv2;
  if(second)
    for(int i = 0; i < nb; ++i)
    {
      fv2.push_back(vec("force2", 3));
      d->variables()[v0 + nb + i]->set(fv2[i]);
    }
  run(d, LinearFunction::Output::Value, LinearFunction::Output::Jacobian, LinearFunction::Output::B);
  const auto & s = r->mbc().next;
  const auto & m = r->mbc();
  // forces are applied in the frame of the body (the linear rows of its Jacobian, at the contact point)
  auto pointJ = [&](const Vector3d & p) {
    MatrixXd E = m.next.bodyPosW[1].rotation();
    MatrixXd J = s.J[1];
    Vector3d rho = m.next.bodyPosW[1].rotation().transpose() * p;
    MatrixXd top = J.topRows(3), bot = J.bottomRows(3);
    bot -= mul(hatM(rho), top);
    return mul(E, bot);
  };
  MatrixXd total = mul(s.H, qdd) - tau + s.C;
  MatrixXd tj = d->jacobian(*r->tau());
  eqv(tj, -MatrixXd::Identity(n, n), "Jacobian for the torques");
  int c = 0;
  for(const auto & v : acc)
  {
    MatrixXd b = d->jacobian(*v);
    eqv(b, s.H.middleCols(c, v->space().tSize()), "Jacobian for the accelerations");
    c += v->space().tSize();
  }
  eqv(d->b(), s.C, "the constant term");
  double dir = swap ? -1 : 1;
  const auto & cp = swap ? c1->f2Points() : c1->f1Points();
  VectorXd resF = VectorXd::Zero(3), resC = VectorXd::Zero(3);
  for(int i = 0; i < nb; ++i)
  {
    MatrixXd Jp = pointJ(cp[i].translation());
    MatrixXd b = d->jacobian(*f1[i]);
    sym_check(f1[i]->size() == (lin ? nrGen : 3), "size of the forces");
    MatrixXd G = MatrixXd::Identity(3, 3) * dir;
    if(lin)
    {
      tvm::robot::internal::FrictionCone cone(dir * cp[i].rotation(), nrGen, 0.5, dir);
      for(int k = 0; k < nrGen; ++k) G.col(k) = -cone.generators[k];
    }
    MatrixXd Gt = G.transpose();
    MatrixXd expected = mul(Gt, Jp).transpose();
    eqv(b, expected, "Jacobian for the forces");
    total += mul(b, fv[i]);
    VectorXd fo = lin ? VectorXd(mul(-G, fv[i])) : fv[i];
    Vector3d fw = cp[i].rotation().transpose() * fo;
    resF += fw;
    resC += Vector3d(cp[i].translation()).cross(fw);
  }
  if(second)
    for(int i = 0; i < nb; ++i) total += mul(MatrixXd(d->jacobian(*d->variables()[v0 + nb + i])), fv2[i]);
  eqv(d->value(), total, "the value is that of the equation of motion");
  Vector6d w = d->contactForce(c1->id()).vector();
  auto close = [&](double a, double b) {
    sym_check_eq(a, b, "the resulting force of a contact");
  };
  for(int k = 0; k < 3; ++k)
  {
    close(w(k), resC(k));
    close(w(3 + k), resF(k));
  }
  if(!second)
  {
    Vector6d z = d->contactForce(c2->id()).vector();
    for(int k = 0; k < 6; ++k) sym_check_eq(z(k), 0, "no force for a contact that is not part of the equation");
  }
  d->removeContact(c1->id());
  sym_check(d->variables().numberOfVariables() == v0 + (second ? nb : 0), "the forces of a removed contact leave the equation");
  sym_reach("dynamics");
}
void collision()
{
  Clock clk(0.5);
  sch::CD_Pair::closest() = &closest;
  auto r1 = makeRobot(clk, "r1", true, rot(1), true);
  int other = sym_choose("other", 3);
  auto r2 = other == 2 ? r1 : makeRobot(clk, "r2", false, rot(2), true, {{}, {}, {}, {}}, other == 0);
  auto f1 = std::make_shared<Frame>("f1", r1, "b1", sva::PTransformd::Identity()), f2 = std::make_shared<Frame>("f2", r2, "b0", sva::PTransformd::Identity());
  sva::PTransformd X1 = someX(1, "Xo"), X2 = someX(2, "Xo");
  auto o1 = std::make_shared<sch::S_Object>(), o2 = std::make_shared<sch::S_Object>();
  auto h1 = std::make_shared<ConvexHull>(o1, f1, X1), h2 = std::make_shared<ConvexHull>(o2, f2, X2);
  auto f = std::make_shared<CollisionFunction>(clk);
  int n = 1 + sym_choose("pairs", 2);
  bool swap = sym_choose("swap", 2);
  for(int i = 0; i < n; ++i) f->addCollision((swap && i == 0) ? h2 : h1, (swap && i == 0) ? h1 : h2);
  // (the pair is swapped back when the second robot has more degrees of freedom)
  bool sw = swap && other == 2;
  sym_check(f->size() == n, "a row per pair");
  newState(r1->mb(), r1->mbc(), rot(0));
  if(other != 2) newState(r2->mb(), r2->mbc(), rot(1));
  near1 = v3("near1");
  near2 = v3("near2");
  static const double D2[] = {4, -16};
  static const double D[] = {2, -4};
  int k = sym_choose("distance", 2);
  dist2 = D2[k];
  double d = D[k];
  run(f, F::Output::Value, F::Output::Velocity, F::Output::Jacobian);
  auto Xw1 = X1 * r1->mbc().next.bodyPosW[1], Xw2 = X2 * r2->mbc().next.bodyPosW[0];
  eqv(placed(*o1).translation(), Xw1.translation(), "the hulls follow their frames");
  eqv(placed(*o1).rotation(), Xw1.rotation(), "the hulls follow their frames");
  eqv(placed(*o2).translation(), other == 1 ? placed(*o2).translation() : Xw2.translation(), "the hulls follow their frames");
  for(int i = 0; i < n; ++i)
  {
    // the nearest points belong to the first and the second hull of the pair
    bool s = sw && i == 0;
    const Robot &ra = s ? *r2 : *r1, &rb = s ? *r1 : *r2;
    int ba = s ? 0 : 1, bb = s ? 1 : 0;
    const auto &Pa = ra.mbc().next.bodyPosW[ba], &Pb = rb.mbc().next.bodyPosW[bb];
    Vector3d la = Pa.rotation() * (near1 - Pa.translation()), lb = Pb.rotation() * (near2 - Pb.translation());
    Expected ea(ra, ba, la, Matrix3d::Identity()), eb(rb, bb, lb, Matrix3d::Identity());
    MatrixXd nv = ((near1 - near2) / d).transpose();
    MatrixXd Ja = mul(nv, ea.J.bottomRows(3)), Jb = -mul(nv, eb.J.bottomRows(3));
    sym_check_eq(f->value()(i), d, "the value is the distance");
    double v = mul(nv, ea.vel.bottomRows(3))(0, 0);
    if(other != 1) v -= mul(nv, eb.vel.bottomRows(3))(0, 0);
    sym_check_eq(f->velocity()(i), v, "the velocity is that of the nearest points along the normal");
    if(other == 2)
    {
      MatrixXd J = Ja + Jb;
      eqv(fullJ(*f, *r1).row(i), J, "Jacobian of the distance within a robot");
    }
    else
    {
      eqv(fullJ(*f, *r1).row(i), Ja, "Jacobian of the distance for the first robot");
      if(other == 0) eqv(fullJ(*f, *r2).row(i), Jb, "Jacobian of the distance for the second robot");
      else sym_check(!f->variables().contains(*r2->qJoints()), "what cannot move is not a variable");
    }
  }
  // acceleration, from the second step on (the direction at the step before is known)
  auto dir = [&] { return Vector3d((near1 - near2) / d); };
  clk.advance();
  run(f, F::Output::NormalAcceleration);
  Vector3d before = dir();
  if(n == 1)
  {
    near1 = v3("near1'");
    clk.advance();
    run(f, F::Output::NormalAcceleration);
    if(sym_choose("again", 2)) run(f, F::Output::NormalAcceleration);
    Vector3d nv = dir(), nd = (nv - before) / 0.5;
    const Robot &ra = sw ? *r2 : *r1, &rb = sw ? *r1 : *r2;
    int ba = sw ? 0 : 1, bb = sw ? 1 : 0;
    const auto &Pa = ra.mbc().next.bodyPosW[ba], &Pb = rb.mbc().next.bodyPosW[bb];
    Vector3d la = Pa.rotation() * (near1 - Pa.translation()), lb = Pb.rotation() * (near2 - Pb.translation());
    Expected ea(ra, ba, la, Matrix3d::Identity()), eb(rb, bb, lb, Matrix3d::Identity());
    double a = nv.dot(Vector3d(ea.nacc.bottomRows(3))) + nd.dot(Vector3d(ea.vel.bottomRows(3)));
    if(other != 1) a -= nv.dot(Vector3d(eb.nacc.bottomRows(3))) + nd.dot(Vector3d(eb.vel.bottomRows(3)));
    sym_check_eq(f->normalAcceleration()(0), a, "the acceleration is that of the nearest points along the normal, which moves");
  }
  sym_reach("collision");
}
void robots()
{
  Clock clk(0.5);
  bool free = sym_choose("free", 2);
  rbd::parsers::Limits l;
  double lo = sym_real("lo", -5, 0), up = sym_real("up", 0, 5), ve = sym_real("ve", 0, 5), to = sym_real("to", 0, 5);
  VectorXd lo2 = vec("lo2", 4), ve2 = vec("ve2", 3), to2 = vec("to2", 3);
  l.lower["a"] = {lo};
  l.lower["none"] = {0.};
  l.upper["c"] = {up};
  l.lower["b"] = {lo2[0], lo2[1], lo2[2], lo2[3]};
  l.velocity["c"] = {ve};
  l.velocity["b"] = {ve2[0], ve2[1], ve2[2]};
  l.torque["a"] = {to};
  l.torque["b"] = {to2[0], to2[1], to2[2]};
  auto r = makeRobot(clk, "r", free, rot(0), false, l);
  const double big = constant::big_number;
  int ff = free ? 6 : 0;
  VectorXd lq(6), uq(6), lv(5), uv(5), lt(ff + 5), ut(ff + 5);
  lq << lo, lo2, -big;
  uq << big, big, big, big, big, up;
  uv << big, ve2, ve;
  lv = -uv;
  ut.head(ff).setZero();
  ut.tail(5) << to, to2, big;
  lt = -ut;
  sym_check(r->qFreeFlyer()->size() == (free ? 7 : 0) && r->qJoints()->size() == 6 && r->qJoints()->space().tSize() == 5, "the variables of the robot");
  eqv(r->uQBound(), uq, "upper limits of the joints");
  eqv(r->lQBound(), lq, "lower limits of the joints");
  eqv(r->uTauBound(), ut, "limits of the torques");
  eqv(r->lTauBound(), lt, "limits of the torques");
  eqv(r->uVelBound(), uv, "limits of the velocities");
  eqv(r->lVelBound(), lv, "limits of the velocities");
  // time
  auto flat = [](const std::vector<std::vector<double>> & v) {
    int n = 0;
    for(auto & x : v) n += int(x.size());
    VectorXd r(n);
    rbd::paramToVector(v, r);
    return r;
  };
  eqv(r->q().value(), flat(r->mbc().q), "the configuration is that given");
  auto dq = dot(r->q(), 1), ddq = dot(r->q(), 2);
  VectorXd a = vec("ddq", ff + 5), a0 = flat(r->mbc().alpha);
  ddq.set(a);
  r->mbc().log.clear();
  newState(r->mb(), r->mbc(), rot(1));
  int o = sym_choose("output", 9);
  using O = Robot::Output;
  auto go = [&] {
    switch(o)
    {
      case 0: run(r, O::FK); break;
      case 1: run(r, O::FV); break;
      case 2: run(r, O::FA); break;
      case 3: run(r, O::NormalAcceleration); break;
      case 4: run(r, O::CoM); break;
      case 5: run(r, O::H); break;
      case 6: run(r, O::C); break;
      case 7: run(r, O::Geometry); break;
      default: run(r, O::Dynamics);
    }
  };
  go();
  // each computation comes after those it relies on
  static const std::string needs[] = {"K", "KV", "KVA", "KV", "KM", "KVH", "KVC", "KM", "KVAHC"};
  auto order = [&](const std::string & log) {
    for(char c : needs[o]) sym_check(std::count(log.begin(), log.end(), c) == 1, "what an output needs is computed once");
    auto at = [&](char c) { return log.find(c); };
    for(char c : std::string("VM"))
      if(at(c) != std::string::npos) sym_check(at('K') < at(c), "after the kinematics");
    for(char c : std::string("AHC"))
      if(at(c) != std::string::npos) sym_check(at('V') < at(c), "after the velocities");
    if(at('E') != std::string::npos) sym_check(at('E') == 0, "the time first");
  };
  order(r->mbc().log);
  sym_check(r->mbc().log.find('E') == std::string::npos, "the configuration changes with the time only");
  eqv(flat(r->mbc().alpha), a0, "the configuration changes with the time only");
  if(o == 4 || o == 7) eqv(r->com(), r->mbc().next.com, "the center of mass is up to date");
  if(o == 5 || o == 8) eqv(r->H(), r->mbc().next.H, "the inertia matrix is up to date");
  if(o == 6 || o == 8) eqv(r->C(), r->mbc().next.C, "the nonlinear effects are up to date");
  r->mbc().log.clear();
  clk.advance();
  go();
  order(r->mbc().log);
  sym_check(std::count(r->mbc().log.begin(), r->mbc().log.end(), 'E') == 1, "the configuration is integrated once per step");
  MatrixXd a1 = a0 + 0.5 * a;
  eqv(flat(r->mbc().alpha), a1, "the accelerations are those of the variables");
  eqv(dq.value(), a1, "the variables follow the configuration");
  eqv(r->q().value(), flat(r->mbc().q), "the variables follow the configuration");
  go();
  sym_check(std::count(r->mbc().log.begin(), r->mbc().log.end(), 'E') == 1, "the configuration is integrated once per step");
  sym_reach("robot");
}
void loading()
{
  // a robot as read by the parser, with the configuration given
  Clock clk(0.5);
  auto r0 = makeRobot(clk, "r0", sym_choose("free", 2), rot(0));
  auto & data = rbd::parsers::next();
  data.mb = r0->mb();
  data.mbc = r0->mbc();
  auto q = data.mbc.q;
  std::map<std::string, std::vector<double>> given;
  int mask = sym_choose("given", 8);
  for(int j = 1; j < 4; ++j)
    if(mask >> (j - 1) & 1)
    {
      for(auto & x : q[j]) x = sym_real("given", -3, 3);
      given[r0->mb().joint(j).name()] = q[j];
    }
  if(sym_choose("ignored", 2))
  {
    given["unknown"] = {1.};
    if(!(mask & 1)) given["a"] = {1., 2.};
  }
  double up = sym_real("limit", 0, 5);
  data.limits.upper["a"] = {up};
  sym_check(throws([&] { fromURDF(clk, "r", "/no/such/file", false, {}, given); }), "a file that does not exist is refused");
  auto r = fromURDF(clk, "r", "/dev/null", false, {}, given);
  sym_check(r->name() == "r" && r->mb().nrDof() == r0->mb().nrDof(), "the robot of the file");
  for(int j = 0; j < 4; ++j)
    for(size_t k = 0; k < q[j].size(); ++k) sym_check_eq(r->mbc().q[j][k], q[j][k], "the configuration is that given, or that of the file");
  VectorXd qv = r->q().value();
  VectorXd e(qv.size());
  rbd::paramToVector(q, e);
  eqv(qv, e, "the variables have the value of the configuration");
  eqv(r->mbc().gravity, constant::gravity, "the gravity");
  sym_check_eq(r->uQBound()(0), up, "the limits of the file");
  sym_reach("loading");
}
} // namespace
void harness()
{
  switch(sym_choose("part", 10))
  {
    case 0: frames(); break;
    case 1: com(); break;
    case 2: selector(); break;
    case 3: posture(); break;
    case 4: contacts(); break;
    case 5: ids(); break;
    case 6: dynamics(); break;
    case 7: collision(); break;
    case 8: robots(); break;
    default: loading();
  }
}
