// Stand-in for RBDyn: a robot whose kinematic and dynamic quantities are set by the harness ("next") and become visible in the
// configuration when the corresponding computation is run.
#pragma once
#include <SpaceVecAlg/SpaceVecAlg>
#include <map>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
namespace rbd
{
class Inertia
{
public:
  double m = 1;
  double mass() const { return m; }
};
class Body
{
public:
  std::string n;
  Inertia I;
  const std::string & name() const { return n; }
  const Inertia & inertia() const { return I; }
};
class Joint
{
public:
  enum Type
  {
    Rev,
    Prism,
    Spherical,
    Planar,
    Cylindrical,
    Free,
    Fixed
  };
  Type t = Rev;
  std::string n;
  Type type() const { return t; }
  const std::string & name() const { return n; }
  int dof() const
  {
    static const int d[] = {1, 1, 3, 3, 2, 6, 0};
    return d[t];
  }
  int params() const
  {
    static const int d[] = {1, 1, 4, 3, 2, 7, 0};
    return d[t];
  }
};
class MultiBody
{
public:
  std::vector<Body> b;
  std::vector<Joint> j;
  std::vector<int> pred, succ;
  std::map<std::string, int> jn, bn;
  void finish()
  {
    for(size_t i = 0; i < j.size(); ++i) jn[j[i].n] = int(i);
    for(size_t i = 0; i < b.size(); ++i) bn[b[i].n] = int(i);
  }
  int nrBodies() const { return int(b.size()); }
  int nrJoints() const { return int(j.size()); }
  int nrDof() const
  {
    int s = 0;
    for(auto & x : j) s += x.dof();
    return s;
  }
  int nrParams() const
  {
    int s = 0;
    for(auto & x : j) s += x.params();
    return s;
  }
  const std::vector<Body> & bodies() const { return b; }
  const std::vector<Joint> & joints() const { return j; }
  const Body & body(int i) const { return b.at(i); }
  const Joint & joint(int i) const { return j.at(i); }
  const std::vector<int> & predecessors() const { return pred; }
  const std::vector<int> & successors() const { return succ; }
  int predecessor(int i) const { return pred.at(i); }
  int successor(int i) const { return succ.at(i); }
  int parent(int i) const { return pred.at(i); }
  int jointPosInDof(int i) const
  {
    int s = 0;
    for(int k = 0; k < i; ++k) s += j[k].dof();
    return s;
  }
  int jointPosInParam(int i) const
  {
    int s = 0;
    for(int k = 0; k < i; ++k) s += j[k].params();
    return s;
  }
  const std::map<std::string, int> & jointIndexByName() const { return jn; }
  const std::map<std::string, int> & bodyIndexByName() const { return bn; }
  int jointIndexByName(const std::string & n) const { return jn.at(n); }
  int bodyIndexByName(const std::string & n) const { return bn.at(n); }
  int sJointIndexByName(const std::string & n) const { return jn.at(n); }
  int sBodyIndexByName(const std::string & n) const { return bn.at(n); }
};
struct Next
{
  std::vector<sva::PTransformd> bodyPosW; // set by FK
  std::vector<Eigen::MatrixXd> J; // 6 x nrDof, world axes, at the origin of the body: set by FV
  Eigen::VectorXd alphaV;
  std::vector<sva::PTransformd> parentToSon, jointConfig;
  std::vector<sva::MotionVecd> jointVelocity;
  std::vector<Eigen::MatrixXd> bodyDummy;
  Eigen::MatrixXd comJ, comJdot, H;
  Eigen::Vector3d com, comN;
  Eigen::VectorXd C;
};
class MultiBodyConfig
{
public:
  std::vector<std::vector<double>> q, alpha, alphaD;
  std::vector<sva::PTransformd> jointConfig, bodyPosW, parentToSon;
  std::vector<sva::MotionVecd> jointVelocity, bodyVelW, bodyVelB, bodyAccB;
  Eigen::Vector3d gravity = Eigen::Vector3d::Zero();
  // stand-in data
  Next next, now;
  std::string log;
};
class MultiBodyGraph
{
public:
  std::map<std::string, sva::PTransformd> t;
  std::map<std::string, sva::PTransformd> bodiesBaseTransform(const std::string &) const { return t; }
};
inline void paramToVector(const std::vector<std::vector<double>> & v, Eigen::Ref<Eigen::VectorXd> e)
{
  int p = 0;
  for(auto & x : v)
    for(double d : x) e(p++) = d;
}
inline void vectorToParam(const Eigen::Ref<const Eigen::VectorXd> & e, std::vector<std::vector<double>> & v)
{
  int p = 0;
  for(auto & x : v)
    for(double & d : x) d = e(p++);
}
inline void forwardKinematics(const MultiBody &, MultiBodyConfig & m)
{
  m.log += 'K';
  m.bodyPosW = m.next.bodyPosW;
  m.parentToSon = m.next.parentToSon;
  m.jointConfig = m.next.jointConfig;
}
inline void forwardVelocity(const MultiBody & mb, MultiBodyConfig & m)
{
  m.log += 'V';
  m.now.J = m.next.J;
  m.now.comJ = m.next.comJ;
  m.now.comJdot = m.next.comJdot;
  m.jointVelocity = m.next.jointVelocity;
  m.now.alphaV = m.next.alphaV;
  for(int i = 0; i < mb.nrBodies(); ++i)
  {
    Eigen::Vector6d v = m.now.J[i] * m.now.alphaV;
    m.bodyVelW[i] = sva::MotionVecd(v);
    m.bodyVelB[i] = sva::PTransformd(m.bodyPosW[i].rotation()) * m.bodyVelW[i];
  }
}
inline void forwardAcceleration(const MultiBody &, MultiBodyConfig & m) { m.log += 'A'; }
inline void eulerIntegration(const MultiBody &, MultiBodyConfig & m, double dt)
{
  m.log += 'E';
  for(size_t i = 0; i < m.alpha.size(); ++i)
  {
    for(size_t k = 0; k < m.alpha[i].size(); ++k)
    {
      if(m.q[i].size() == m.alpha[i].size()) m.q[i][k] += m.alpha[i][k] * dt + 0.5 * m.alphaD[i][k] * dt * dt;
      m.alpha[i][k] += m.alphaD[i][k] * dt;
    }
  }
}
inline Eigen::Vector3d computeCoM(const MultiBody &, MultiBodyConfig & m)
{
  m.log += 'M';
  return m.next.com;
}
class ForwardDynamics
{
public:
  ForwardDynamics() {}
  ForwardDynamics(const MultiBody & mb) : H_(mb.nrDof(), mb.nrDof()), C_(mb.nrDof())
  {
    H_.setZero();
    C_.setZero();
  }
  void computeH(const MultiBody &, MultiBodyConfig & m)
  {
    m.log += 'H';
    H_ = m.next.H;
  }
  void computeC(const MultiBody &, MultiBodyConfig & m)
  {
    m.log += 'C';
    C_ = m.next.C;
  }
  const Eigen::MatrixXd & H() const { return H_; }
  const Eigen::VectorXd & C() const { return C_; }

private:
  Eigen::MatrixXd H_;
  Eigen::VectorXd C_;
};
class Jacobian
{
public:
  Jacobian() {}
  Jacobian(const MultiBody & mb, const std::string & body, const Eigen::Vector3d & p = Eigen::Vector3d::Zero())
  : N_(mb.bodyIndexByName(body)), point_(p)
  {
    std::vector<int> path;
    for(int i = N_; i != -1;)
    {
      int k = 0;
      while(mb.succ[k] != i) ++k;
      path.insert(path.begin(), k);
      i = mb.pred[k];
    }
    for(int k : path)
      for(int d = 0; d < mb.j[k].dof(); ++d) cols_.push_back(mb.jointPosInDof(k) + d);
    joints_ = path;
  }
  const std::vector<int> & jointsPath() const { return joints_; }
  int dof() const { return int(cols_.size()); }
  void point(const Eigen::Vector3d & p) { point_ = p; }
  const Eigen::Vector3d & point() const { return point_; }
  const Eigen::MatrixXd & jacobian(const MultiBody &, const MultiBodyConfig & m)
  {
    sva::PTransformd X(rho(m));
    jac_.resize(6, dof());
    for(int i = 0; i < dof(); ++i) jac_.col(i) = (X * sva::MotionVecd(Eigen::Vector6d(m.now.J[N_].col(cols_[i])))).vector();
    return jac_;
  }
  const Eigen::MatrixXd & bodyJacobian(const MultiBody &, const MultiBodyConfig & m)
  {
    sva::PTransformd X = sva::PTransformd(m.bodyPosW[N_].rotation()) * sva::PTransformd(rho(m));
    jac_.resize(6, dof());
    for(int i = 0; i < dof(); ++i) jac_.col(i) = (X * sva::MotionVecd(Eigen::Vector6d(m.now.J[N_].col(cols_[i])))).vector();
    return jac_;
  }
  void translateBodyJacobian(const Eigen::Ref<const Eigen::MatrixXd> & j, const MultiBodyConfig &, const Eigen::Vector3d & p, Eigen::MatrixXd & r)
  {
    sva::PTransformd X(p);
    for(int i = 0; i < j.cols(); ++i) r.col(i) = (X * sva::MotionVecd(Eigen::Vector6d(j.col(i)))).vector();
  }
  void fullJacobian(const MultiBody &, const Eigen::Ref<const Eigen::MatrixXd> & j, Eigen::MatrixXd & r) const
  {
    r.block(0, 0, j.rows(), r.cols()).setZero();
    for(int i = 0; i < dof(); ++i) r.block(0, cols_[i], j.rows(), 1) = j.col(i);
  }
  sva::MotionVecd velocity(const MultiBody &, const MultiBodyConfig & m) const { return sva::PTransformd(rho(m)) * m.bodyVelW[N_]; }
  sva::MotionVecd normalAcceleration(const MultiBody &, const MultiBodyConfig & m, const std::vector<sva::MotionVecd> & n) const
  {
    sva::PTransformd X(sva::PTransformd(Eigen::Matrix3d(m.bodyPosW[N_].rotation().transpose())) * sva::PTransformd(point_));
    sva::MotionVecd v = X * m.bodyVelB[N_];
    return X * n[N_] + sva::MotionVecd(Eigen::Vector3d(Eigen::Vector3d::Zero()), Eigen::Vector3d(v.angular().cross(v.linear())));
  }

private:
  Eigen::Vector3d rho(const MultiBodyConfig & m) const { return m.bodyPosW[N_].rotation().transpose() * point_; }
  int N_ = 0;
  std::vector<int> cols_, joints_;
  Eigen::Vector3d point_ = Eigen::Vector3d::Zero();
  Eigen::MatrixXd jac_;
};
class CoMJacobian
{
public:
  CoMJacobian() {}
  CoMJacobian(const MultiBody &) {}
  const Eigen::MatrixXd & jacobian(const MultiBody &, const MultiBodyConfig & m) { return J_ = m.now.comJ; }
  const Eigen::MatrixXd & jacobianDot(const MultiBody &, const MultiBodyConfig & m) { return Jd_ = m.now.comJdot; }
  Eigen::Vector3d velocity(const MultiBody &, const MultiBodyConfig & m) const { return m.now.comJ * m.now.alphaV; }
  Eigen::Vector3d normalAcceleration(const MultiBody &, const MultiBodyConfig & m) const { return m.now.comJdot * m.now.alphaV; }
  Eigen::Vector3d normalAcceleration(const MultiBody & mb, const MultiBodyConfig & m, const std::vector<sva::MotionVecd> &) const
  { return normalAcceleration(mb, m); }

private:
  Eigen::MatrixXd J_, Jd_;
};
namespace parsers
{
struct Limits
{
  std::map<std::string, std::vector<double>> lower, upper, velocity, torque;
};
struct ParserResult
{
  MultiBody mb;
  MultiBodyConfig mbc;
  MultiBodyGraph mbg;
  Limits limits;
};
// what the parser returns, set by the harness
inline ParserResult & next()
{
  static ParserResult r;
  return r;
}
inline ParserResult from_urdf(const std::string &, bool = true, const std::vector<std::string> & = {}) { return next(); }
} // namespace parsers
} // namespace rbd
