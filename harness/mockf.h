// A function whose outputs are set by the harness, and only become visible when the corresponding update is run.
#pragma once
#include <tvm/Variable.h>
#include <tvm/function/abstract/Function.h>
namespace vf
{
class MockF : public tvm::function::abstract::Function
{
public:
  SET_UPDATES(MockF, Value, Velocity, NormalAcc, Jacobian)
  MockF(int m, const std::vector<tvm::VariablePtr> & vars = {}, bool linear = false) : Function(m)
  {
    registerUpdates(Update::Value, &MockF::uv, Update::Velocity, &MockF::ud, Update::NormalAcc, &MockF::ua, Update::Jacobian, &MockF::uj);
    addOutputDependency<MockF>(Output::Value, Update::Value);
    addOutputDependency<MockF>(Output::Velocity, Update::Velocity);
    addOutputDependency<MockF>(Output::NormalAcceleration, Update::NormalAcc);
    addOutputDependency<MockF>(Output::Jacobian, Update::Jacobian);
    value_.setConstant(1e3);
    velocity_.setConstant(2e3);
    normalAcceleration_.setConstant(3e3);
    for(const auto & v : vars)
    {
      addVariable(v, linear);
      J.push_back(MatrixXd::Zero(m, v->space().tSize()));
      jacobian_[v.get()].setConstant(4e3);
    }
    v = d = a = VectorXd::Zero(m);
  }
  VectorXd v, d, a;
  std::vector<MatrixXd> J;

private:
  void uv() { value_ = v; }
  void ud() { velocity_ = d; }
  void ua() { normalAcceleration_ = a; }
  void uj()
  {
    for(int i = 0; i < variables().numberOfVariables(); ++i) jacobian_[variables()[i].get()] = J[i];
  }
};
} // namespace vf
