// Stand-ins for the circuit classes that generated models are compiled against.
#ifndef MCSTUB_HH
#define MCSTUB_HH
#include <cmath>
#include <cstddef>
#include <map>
#include <string>
#include <utility>
#include <vector>
using std::pow; using std::exp; using std::log;
inline double f(double a) { return a * a * a; }
inline double g(double a, double b) { return a * a * b + b; }
inline double h(double a, double b) { return a - 2 * b * b; }
inline double e(double a) { return std::exp(a); }
struct CircuitNode {
  size_t number; bool ground;
  size_t getNumber() const { return number; }
  bool isGROUND() const { return ground; }
};
typedef CircuitNode *CircuitNodePtr;
struct NodeKeeper {
  typedef std::vector<double> Solution;
  std::map<std::string, CircuitNode> nodes;
};
namespace dsMath {
template <typename T> struct RealRowColVal {
  size_t row, col; T val;
  RealRowColVal(size_t r, size_t c, T v) : row(r), col(c), val(v) {}
};
template <typename T> using RealRowColValueVec = std::vector<RealRowColVal<T>>;
}
class InstanceModel {
  public:
    InstanceModel(NodeKeeper *nk, const char *) : nk_(nk) {}
    virtual ~InstanceModel() {}
    virtual void assembleDC_impl(const NodeKeeper::Solution &, dsMath::RealRowColValueVec<double> &, std::vector<std::pair<int, double>> &) = 0;
    virtual void assembleTran_impl(const double, const NodeKeeper::Solution &, dsMath::RealRowColValueVec<double> *, std::vector<std::pair<int, double>> &) = 0;
    virtual bool addParam(const std::string &, double) = 0;
    CircuitNodePtr AddCircuitNode(const char *n) { return &nk_->nodes.at(n); }
    CircuitNodePtr AddInternalNode(const char *n) { return &nk_->nodes.at(n); }
    NodeKeeper *nk_;
};
#endif
