// The dual precision value store and the data objects computed from it: every
// sequence of operations up to a depth, against plain vectors.
// OBJS: models/ModelDataHolder models/ParallelOpEqual utility/FPECheck
//
// usage: p15store holder|scalar DEPTH [NPARTS PART]
#include "ModelDataHolder.hh"
#include "ScalarData.hh"
#include "Float128.hh"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace ThreadInfo {
size_t GetNumberOfThreads() { return 0; }
size_t GetMinimumTaskSize() { return 0; }
}

typedef float128 Q;
static const Q third = Q(1) / Q(3);
static const Q near1 = Q(1) + Q("1e-25");
static const Q tiny = Q("1e-400");

static size_t sequences, transitions, compared, violations;
static std::vector<std::string> trail;

static std::string str(const Q &x) { return x.str(30, std::ios_base::scientific); }

static void bad(const std::string &what)
{
  ++violations;
  if (violations > 20) return;
  printf("BAD");
  for (auto &t : trail) printf(" %s", t.c_str());
  printf(" :: %s\n", what.c_str());
}

//// ------------------------------------------------------------ the store
struct HolderState {
  ModelDataHolder h;
  std::vector<Q> ref;
  explicit HolderState(size_t n) : h(n), ref(n, Q(0)) {}
};

typedef std::function<void(HolderState &)> HolderOp;
struct NamedHolderOp { std::string name; HolderOp op; };

static void check_reads(ModelDataHolder h, const std::vector<Q> &ref, bool qfirst)
{
  for (int k = 0; k < 2; ++k)
  {
    if ((k == 0) == qfirst)
    {
      const std::vector<Q> &v = h.GetValues<Q>();
      if (v.size() != ref.size()) { bad("extended values: " + std::to_string(v.size()) + " of " + std::to_string(ref.size())); return; }
      for (size_t i = 0; i < v.size(); ++i)
      {
        ++compared;
        if (!(v[i] == ref[i])) { bad("extended value " + std::to_string(i) + " is " + str(v[i]) + " not " + str(ref[i]) + (qfirst ? "" : " (double read first)")); return; }
      }
    }
    else
    {
      const std::vector<double> &v = h.GetValues<double>();
      if (v.size() != ref.size()) { bad("double values: " + std::to_string(v.size()) + " of " + std::to_string(ref.size())); return; }
      for (size_t i = 0; i < v.size(); ++i)
      {
        ++compared;
        if (!(v[i] == static_cast<double>(ref[i]))) { bad("double value " + std::to_string(i) + " is " + str(Q(v[i])) + " not " + str(ref[i]) + (qfirst ? " (extended read first)" : "")); return; }
      }
    }
  }
}

static void check_holder(const HolderState &s)
{
  ModelDataHolder h = s.h;
  if (h.GetLength() != s.ref.size()) bad("length");
  bool allzero = true, allone = true, same = true;
  for (auto &x : s.ref)
  {
    allzero = allzero && x == 0;
    allone = allone && x == 1;
    same = same && x == s.ref[0];
  }
  compared += 3;
  if (h.IsZero() && !allzero) bad("reported to be zero, holds " + str(s.ref[0]));
  if (h.IsOne() && !allone) bad("reported to be one, holds " + str(s.ref[0]));
  if (h.IsUniform())
  {
    if (!same) { bad("reported to be uniform"); return; }
    compared += 2;
    if (!(h.GetUniformValue<double>() == static_cast<double>(s.ref[0]))) bad("uniform double value is " + str(Q(h.GetUniformValue<double>())) + " not " + str(s.ref[0]));
    if (!(h.GetUniformValue<Q>() == s.ref[0])) bad("uniform extended value is " + str(h.GetUniformValue<Q>()) + " not " + str(s.ref[0]));
  }
  check_reads(s.h, s.ref, false);
  check_reads(s.h, s.ref, true);
}

static std::vector<NamedHolderOp> holder_ops(size_t n)
{
  std::vector<NamedHolderOp> o;
  struct V { const char *n; Q q; };
  static const V qv[] = {{"0", Q(0)}, {"1", Q(1)}, {"1/3", third}, {"1+1e-25", near1}, {"1e-400", tiny}};
  static const V dv[] = {{"0", Q(0)}, {"1", Q(1)}, {"0.1", Q(0.1)}};
  const size_t last = n - 1;
  for (auto &v : dv)
  {
    const double d = static_cast<double>(v.q);
    o.push_back({std::string("uniform_d(") + v.n + ")", [d](HolderState &s) { s.h.SetUniformValue<double>(d); s.ref.assign(s.ref.size(), Q(d)); }});
    if (d != 0)
    {
      o.push_back({std::string("set_d(0,") + v.n + ")", [d](HolderState &s) { s.h.SetValue<double>(0, d); s.ref[0] = d; }});
      if (last) o.push_back({std::string("set_d(last,") + v.n + ")", [d, last](HolderState &s) { s.h.SetValue<double>(last, d); s.ref[last] = d; }});
    }
  }
  for (auto &v : qv)
  {
    const Q q = v.q;
    o.push_back({std::string("uniform_q(") + v.n + ")", [q](HolderState &s) { s.h.SetUniformValue<Q>(q); s.ref.assign(s.ref.size(), q); }});
  }
  for (auto &v : {qv[2], qv[4]})
  {
    const Q q = v.q;
    o.push_back({std::string("set_q(0,") + v.n + ")", [q](HolderState &s) { s.h.SetValue<Q>(0, q); s.ref[0] = q; }});
    if (last) o.push_back({std::string("set_q(last,") + v.n + ")", [q, last](HolderState &s) { s.h.SetValue<Q>(last, q); s.ref[last] = q; }});
  }
  o.push_back({"set_d(beyond)", [n](HolderState &s) { s.h.SetValue<double>(n, 5.0); }});
  o.push_back({"set_q(beyond)", [n](HolderState &s) { s.h.SetValue<Q>(n, Q(5)); }});
  o.push_back({"values_d", [n](HolderState &s) { std::vector<double> v(n); for (size_t i = 0; i < n; ++i) v[i] = 0.1 * (i + 2); s.h.set_values(v); for (size_t i = 0; i < n; ++i) s.ref[i] = v[i]; }});
  o.push_back({"values_q", [n](HolderState &s) { std::vector<Q> v(n); for (size_t i = 0; i < n; ++i) v[i] = third * (i + 2); s.h.set_values(v); s.ref = v; }});
  o.push_back({"indexes_d({last},0.1)", [last](HolderState &s) { s.h.set_indexes(std::vector<size_t>{last}, 0.1); s.ref.assign(s.ref.size(), Q(0)); s.ref[last] = 0.1; }});
  o.push_back({"indexes_q({last},1/3)", [last](HolderState &s) { s.h.set_indexes(std::vector<size_t>{last}, third); s.ref.assign(s.ref.size(), Q(0)); s.ref[last] = third; }});
  o.push_back({"indexes_d({0},values)", [n](HolderState &s) { const std::vector<double> v(n, 0.3); s.h.set_indexes(std::vector<size_t>{0}, v); s.ref.assign(n, Q(0)); s.ref[0] = 0.3; }});
  o.push_back({"indexes_q({0},values)", [n](HolderState &s) { const std::vector<Q> v(n, near1); s.h.set_indexes(std::vector<size_t>{0}, v); s.ref.assign(n, Q(0)); s.ref[0] = near1; }});
  o.push_back({"read_d", [](HolderState &s) { s.h.GetValues<double>(); }});
  o.push_back({"read_q", [](HolderState &s) { s.h.GetValues<Q>(); }});
  o.push_back({"expand", [](HolderState &s) { s.h.expand_uniform(); }});
  o.push_back({"clear", [](HolderState &s) { s.h.clear(); s.ref.assign(s.ref.size(), Q(0)); }});
  return o;
}

static int nparts = 1, part = 0;

static void explore_holder(const HolderState &s, const std::vector<NamedHolderOp> &ops, int depth)
{
  check_holder(s);
  ++sequences;
  if (!depth) return;
  for (size_t i = 0; i < ops.size(); ++i)
  {
    if (trail.size() == 1 && nparts > 1 && int(i % nparts) != part) continue;
    HolderState t(s);
    trail.push_back(ops[i].name);
    ops[i].op(t);
    ++transitions;
    explore_holder(t, ops, depth - 1);
    trail.pop_back();
  }
}

//// ------------------------------------------------------- computed data
struct Model {
  ModelDataHolder *h;
  bool IsUniform() const { return h->IsUniform(); }
  bool IsZero() const { return h->IsZero(); }
  bool IsOne() const { return h->IsOne(); }
  size_t GetLength() const { return h->GetLength(); }
  template <typename T> const T &GetUniformValue() const { return h->GetUniformValue<T>(); }
  template <typename T> const std::vector<T> &GetScalarValues() const { return h->GetValues<T>(); }
};

#define SCMODELTYPE Model
#define SCCLASSNAME ModelScalarData
template <typename T> using ModelScalarData = ScalarData<Model, T>;
#define SCDBLTYPE double
#include "ScalarData.cc"
#undef SCDBLTYPE
#define SCDBLTYPE float128
template class ScalarData<Model, float128>;

template <typename T>
struct Explore {
  typedef ScalarData<Model, T> D;
  struct State { D d; std::vector<T> ref; D e; std::vector<T> eref; State(const D &a, const std::vector<T> &r) : d(a), ref(r), e(a), eref(r) {} };
  struct Op { std::string name; std::function<void(State &)> op; };
  size_t n;
  std::vector<ModelDataHolder *> holders;
  std::vector<Model> models;
  std::vector<std::vector<T>> mref;
  std::vector<std::string> mname;
  std::vector<Op> ops;

  void model(const char *name, ModelDataHolder *h)
  {
    ModelDataHolder c(*h);
    holders.push_back(h);
    models.push_back(Model{h});
    mref.push_back(c.GetValues<T>());
    mname.push_back(name);
  }

  explicit Explore(size_t n_) : n(n_)
  {
    auto *h = new ModelDataHolder(n); model("zero", h);
    h = new ModelDataHolder(n); h->SetUniformValue<double>(1.0); model("one", h);
    h = new ModelDataHolder(n); h->SetUniformValue<double>(0.1); model("0.1", h);
    h = new ModelDataHolder(n); h->SetUniformValue<Q>(third); model("1/3", h);
    h = new ModelDataHolder(n); h->SetUniformValue<Q>(tiny); model("1e-400", h);
    h = new ModelDataHolder(n); h->SetUniformValue<Q>(near1); model("1+1e-25", h);
    std::vector<double> vd(n);
    std::vector<Q> vq(n);
    for (size_t i = 0; i < n; ++i) { vd[i] = 0.1 * (i + 1); vq[i] = third * (i + 1); }
    h = new ModelDataHolder(n); h->set_values(vd); model("vector_d", h);
    h = new ModelDataHolder(n); h->set_values(vq); model("vector_q", h);
    h = new ModelDataHolder(n); h->set_values(vq); h->SetValue<double>(0, 1.0); model("vector_q with a double", h);
    h = new ModelDataHolder(n); h->SetUniformValue<Q>(third); h->SetValue<Q>(n - 1, tiny); model("uniform, then changed", h);
    for (size_t i = 0; i < models.size(); ++i)
    {
      ops.push_back({"times model(" + mname[i] + ")", [this, i](State &s) { s.d.times_equal_model(models[i]); for (size_t k = 0; k < n; ++k) s.ref[k] *= mref[i][k]; }});
      ops.push_back({"plus model(" + mname[i] + ")", [this, i](State &s) { s.d.plus_equal_model(models[i]); for (size_t k = 0; k < n; ++k) s.ref[k] += mref[i][k]; }});
    }
    for (double v : {0.0, 1.0, 0.1, -1.0})
    {
      ops.push_back({"times scalar(" + std::to_string(v) + ")", [this, v](State &s) { s.d.times_equal_scalar(T(v)); for (auto &x : s.ref) x *= T(v); }});
      ops.push_back({"plus scalar(" + std::to_string(v) + ")", [this, v](State &s) { s.d.plus_equal_scalar(T(v)); for (auto &x : s.ref) x += T(v); }});
    }
    ops.push_back({"times data", [this](State &s) { s.d.times_equal_data(s.e); for (size_t k = 0; k < n; ++k) s.ref[k] *= s.eref[k]; }});
    ops.push_back({"plus data", [this](State &s) { s.d.plus_equal_data(s.e); for (size_t k = 0; k < n; ++k) s.ref[k] += s.eref[k]; }});
    ops.push_back({"times itself", [this](State &s) { s.d.times_equal_data(s.d); for (size_t k = 0; k < n; ++k) s.ref[k] *= T(s.ref[k]); }});
    ops.push_back({"plus itself", [this](State &s) { s.d.plus_equal_data(s.d); for (size_t k = 0; k < n; ++k) s.ref[k] += T(s.ref[k]); }});
    ops.push_back({"keep", [](State &s) { s.e = s.d; s.eref = s.ref; }});
    ops.push_back({"exchange", [](State &s) { D t(s.d); s.d = s.e; s.e = t; std::swap(s.ref, s.eref); }});
    ops.push_back({"assign one", [this](State &s) { s.d[n - 1] = T(7); s.ref[n - 1] = T(7); }});
    ops.push_back({"list", [](State &s) { s.d.GetScalarList(); }});
  }

  void same(const D &d, const std::vector<T> &ref, const char *which)
  {
    if (d.GetLength() != n) { bad(std::string(which) + " length"); return; }
    for (size_t k = 0; k < n; ++k)
    {
      ++compared;
      if (!(d[k] == ref[k])) { bad(std::string(which) + " value " + std::to_string(k) + " is " + str(Q(d[k])) + " not " + str(Q(ref[k]))); return; }
    }
    if (d.IsUniform())
      for (auto &x : ref)
        if (!(x == d.GetUniformValue())) { bad(std::string(which) + " uniform value"); return; }
    D c(d);
    const std::vector<T> &l = c.GetScalarList();
    if (l.size() != n) { bad(std::string(which) + " list length"); return; }
    for (size_t k = 0; k < n; ++k)
    {
      ++compared;
      if (!(l[k] == ref[k])) { bad(std::string(which) + " list value " + std::to_string(k) + " is " + str(Q(l[k])) + " not " + str(Q(ref[k]))); return; }
    }
  }

  void check(const State &s)
  {
    same(s.d, s.ref, "data");
    same(s.e, s.eref, "kept data");
  }

  void rec(const State &s, int depth)
  {
    check(s);
    ++sequences;
    if (!depth) return;
    for (size_t i = 0; i < ops.size(); ++i)
    {
      if (trail.size() == 2 && nparts > 1 && int(i % nparts) != part) continue;
      State t(s);
      trail.push_back(ops[i].name);
      ops[i].op(t);
      ++transitions;
      rec(t, depth - 1);
      trail.pop_back();
    }
  }

  void run(const char *type, int depth)
  {
    trail.push_back(type);
    for (double v : {0.0, 1.0, 0.5})
    {
      trail.push_back("scalar(" + std::to_string(v) + ")");
      rec(State(D(T(v), n), std::vector<T>(n, T(v))), depth);
      trail.pop_back();
    }
    std::vector<T> vv(n);
    for (size_t i = 0; i < n; ++i) vv[i] = T(i) / T(7) + T(1);
    trail.push_back("vector");
    rec(State(D(vv), vv), depth);
    trail.pop_back();
    for (size_t i = 3; i < models.size(); ++i)
    {
      trail.push_back("model(" + mname[i] + ")");
      rec(State(D(models[i]), mref[i]), depth);
      trail.pop_back();
    }
    trail.pop_back();
    //// nothing above may have changed the models
    for (size_t i = 0; i < models.size(); ++i)
    {
      const std::vector<T> v = holders[i]->GetValues<T>();
      for (size_t k = 0; k < n; ++k)
        if (!(v[k] == mref[i][k])) bad("model " + mname[i] + " changed");
    }
  }
};

int main(int argc, char **argv)
{
  const int depth = atoi(argv[2]);
  if (argc > 4) { nparts = atoi(argv[3]); part = atoi(argv[4]); }
  if (!strcmp(argv[1], "holder"))
  {
    for (size_t n = 1; n <= 3; ++n)
    {
      trail.assign(1, "length " + std::to_string(n) + ":");
      explore_holder(HolderState(n), holder_ops(n), depth);
    }
  }
  else
  {
    for (size_t n = 1; n <= 2; ++n)
    {
      trail.clear();
      Explore<double>(n).run("double", depth);
      Explore<Q>(n).run("extended", depth);
    }
  }
  printf("sequences %zu transitions %zu compared %zu violations %zu\n", sequences, transitions, compared, violations);
  return 0;
}
