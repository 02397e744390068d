// Runs one generated model: input lines "mask p v0 v1 ..." -> its rows and entries.
#include <cstdio>
#include <iostream>
#include <sstream>
int main(int argc, char **argv)
{
  std::string line;
  std::vector<std::string> names;
  for (int i = 1; i < argc; ++i) names.push_back(argv[i]);
  while (std::getline(std::cin, line))
  {
    std::istringstream is(line);
    unsigned mask; double p; is >> mask >> p;
    NodeKeeper nk; NodeKeeper::Solution sol(names.size());
    for (size_t i = 0; i < names.size(); ++i)
    {
      is >> sol[i];
      nk.nodes[names[i]] = CircuitNode{(i < 3 && (mask >> i & 1)) ? size_t(1000000000) : i, i < 3 && (mask >> i & 1)};
    }
    std::vector<std::string> ext(names.begin(), names.begin() + 2);
    InstanceModel *m = MODEL_create(&nk, "inst", ext);
    printf("B %d %d\n", int(m->addParam("p", p)), int(m->addParam("nosuch", p)));
    auto out = [](const char *t, dsMath::RealRowColValueVec<double> &a, std::vector<std::pair<int, double>> &r) {
      for (auto &x : r) printf("%sr %d %.17g\n", t, x.first, x.second);
      for (auto &x : a) printf("%sm %d %d %.17g\n", t, int(x.row), int(x.col), x.val);
    };
    dsMath::RealRowColValueVec<double> a; std::vector<std::pair<int, double>> r;
    m->assembleDC_impl(sol, a, r); out("D", a, r);
    a.clear(); r.clear(); m->assembleTran_impl(0.375, sol, &a, r); out("T", a, r);
    a.clear(); r.clear(); m->assembleTran_impl(2.0, sol, nullptr, r); out("N", a, r);
    printf("E\n");
    delete m;
  }
  return 0;
}
