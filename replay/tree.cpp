// Random trees against a table of children and values.
#include "rt.h"
#include <map>
#include <set>
#include <initializer_list>
#include <il/Tree.h>
#include <string>
using rt::tr;
template <typename T> struct Val;
template <> struct Val<double> { static double get() { return rt::range(-50, 50) * 0.5; } };
template <> struct Val<std::string> { static std::string get() { return std::string(rt::pick(40), char('a' + rt::pick(26))); } };
template <typename T, int n> struct Run {
  static void go() {
    std::map<long, std::set<long>> ch; std::map<long, T> val; std::map<long, long> par; ch[0]; val[0] = T{};
    long depth = rt::pick(3); il::Tree<T, n>* t = rt::coin() ? new il::Tree<T, n>() : new il::Tree<T, n>(depth); int ops = rt::pick(40);
    std::vector<long> nodes(1, 0); CHECK(t->root().index == 0, "root");
    for (int k = 0; k < ops; ++k) {
      long s = nodes[rt::pick(nodes.size())]; long i = rt::pick(n);
      if (s < 300 && rt::coin()) {
        tr("AddChild(%ld, %ld)", s, i); t->AddChild(il::spot_t{s}, i); long c = t->child(il::spot_t{s}, i).index;
        if (ch[s].insert(i).second) { CHECK(!par.count(c), "node %ld is already a child of %ld", c, par[c]); par[c] = s; nodes.push_back(c); ch[c]; val[c] = T{}; }
      } else { T x = Val<T>::get(); tr("Set(%ld)", s); t->Set(il::spot_t{s}, x); val[s] = x; }
      for (long v : nodes) {
        il::spot_t p{v}; CHECK(t->value(p) == val[v], "value of node %ld", v); CHECK(t->hasChild(p) == !ch[v].empty(), "hasChild(%ld)", v);
        if (v > 0) CHECK(t->parent(p).index == par[v], "parent of node %ld is %ld", v, long(t->parent(p).index));
        for (long j = 0; j < n; ++j) { bool h = false; bool z = rt::aborts([&] { h = t->hasChild(p, j); }); CHECK(!z && h == (ch[v].count(j) > 0), "hasChild(%ld, %ld)%s", v, j, z ? " aborts" : ""); }
        il::SmallArray<il::int_t, n> c = t->children(p); CHECK(c.size() == long(ch[v].size()), "children(%ld): %ld of %ld", v, long(c.size()), long(ch[v].size()));
        long q = 0; for (long j : ch[v]) { CHECK(c[q] == j, "children(%ld)[%ld] is %ld", v, q, long(c[q])); ++q; }
      }
    }
    delete t;
  }
};
int main(int argc, char** argv) {
  rt::init(argc, argv);
  while (rt::more()) switch (rt::pick(6)) { case 0: Run<double, 2>::go(); break; case 1: Run<double, 3>::go(); break; case 2: Run<double, 4>::go(); break; case 3: Run<double, 8>::go(); break; case 4: Run<std::string, 2>::go(); break; default: Run<std::string, 4>::go(); }
  return rt::finish();
}
