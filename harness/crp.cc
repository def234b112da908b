// C01, C02, D04 (seating concentration), M01.
#include "vp.hh"
#include "distributions/crp.hh"
#include "domain.hh"
#include "util_math.hh"
using namespace vp;

typedef std::map<int, int> Asg;  // reference model: item -> table
static std::string show(const Asg& a) {
  std::string s = "{";
  for (auto& [i, t] : a) s += std::to_string(i) + "@" + std::to_string(t) + " ";
  return s + "}";
}
static std::map<int, std::set<int>> tables_of(const Asg& a) {
  std::map<int, std::set<int>> r;
  for (auto& [i, t] : a) r[t].insert(i);
  return r;
}
static std::string check_crp(const CRP& c, const Asg& a) {
  if (c.N != int(a.size())) return "customer count " + std::to_string(c.N) + " for " + std::to_string(a.size()) + " customers";
  std::map<int, std::set<int>> t;
  for (auto& [k, s] : c.tables) t[k] = std::set<int>(s.begin(), s.end());
  if (t != tables_of(a)) return "tables do not list exactly the seated customers";
  Asg b(c.assignments.begin(), c.assignments.end());
  if (b != a) return "assignments " + show(b) + " expected " + show(a);
  int m = -1;
  for (auto& [i, tt] : a) m = std::max(m, tt);
  if (c.max_table() != m) return "max_table " + std::to_string(c.max_table()) + " expected " + std::to_string(m);
  return "";
}
static CRP build(const Asg& a, double alpha) {
  CRP c;
  c.alpha = alpha;
  for (auto& [i, t] : a) c.incorporate(i, t);
  return c;
}
static double eppf(const Asg& a, double alpha) {
  double s = 0;
  for (auto& [t, c] : tables_of(a)) s += std::log(alpha) + std::lgamma(double(c.size()));
  return s + std::lgamma(alpha) - std::lgamma(a.size() + alpha);
}
static const std::vector<int> ITEMS = {0, 1, 7, -2, 5, 3};

SHARD("C01", "crp") {
  int depth = thorough() ? 8 : 7, ni = thorough() ? 4 : 3;
  std::vector<int> tabs = {0, 1, 2, 5};
  if (!thorough()) tabs = {0, 1, 4};
  std::set<std::string> seen;
  std::vector<std::string> hist;
  std::function<void(const CRP&, Asg&, int)> go = [&](const CRP& c, Asg& a, int left) {
    std::string tr = join(hist, " ");
    at(tr);
    ++S.transitions;
    if (seen.insert(show(a)).second) ++S.states;
    std::string e = check_crp(c, a);
    if (!e.empty()) { violation("C01:crp:bookkeeping", e, tr); return; }
    if (!left) { ++S.traces; return; }
    for (int k = 0; k < ni; ++k) {
      int it = ITEMS[k];
      if (!a.count(it)) {
        for (int t : tabs) {
          CRP d = c;
          a[it] = t;
          hist.push_back("seat(" + std::to_string(it) + "," + std::to_string(t) + ")");
          std::string err = guarded([&] { d.incorporate(it, t); });
          if (!err.empty()) violation("C01:crp:error", err, join(hist, " "));
          else go(d, a, left - 1);
          hist.pop_back();
          a.erase(it);
        }
      } else {
        CRP d = c;
        int t = a[it];
        a.erase(it);
        hist.push_back("unseat(" + std::to_string(it) + ")");
        std::string err = guarded([&] { d.unincorporate(it); });
        if (!err.empty()) violation("C01:crp:error", err, join(hist, " "));
        else go(d, a, left - 1);
        hist.pop_back();
        a[it] = t;
      }
    }
  };
  Asg a;
  go(CRP(), a, depth);
  sample("all seat/unseat histories of depth " + std::to_string(depth) + " over " + std::to_string(ni) + " customers");
}

SHARD("C01", "domain") {
  // the same through Domain; automatic seating explored through every outcome
  int depth = thorough() ? 6 : 5, ni = 3;
  struct Op { int kind, item, table; };
  std::vector<Op> ops;
  for (int k = 0; k < ni; ++k) {
    ops.push_back({0, ITEMS[k], -1});                                  // add, seat drawn
    for (int t : {0, 2}) ops.push_back({1, ITEMS[k], t});              // add at table
    ops.push_back({2, ITEMS[k], 0});                                   // remove
    for (int t : {0, 1, 3}) ops.push_back({3, ITEMS[k], t});           // move
  }
  std::set<std::string> seen;
  struct St { std::vector<Op> h; std::vector<int> picks; };
  std::function<void(std::vector<Op>&, int)> go = [&](std::vector<Op>& h, int left) {
    if (too_many()) return;
    // run the history once per outcome of its automatic seatings
    Asg model;
    bool possible = false;
    std::set<std::string> nexts;
    std::string err = guarded([&] {
      Opts o;
      std::unique_ptr<Domain> d;
      std::string e, tr;
      bool legal = true;
      enumerate(o, [&] {
        d.reset(new Domain("d"));
        model.clear();
        e = ""; tr = ""; legal = true;
        for (auto& p : h) {
          bool has = model.count(p.item);
          tr += " " + std::string(p.kind == 0 ? "add(" : p.kind == 1 ? "addAt(" : p.kind == 2 ? "remove(" : "move(") + std::to_string(p.item) + "," + std::to_string(p.table) + ")";
          at(tr);
          if (p.kind == 0) {
            Asg before = model;
            d->incorporate(nullptr_prng(), p.item);
            int t = d->crp.assignments.at(p.item);
            if (has) { if (t != model[p.item]) e = "re-adding a present item moved it"; }
            else {
              model[p.item] = t;
            }
          } else if (p.kind == 1) {
            if (has) { legal = false; return; }
            d->incorporate(nullptr_prng(), p.item, p.table);
            model[p.item] = p.table;
          } else if (p.kind == 2) {
            if (!has) { legal = false; return; }
            d->unincorporate(p.item);
            model.erase(p.item);
          } else {
            if (!has || model[p.item] == p.table) { legal = false; return; }
            d->set_cluster_assignment_gibbs(p.item, p.table);
            model[p.item] = p.table;
          }
          if (e.empty()) e = check_crp(d->crp, model);
          if (e.empty()) {
            std::set<int> items(d->items.begin(), d->items.end()), want;
            for (auto& [i, t] : model) want.insert(i);
            if (items != want) e = "the item set differs from the customers of the clustering";
          }
          for (auto& [i, t] : model) if (e.empty() && d->get_cluster_assignment(i) != t) e = "get_cluster_assignment disagrees";
          if (!e.empty()) return;
        }
      }, [&](const Exec& x) {
        if (!legal) return;
        ++S.transitions;
        possible = true;
        if (seen.insert(show(model)).second) ++S.states;
        if (!e.empty()) violation("C01:domain:bookkeeping", e, tr + " " + x.str());
      });
    });
    if (!err.empty()) { violation("C01:domain:error", err, sh_trace()); return; }
    if (!h.empty() && !possible) return;
    if (!left) { ++S.traces; return; }
    for (auto& p : ops) { h.push_back(p); go(h, left - 1); h.pop_back(); }
  };
  std::vector<Op> h;
  go(h, depth - 1);
  sample("all add/addAt/remove/move histories of depth " + std::to_string(depth - 1) + " on a domain, every seating outcome");
}

static std::vector<Asg> all_assignments() {
  std::vector<Asg> out;
  std::vector<int> tabs = thorough() ? std::vector<int>{0, 1, 2, 3, 6} : std::vector<int>{0, 1, 2, 5};
  int ni = pick(4, 5, 6);
  for (int mask = 0; mask < (1 << ni); ++mask) {
    std::vector<int> its;
    for (int k = 0; k < ni; ++k) if (mask >> k & 1) its.push_back(ITEMS[k]);
    std::vector<size_t> ix(its.size(), 0);
    for (;;) {
      Asg a;
      for (size_t i = 0; i < its.size(); ++i) a[its[i]] = tabs[ix[i]];
      out.push_back(a);
      size_t j = 0;
      while (j < ix.size() && ++ix[j] == tabs.size()) ix[j++] = 0;
      if (j == ix.size()) break;
    }
  }
  // larger, uneven partitions
  for (int n : {12, 40}) {
    Asg a;
    for (int i = 0; i < n; ++i) a[i] = i % 7 == 0 ? 9 : i % 3 == 0 ? 2 : 4;
    out.push_back(a);
  }
  return out;
}

SHARD("C02", "weights") {
  for (double alpha : {1.0, 0.5, 3.0, 1e-3, 40.0})
    for (auto& a : all_assignments()) {
      if (too_many()) return;
      std::string tr = "alpha=" + num(alpha) + " " + show(a);
      at(tr);
      ++S.states;
      CRP c = build(a, alpha);
      auto ts = tables_of(a);
      auto w = c.tables_weights();
      // every existing table by size, exactly one fresh one by alpha
      int fresh = 0;
      for (auto& [t, x] : w) {
        if (ts.count(t)) { if (!close(x, ts[t].size())) violation("C02:weights:existing", "table " + std::to_string(t) + " of size " + std::to_string(ts[t].size()) + " has weight " + num(x), tr); }
        else { ++fresh; if (!close(x, alpha)) violation("C02:weights:fresh", "fresh table has weight " + num(x), tr); }
      }
      if (fresh != 1) violation("C02:weights:fresh-count", std::to_string(fresh) + " fresh tables on offer", tr);
      for (auto& [t, s] : ts) if (!w.count(t)) violation("C02:weights:missing", "existing table not on offer", tr);
      // probabilities
      double tot = 0;
      std::map<std::string, double> law;
      for (auto& [t, x] : w) { double p = std::exp(c.logp(t)); tot += p; law[std::to_string(t)] = p;
        double want = (ts.count(t) ? ts[t].size() : alpha) / (a.size() + alpha);
        if (!close(p, want)) violation("C02:logp", "probability of table " + std::to_string(t) + " is " + num(p) + " expected " + num(want), tr);
        if (!ts.count(t) && !close(std::exp(c.logp_new_table()), p)) violation("C02:logp-new", "logp_new_table disagrees with logp of the fresh table", tr);
      }
      if (!close(tot, 1)) violation("C02:normalised", "joining probabilities sum to " + num(tot), tr);
      if (!(c.logp(777) == -INFINITY)) violation("C02:absent-table", "a table that is neither existing nor next has positive probability", tr);
      // sampling
      std::map<std::string, double> got;
      std::string why;
      int smp = 0;
      enumerate(Opts(), [&] { CRP d = c; smp = d.sample(nullptr_prng()); }, [&](const Exec& e) { got[std::to_string(smp)] += e.prob; ++S.transitions; });
      if (!same_dist(got, law, 1e-9, &why)) violation("C02:sampling", "table drawn with " + why, tr);
      // score
      double sc = c.logp_score();
      if (!close(sc, eppf(a, alpha))) violation("C02:score", "score " + num(sc) + " expected " + num(eppf(a, alpha)), tr);
      if (a.size() <= 4) {
        std::vector<int> order;
        for (auto& [i, t] : a) order.push_back(i);
        std::sort(order.begin(), order.end());
        do {
          // seat in this order, tables renamed so that each is fresh when first used
          CRP d;
          d.alpha = alpha;
          std::map<int, int> ren;
          double run = 0;
          for (int i : order) {
            int t = a.at(i);
            if (!ren.count(t)) { int n = ren.size(); ren[t] = n; }
            run += d.logp(ren[t]);
            d.incorporate(i, ren[t]);
          }
          ++S.transitions;
          ++S.traces;
          if (!close(run, sc)) violation("C02:sequential", "sequential seating probabilities sum to " + num(run) + " but the score is " + num(sc), tr + " order " + join(order));
        } while (std::next_permutation(order.begin(), order.end()));
      }
      // reseating weights
      for (auto& [i, t] : a) {
        if (a.size() > 12) break;
        auto g = c.tables_weights_gibbs(t);
        Asg b = a;
        b.erase(i);
        auto tb = tables_of(b);
        int fr = 0;
        ++S.transitions;
        for (auto& [k, x] : g) {
          if (tb.count(k)) { if (!close(x, tb[k].size())) violation("C02:gibbs:existing", "table " + std::to_string(k) + " has reseating weight " + num(x) + " for a customer of table " + std::to_string(t), tr); }
          else { ++fr; if (!close(x, alpha)) violation("C02:gibbs:fresh", "fresh table has reseating weight " + num(x), tr); }
        }
        if (fr != 1) violation("C02:gibbs:fresh-count", std::to_string(fr) + " fresh tables on offer when reseating", tr + " customer " + std::to_string(i));
        for (auto& [k, s] : tb) if (!g.count(k)) violation("C02:gibbs:missing", "existing table not on offer when reseating", tr);
        if (!g.count(t)) violation("C02:gibbs:own", "own table not on offer when reseating", tr);
      }
      std::string e = check_crp(c, a);
      if (!e.empty()) violation("C02:purity", "queries changed the state: " + e, tr);
      // Domain forwards the same weights
      Domain dom("d");
      dom.crp.alpha = alpha;
      for (auto& [i, t] : a) dom.incorporate(nullptr_prng(), i, t);
      if (dom.tables_weights() != w) violation("C02:domain-weights", "a domain offers different weights than its clustering", tr);
      for (auto& [i, t] : a) if (dom.tables_weights_gibbs(i) != c.tables_weights_gibbs(t)) violation("C02:domain-gibbs", "a domain offers different reseating weights than its clustering", tr);
    }
  sample("every assignment of up to " + std::to_string(thorough() ? 5 : 4) + " customers to tables {0,1,2,5,..}, 5 concentrations");
}

SHARD("D04", "crp_alpha") {
  std::map<int, std::set<std::string>> grid_of;
  for (double alpha : {1.0, 0.2, 7.0})
    for (auto& a : all_assignments()) {
      if (too_many()) return;
      std::string tr = "crp alpha=" + num(alpha) + " " + show(a);
      at(tr);
      ++S.states;
      std::map<std::string, double> got, want;
      std::map<std::string, double> val;
      CRP c;
      std::string err = guarded([&] {
        enumerate(Opts(), [&] { c = build(a, alpha); c.transition_alpha(nullptr_prng()); },
          [&](const Exec& e) {
            ++S.transitions;
            got[num(c.alpha)] += e.prob;
            val[num(c.alpha)] = c.alpha;
            std::string x = check_crp(c, a);
            if (!x.empty()) violation("D04:crp:data", x, tr);
          });
      });
      if (!err.empty()) { violation("D04:crp:error", err, tr); continue; }
      if (a.empty()) continue;
      std::set<std::string> g;
      std::vector<double> sc;
      for (auto& [k, v] : val) { g.insert(k); sc.push_back(eppf(a, v)); }
      // alternatives too improbable to matter may be missing; compare to the widest grid seen for this size
      auto& G = grid_of[a.size()];
      if (G.empty()) G = g;
      if (g != G) violation("D04:crp:grid", "concentrations on offer depend on more than the number of customers", tr);
      if (g.size() < 2) violation("D04:crp:grid", "only one concentration on offer", tr);
      double z = lse(sc);
      size_t i = 0;
      for (auto& [k, v] : val) want[k] = std::exp(sc[i++] - z);
      std::string why;
      if (!same_dist(got, want, 1e-9, &why)) violation("D04:crp:draw-probability", "concentration chosen with " + why, tr);
    }
}

// ---- M01 -------------------------------------------------------------------------
template <class T> static void vectors(const std::vector<T>& alpha, int maxlen, std::function<void(const std::vector<T>&)> f) {
  for (int n = 1; n <= maxlen; ++n) {
    std::vector<size_t> ix(n, 0);
    for (;;) {
      std::vector<T> v;
      for (auto i : ix) v.push_back(alpha[i]);
      f(v);
      int j = 0;
      while (j < n && ++ix[j] == alpha.size()) ix[j++] = 0;
      if (j == n) break;
    }
  }
}
SHARD("M01", "logs") {
  double inf = INFINITY;
  vectors<double>({0, -inf, -1, 2.5, -1000, 700, -1e5, 1e4}, pick(4, 5, 6), [&](const std::vector<double>& v) {
    if (too_many()) return;
    std::string tr = "[" + join(v) + "]";
    at(tr);
    ++S.states; ++S.transitions;
    double want = lse(v), got = logsumexp(v);
    if (!close(got, want, 1e-10)) violation("M01:logsumexp", "logsumexp " + tr + " = " + num(got) + ", mathematically " + num(want), tr);
    if (want == -inf) return;
    auto n = log_normalize(v);
    for (size_t i = 0; i < v.size(); ++i)
      if (n.size() != v.size() || !close(n[i], v[i] - want, 1e-10)) violation("M01:log_normalize", "entry " + std::to_string(i) + " of log_normalize " + tr, tr);
    std::map<std::string, double> law;
    for (size_t i = 0; i < v.size(); ++i) if (std::exp(v[i] - want) > 0) law[std::to_string(i)] = std::exp(v[i] - want);
    for (int which = 0; which < 2; ++which)
      for (double shift : {0.0, 300.0, -900.0}) {
        auto u = v;
        for (auto& x : u) x += shift;
        std::map<std::string, double> g;
        int r = 0;
        std::string err = guarded([&] {
          enumerate(Opts(), [&] { r = which ? sample_from_logps(u, nullptr_prng()) : log_choice(u, nullptr_prng()); },
                    [&](const Exec& e) { g[std::to_string(r)] += e.prob; ++S.transitions; });
        });
        std::string nm = which ? "sample_from_logps" : "log_choice", why;
        if (!err.empty()) violation("M01:" + nm, err, tr + " shifted by " + num(shift));
        else if (!same_dist(g, law, 1e-9, &why)) violation("M01:" + nm, "index drawn with " + why, tr + " shifted by " + num(shift));
      }
  });
  sample("all vectors of length <= 4 over {0,-inf,-1,2.5,-1000,700,-1e5,1e4}");
}
SHARD("M01", "choice") {
  vectors<double>({0, 1, 0.5, 3, 1e-200, 1e200}, pick(5, 6, 7), [&](const std::vector<double>& w) {
    if (too_many()) return;
    double t = 0;
    for (double x : w) t += x;
    if (!(t > 0)) return;
    std::string tr = "[" + join(w) + "]";
    at(tr);
    ++S.states;
    std::map<std::string, double> law, g;
    for (size_t i = 0; i < w.size(); ++i) if (w[i] / t > 0) law[std::to_string(i)] = w[i] / t;
    int r = 0;
    std::string err = guarded([&] { enumerate(Opts(), [&] { r = choice(w, nullptr_prng()); }, [&](const Exec& e) { g[std::to_string(r)] += e.prob; ++S.transitions;
      if (!(w[r] > 0)) violation("M01:choice:zero-weight", "an index of weight zero was chosen", tr); }); });
    std::string why;
    if (!err.empty()) violation("M01:choice", err, tr);
    else if (!same_dist(g, law, 1e-9, &why)) violation("M01:choice", "index drawn with " + why, tr);
  });
  sample("all weight vectors of length <= 5 over {0,1,0.5,3,1e-200,1e200}");
}
SHARD("M01", "grids") {
  for (double a : {-3.0, 0.0, 1e-4, 2.0}) for (double b : {-3.0, 0.5, 2.0, 1e4}) for (int n = 1; n <= 12; ++n) for (bool e : {true, false}) {
    std::string tr = "linspace(" + num(a) + "," + num(b) + "," + std::to_string(n) + "," + (e ? "endpoint" : "open") + ")";
    at(tr);
    ++S.states; ++S.transitions;
    auto v = linspace(a, b, n, e);
    auto want = [&](int i, double lo, double hi) { int k = e ? n - 1 : n; return k == 0 ? lo : lo + (hi - lo) * i / k; };
    bool ok = int(v.size()) == n;
    for (int i = 0; ok && i < n; ++i) ok = close(v[i], want(i, a, b), 1e-12);
    if (!ok) violation("M01:linspace", tr + " = [" + join(v) + "]", tr);
    if (a > 0 && b > 0) {
      auto u = log_linspace(a, b, n, e);
      ok = int(u.size()) == n;
      for (int i = 0; ok && i < n; ++i) ok = close(u[i], std::exp(want(i, std::log(a), std::log(b))), 1e-10);
      if (!ok) violation("M01:log_linspace", "log_" + tr + " = [" + join(u) + "]", tr);
    }
  }
  for (double z : {0.25, 1.0, 3.5, 100.0}) for (double w : {0.25, 1.0, 3.5, 1000.0}) {
    ++S.transitions;
    if (!close(lbeta(z, w), std::lgamma(z) + std::lgamma(w) - std::lgamma(z + w), 1e-12)) violation("M01:lbeta", "lbeta", num(z) + "," + num(w));
  }
}
SHARD("M01", "product") {
  std::vector<std::vector<int>> pool = {{}, {1}, {2, 3}, {4, 4, 5}, {-1}};
  for (int n = 0; n <= pick(4, 5, 6); ++n) {
    std::vector<size_t> ix(n, 0);
    for (;;) {
      std::vector<std::vector<int>> l, want = {{}};
      std::string tr;
      for (auto i : ix) { l.push_back(pool[i]); tr += "{" + join(pool[i]) + "}"; }
      at(tr);
      for (auto& f : l) {
        std::vector<std::vector<int>> nx;
        for (auto& p : want) for (int e : f) { auto q = p; q.push_back(e); nx.push_back(q); }
        want = nx;
      }
      ++S.states; ++S.transitions;
      std::vector<std::vector<int>> got;
      std::string err = guarded([&] { got = product(l); });
      std::sort(got.begin(), got.end());
      std::sort(want.begin(), want.end());
      if (!err.empty() || got != want) violation("M01:product", "product of " + tr + " has " + std::to_string(got.size()) + " tuples, expected " + std::to_string(want.size()) + " " + err, tr);
      int j = 0;
      while (j < n && ++ix[j] == pool.size()) ix[j++] = 0;
      if (j == n) break;
    }
  }
}
