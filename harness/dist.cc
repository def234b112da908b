// D01-D04: value distributions; explored over operation histories.
#include "fam.hh"
#undef exit
#include <boost/math/distributions/students_t.hpp>
using namespace fam;
using namespace vp;

// ---- D01: every add/remove history ------------------------------------------
template <class T> struct Hist {
  const Fam<T>& f;
  H h;
  std::vector<Op<T>> ops, hist;
  std::map<T, double> data;
  std::vector<Op<T>> prefix;
  std::map<std::string, Obs> expect;
  std::set<std::string> seen;
  int bad = 0;
  Hist(const Fam<T>& f, H h) : f(f), h(h) {
    for (int v = 0; v < int(f.vals.size()); ++v) {
      for (double w : f.weights) ops.push_back({v, w, false});
      ops.push_back({v, 1, true});
      for (double w : f.weights) if (w != 1) ops.push_back({v, -w, false});
    }
  }
  bool legal(const Op<T>& o) {
    double held = data.count(f.vals[o.v]) ? data.at(f.vals[o.v]) : 0;
    return o.un ? held >= 1 : o.w > 0 || held >= -o.w;
  }
  void upd(const Op<T>& o, int sgn) { data[f.vals[o.v]] += sgn * (o.un ? -1.0 : o.w); }
  std::string key() { std::string k; for (auto& [v, w] : data) if (w != 0) k += show(v) + "*" + num(w) + ";"; return k; }
  void check() {
    std::unique_ptr<Distribution<T>> d(f.make(h));
    std::string tr = show_hist(f, h, hist);
    at(tr);
    Obs got;
    std::string e = guarded([&] { for (auto& o : hist) apply(f, *d, o); got = observe(f, *d); });
    if (!e.empty()) { violation("D01:" + f.name + ":error", e, tr); ++bad; return; }
    std::string k = key();
    if (!expect.count(k)) { auto r = fresh(f, h, data); expect[k] = observe(f, *r); ++S.states; }
    std::string df = diff(got, expect.at(k), f.tol);
    ++S.transitions;
    if (!df.empty()) {
      violation("D01:" + f.name + ":differs-from-fresh", df + " (history vs fresh distribution holding {" + k + "})", tr);
      ++bad;
    }
  }
  void go(int depth) {
    if (bad > 20) return;
    check();
    if (!depth) { ++S.traces; return; }
    for (auto& o : ops) if (legal(o)) {
      hist.push_back(o); upd(o, 1);
      go(depth - 1);
      upd(o, -1); hist.pop_back();
    }
  }
};
template <class T> void d01(const Fam<T>& f) {
  int depth = pick(f.depth_q, f.depth_t, f.depth_t + 1);
  bool first = true;
  for (auto& h : f.hypers) {
    Hist<T> x(f, h);
    x.go(first ? depth : level() == 1 ? depth : depth - 1);
    // from loaded states: every history of depth 2 (3) after a longer prefix
    Hist<T> y(f, h);
    for (int v = 0; v < int(f.vals.size()); ++v)
      for (int r = 0; r < 3 + v; ++r) { Op<T> o{v, 1, false}; y.hist.push_back(o); y.upd(o, 1); }
    y.go(thorough() ? 3 : 2);
    // drain a loaded state completely, in value order and reversed
    for (int rev = 0; rev < 2; ++rev) {
      Hist<T> z(f, h);
      for (int r = 0; r < 3; ++r) for (int v = 0; v < int(f.vals.size()); ++v) { Op<T> o{v, 1, false}; z.hist.push_back(o); z.upd(o, 1); }
      int n = f.vals.size();
      for (int i = 0; i < 3 * n; ++i) { Op<T> o{rev ? n - 1 - i / 3 : i % n, 1, true}; z.hist.push_back(o); z.upd(o, 1); z.check(); }
      if (first && !rev) sample(show_hist(f, h, z.hist));
      z.go(1);
    }
    first = false;
  }
}

// ---- D02: score = sum of sequential predictives = closed form -----------------
template <class T> void d02(const Fam<T>& f) {
  int depth = thorough() ? f.depth_t : f.depth_q;
  for (auto& h : f.hypers) {
    std::map<std::string, double> score_of;
    std::map<T, double> data;
    std::vector<Op<T>> hist;
    std::function<void(int, double)> go = [&](int left, double run) {
      if (too_many()) return;
      std::string tr = show_hist(f, h, hist);
      at(tr);
      std::unique_ptr<Distribution<T>> d(f.make(h));
      for (auto& o : hist) apply(f, *d, o);
      double sc = d->logp_score();
      ++S.transitions;
      if (hist.empty() && !close(sc, 0, 1e-9)) violation("D02:" + f.name + ":empty-score", "score of no data is " + num(sc), tr);
      double ref = f.ref_score(data, h);
      if (!close(sc, ref, f.tol)) violation("D02:" + f.name + ":score-formula", "score " + num(sc) + " but the model's marginal likelihood is " + num(ref), tr);
      if (!std::isnan(run) && !close(sc, run, f.tol)) violation("D02:" + f.name + ":score-not-sequential", "score " + num(sc) + " but the sequential predictives sum to " + num(run), tr);
      std::string k;
      for (auto& [v, w] : data) if (w != 0) k += show(v) + "*" + num(w) + ";";
      auto [it, fresh_] = score_of.insert({k, sc});
      if (fresh_) ++S.states;
      if (!close(it->second, sc, f.tol)) violation("D02:" + f.name + ":order-dependent", "score " + num(sc) + " vs " + num(it->second) + " in another order", tr);
      for (T p : f.probes) {
        double lp = d->logp(p), r = f.ref_logp(data, h, p);
        if (!close(lp, r, f.tol)) violation("D02:" + f.name + ":predictive-formula", "log predictive of " + show(p) + " is " + num(lp) + ", the model's is " + num(r), tr);
      }
      if (!left) { ++S.traces; return; }
      for (int v = 0; v < int(f.vals.size()); ++v) {
        T val = f.vals[v];
        double lp = d->logp(val);
        for (double w : f.weights) {
          hist.push_back({v, w, false});
          data[val] += w;
          go(left - 1, w == 1 ? sc + lp : std::nan(""));
          data[val] -= w;
          if (data[val] == 0) data.erase(val);
          hist.pop_back();
        }
      }
    };
    go(depth, 0);
    // chains of unit additions from states reached by removals are covered by
    // D01 (state equality) plus this check.
  }
  sample(f.name + ": all add histories of depth " + std::to_string(depth));
}

// states (data multisets) used by D03 / D04
template <class T> std::vector<std::map<T, double>> states(const Fam<T>& f, int depth) {
  std::vector<std::map<T, double>> out = {{}};
  std::set<std::string> seen = {""};
  size_t b = 0;
  for (int i = 0; i < depth; ++i) {
    size_t e = out.size();
    for (; b < e; ++b)
      for (T v : f.vals)
        for (double w : {1.0, 0.5}) {
          auto d = out[b];
          d[v] += w;
          std::string k;
          for (auto& [x, y] : d) k += show(x) + "*" + num(y) + ";";
          if (seen.insert(k).second) out.push_back(d);
        }
  }
  std::map<T, double> big;
  int i = 0;
  for (T v : f.vals) big[v] = 7 + 5 * i++;
  out.push_back(big);
  return out;
}
template <class T> std::string show_data(const Fam<T>& f, const H& h, const std::map<T, double>& d) {
  std::string s = f.name + "[hypers=" + hs(h) + "] holding {";
  for (auto& [v, w] : d) s += show(v) + "*" + num(w) + ";";
  return s + "}";
}

// ---- D03: normalisation, sampling law, purity -----------------------------------
static void integrate(std::function<double(double)> lp, std::vector<double>* xs, std::vector<double>* cdf) {
  const int n = 6000;
  const double T = 45, dt = 2 * T / n;
  double acc = 0;
  for (int i = 0; i <= n; ++i) {
    double t = -T + i * dt, x = std::sinh(t) * 0.5;
    double g = std::exp(lp(x)) * 0.5 * std::cosh(t) * dt;
    if (i == 0 || i == n) g /= 2;
    acc += g;
    xs->push_back(x);
    cdf->push_back(acc - g / 2);
  }
  cdf->push_back(acc);
}
template <class T> void d03(const Fam<T>& f) {
  auto sts = states(f, pick(2, 3, 4));
  for (auto& h : f.hypers) {
    for (auto& data : sts) {
      if (too_many()) return;
      std::string tr = show_data(f, h, data);
      at(tr);
      ++S.states;
      auto d = fresh(f, h, data);
      Obs before = observe(f, *d);
      // purity of queries (twice, plus an outlying probe)
      {
        std::vector<T> out;
        if (f.from_double) { out = {f.from_double(1e9), f.from_double(-3e7)}; }
        for (T x : out) d->logp(x);
        d->logp_score();
        std::string df = diff(observe(f, *d), before, f.tol);
        if (!df.empty()) violation("D03:" + f.name + ":query-changes-state", df + " after evaluating probabilities only", tr);
      }
      std::map<std::string, double> law;
      if (f.law) {
        law = f.law(data, h, [&](const T& x) { return d->logp(x); });
        double tot = 0;
        for (auto& [k, p] : law) {
          tot += p;
          if (!(p <= 1 + 1e-9)) violation("D03:" + f.name + ":probability-above-one", k + " has probability " + num(p), tr);
        }
        if (!close(tot, 1, 1e-7)) violation("D03:" + f.name + ":not-normalised", "probabilities of the support sum to " + num(tot), tr);
        S.evaluations += law.size();
      }
      std::vector<double> xs, cdf;
      if (f.continuous && f.name.substr(0, 6) != "string") {
        // evaluate on fresh copies so that rounding in extreme tails cannot leak
        auto q = fresh(f, h, data);
        int i = 0;
        integrate([&](double x) { if (++i % 50 == 0) q = fresh(f, h, data); return q->logp(f.from_double(x)); }, &xs, &cdf);
        if (!close(cdf.back(), 1, 2e-4)) violation("D03:" + f.name + ":not-normalised", "predictive integrates to " + num(cdf.back()), tr);
      }
      // sampling
      std::map<std::string, double> got;
      std::vector<std::pair<double, double>> pts;
      double reached = 0;
      std::unique_ptr<Distribution<T>> s;
      T val{};
      Opts o;
      bool unbounded = f.name == "bigram_nolimit" || f.name == "bigram_default";
      if (unbounded) { o.min_exec_p = f.name == "bigram_default" ? 2e-3 : 1e-3; o.horizon = 12; }
      if (f.name == "skellam" || f.name == "string_skellam") o.min_exec_p = 1e-7;
      if (f.continuous) {
        // as many quantiles as the number of draws allows
        size_t n = 0;
        o.quantiles = 1;
        enumerate(o, [&] { s = fresh(f, h, data); val = s->sample(nullptr_prng()); }, [&](const Exec& e) { n = e.picks.size(); });
        o.quantiles = n <= 1 ? 801 : n == 2 ? 61 : n == 3 ? 21 : 9;
      }
      std::string err = guarded([&] {
        enumerate(o, [&] { s = fresh(f, h, data); val = s->sample(nullptr_prng()); },
          [&](const Exec& e) {
            ++S.transitions;
            reached += e.prob;
            std::string df = diff(observe(f, *s), before, f.tol);
            if (!df.empty()) violation("D03:" + f.name + ":sampling-changes-state", df + " after drawing " + show(val), tr + " " + e.str());
            if (f.continuous) pts.push_back({f.to_double(val), e.prob});
            else got[show(val)] += e.prob;
          });
      });
      if (!err.empty()) { violation("D03:" + f.name + ":sampling-error", err, tr); continue; }
      S.traces += f.continuous ? pts.size() : got.size();
      if (!f.continuous && !unbounded && !law.empty()) {
        std::string why;
        if (!same_dist(got, law, f.name.find("skellam") != std::string::npos ? 1e-4 : 1e-9, &why))
          violation("D03:" + f.name + ":sampling-law", "drawn with " + why, tr);
      }
      if (unbounded) {
        // every string whose execution was completed must have exactly its predictive probability
        for (auto& k : got) (void)k;
        std::map<std::string, double> again;
        enumerate(o, [&] { s = fresh(f, h, data); val = s->sample(nullptr_prng()); },
          [&](const Exec& e) {
            double p = 0;
            auto r = fresh(f, h, data);
            p = std::exp(r->logp(val));
            if (std::fabs(got[show(val)] - p) > 1e-9 && got[show(val)] > 3e-3)
              violation("D03:" + f.name + ":sampling-law", "drawn " + show(val) + " with probability " + num(got[show(val)]) + " but its predictive probability is " + num(p), tr);
          });
        cap("unbounded strings: executions of at most 12 draws and probability >= " + num(o.min_exec_p));
      }
      if (f.continuous && !xs.empty()) {
        std::sort(pts.begin(), pts.end());
        double acc = 0, worst = 0, wx = 0;
        size_t j = 0;
        for (size_t i = 0; i < pts.size(); ++i) {
          while (j + 1 < xs.size() && xs[j + 1] <= pts[i].first) ++j;
          double c = cdf[j];
          if (j + 1 < xs.size() && xs[j + 1] > xs[j])
            c += ((j + 1 < xs.size() ? cdf[j + 1] : 1.0) - cdf[j]) * (pts[i].first - xs[j]) / (xs[j + 1] - xs[j]);
          double mid = acc + pts[i].second / 2;
          if (std::fabs(mid - c) > worst) { worst = std::fabs(mid - c); wx = pts[i].first; }
          acc += pts[i].second;
        }
        count("continuous-sampling-comparisons");
        std::string key = ":sampling-law";
        if (worst > 0.03 && f.name == "zero_mean_normal") {
          // known finding: the scale is drawn from beta + sum x^2 (not half of it)
          // tell that exact law apart from any other deviation
          double n = 0, ss = 0, acc2 = 0, w2 = 0;
          for (auto& [v, w] : data) { double x = f.to_double(v); n += w; ss += w * x * x; }
          double an = h[0] + n / 2, sc = std::sqrt((h[1] + ss) / an);
          for (auto& [x, pr] : pts) {
            double c = boost::math::cdf(boost::math::students_t(2 * an), x / sc);
            w2 = std::max(w2, std::fabs(acc2 + pr / 2 - c));
            acc2 += pr;
          }
          if (w2 < 0.01) key = ":sampling-law-doubled-sum-of-squares";
        }
        if (worst > 0.03)
          violation("D03:" + f.name + key, "P(sample <= " + num(wx) + ") differs from the predictive cdf by " + num(worst), tr);
      }
    }
  }
  sample(f.name + ": " + std::to_string(sts.size()) + " data states x " + std::to_string(f.hypers.size()) + " hyperparameter settings");
}

// ---- D04: hyperparameter grid draws ----------------------------------------------
template <class T> void d04(const Fam<T>& f) {
  auto sts = states(f, pick(2, 3, 4));
  bool sk = f.name.find("skellam") != std::string::npos;
  std::map<std::string, H> grid;   // hyperparameter settings reachable at all
  auto outcomes = [&](const H& h, const std::map<T, double>& data, std::map<std::string, double>* got, std::map<std::string, H>* hy, const std::string& tr, bool chk) {
    std::unique_ptr<Distribution<T>> d;
    std::vector<std::pair<H, double>> res;
    std::string err = guarded([&] {
      enumerate(Opts(), [&] { d = fresh(f, h, data); d->transition_hyperparameters(nullptr_prng()); },
        [&](const Exec& e) {
          H n = f.hyp(*d);
          (*got)[hs(n)] += e.prob;
          (*hy)[hs(n)] = n;
          ++S.transitions;
          if (chk) {
            auto r = fresh(f, n, data);
            std::string df = diff(observe(f, *d), observe(f, *r), f.tol);
            if (!df.empty()) violation("D04:" + f.name + ":after-draw", df + " (vs a fresh distribution with hyperparameters " + hs(n) + ")", tr + " " + e.str());
            T extra = f.vals[0];
            d->incorporate(extra); r->incorporate(extra);
            df = diff(observe(f, *d), observe(f, *r), f.tol);
            if (!df.empty()) violation("D04:" + f.name + ":after-draw-and-add", df, tr + " " + e.str());
          }
        });
    });
    if (!err.empty()) violation("D04:" + f.name + ":error", err, tr);
  };
  std::map<std::string, double> g0;
  std::map<T, double> none;
  for (auto& h : f.hypers) if (!sk || h == f.hypers[0]) outcomes(h, none, &g0, &grid, f.name + " empty", false);
  if (grid.size() < 2) violation("D04:" + f.name + ":grid", "only " + std::to_string(grid.size()) + " hyperparameter settings are reachable", f.name);
  for (auto& data : sts)
    for (auto& h : f.hypers) {
      if (too_many()) return;
      std::string tr = show_data(f, h, data);
      at(tr);
      ++S.states;
      std::map<std::string, double> got, want;
      std::map<std::string, H> hy;
      outcomes(h, data, &got, &hy, tr, true);
      for (auto& [k, n] : hy) {
        std::string kk = k;
        if (sk) {  // the latent rates are not hyperparameters: they stay put
          if (n[4] != h[4] || n[5] != h[5]) { violation("D04:" + f.name + ":latents-moved", "latent rates changed to " + k, tr); continue; }
          H z = n; z[4] = f.hypers[0][4]; z[5] = f.hypers[0][5]; kk = hs(z);
        }
        if (!grid.count(kk)) violation("D04:" + f.name + ":off-grid", "chose " + k + ", never offered for empty data", tr);
      }
      std::vector<double> sc;
      std::vector<std::string> ks;
      for (auto& [k, n] : grid) {
        H m = n;
        double v;
        if (sk) {
          m[4] = h[4]; m[5] = h[5];
          auto ln = [](double mu, double mean, double sd) { double y = (std::log(mu) - mean) / sd; return -y * y / 2 - std::log(mu * sd) - 0.5 * std::log(2 * M_PI); };
          v = ln(h[4], m[0], m[2]) + ln(h[5], m[1], m[3]);
        } else {
          v = fresh(f, m, data)->logp_score();
        }
        if (std::isnan(v)) continue;
        sc.push_back(v);
        ks.push_back(hs(m));
      }
      double z = lse(sc);
      for (size_t i = 0; i < sc.size(); ++i) want[ks[i]] = std::exp(sc[i] - z);
      std::string why;
      if (!same_dist(got, want, 1e-9, &why)) violation("D04:" + f.name + ":draw-probability", "hyperparameters chosen with " + why, tr);
    }
  sample(f.name + ": grid of " + std::to_string(grid.size()) + " points, " + std::to_string(sts.size()) + " data states");
}
// latent rates of the non-conjugate family: Metropolis-Hastings from the prior
static void d04_theta(Fam<int> f) {
  const int K = 7;
  for (auto& data : states(f, pick(2, 3, 4)))
    for (auto& h : f.hypers) {
      std::string tr = show_data(f, h, data) + " transition_theta";
      at(tr);
      Opts o; o.quantiles = K;
      std::map<std::string, double> got, want, prop;
      std::unique_ptr<Distribution<int>> d;
      // the proposals: fresh draws from the prior
      std::vector<H> props;
      enumerate(o, [&] { d = fresh(f, h, data); d->init_theta(nullptr_prng()); },
        [&](const Exec& e) { H n = f.hyp(*d); props.push_back(n); prop[hs(n)] += e.prob; });
      double s0 = fresh(f, h, data)->logp_score(), stay = 0;
      for (auto& n : props) {
        double a = std::min(1.0, std::exp(fresh(f, n, data)->logp_score() - s0));
        if (std::isnan(a)) a = 0;
        want[hs(n)] += prop[hs(n)] * a;
        stay += prop[hs(n)] * (1 - a);
      }
      want[hs(h)] += stay;
      std::string err = guarded([&] {
        enumerate(o, [&] { d = fresh(f, h, data); d->transition_theta(nullptr_prng()); },
          [&](const Exec& e) {
            ++S.transitions;
            H n = f.hyp(*d);
            got[hs(n)] += e.prob;
            std::string df = diff(observe(f, *d), observe(f, *fresh(f, n, data)), f.tol);
            if (!df.empty()) violation("D04:skellam:theta-after", df, tr);
          });
      });
      if (!err.empty()) { violation("D04:skellam:theta-error", err, tr); continue; }
      ++S.states;
      got.erase(hs(h)); want.erase(hs(h));
      std::string why;
      if (!same_dist(got, want, 1.01 / (K * K * K), &why)) violation("D04:skellam:theta-acceptance", "latent rates moved with " + why, tr);
    }
}

struct Reg {
  Reg() {
    int part = 0;
    for_all([&](auto f) {
      add_shard("D01", f.name, [f] { d01(f); });
      add_shard("D02", f.name, [f] { d02(f); });
      add_shard("D03", f.name, [f] { d03(f); });
      if (f.name != "bigram_nolimit" && f.name != "categorical1") add_shard("D04", f.name, [f] { d04(f); });
    });
    add_shard("D04", "skellam_theta", [] { d04_theta(skellam()); });
    auto lg = skellam_large();
    add_shard("D01", lg.name, [lg] { d01(lg); });
    add_shard("D02", lg.name, [lg] { d02(lg); });
    add_shard("D04", "skellam_large_theta", [] { d04_theta(skellam_large()); });
    // a value so extreme that its probability underflows to zero
    auto ex = skellam();
    ex.name = "skellam_extreme";
    ex.vals = {0, 3000};
    ex.probes = {0, 1};
    ex.hypers = {ex.hypers[0]};
    add_shard("D01", ex.name, [ex] { d01(ex); });
  }
} reg;
