#include "vp.hh"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <boost/math/distributions/gamma.hpp>
#include <boost/math/distributions/normal.hpp>
#include <boost/math/distributions/students_t.hpp>
#include <cstring>
#include <fstream>

namespace vp {

Stats S;
struct Viol { std::string key, detail, trace; };
static std::vector<Viol> viols;
static std::map<std::string, int> viol_count;
struct Shared { volatile uint64_t progress; char trace[1 << 16]; };
static Shared* sh = nullptr;
static int g_level = 0;
static std::string g_replay;
static int g_maxviol = 12;

void sample(const std::string& s) { if (S.samples.size() < 4) S.samples.push_back(s.substr(0, 400)); }
void cap(const std::string& why) {
  S.exhaustive = false;
  for (auto& c : S.caps) if (c == why) return;
  S.caps.push_back(why);
}
void count(const std::string& n, uint64_t k) { S.counters[n] += k; }
void violation(const std::string& key, const std::string& detail, const std::string& trace) {
  if (++viol_count[key] > 2) return;
  viols.push_back({key, detail.substr(0, 4000), trace.substr(0, 8000)});
}
bool too_many() { return int(viol_count.size()) > g_maxviol; }
void progress() { if (sh) ++sh->progress; }
void at(const std::string& t) {
  if (!sh) return;
  ++sh->progress;
  size_t n = std::min(t.size(), sizeof(sh->trace) - 1);
  memcpy(sh->trace, t.data(), n);
  sh->trace[n] = 0;
}
int level() { return g_level; }
bool thorough() { return g_level >= 1; }
std::string sh_trace() { return sh ? sh->trace : ""; }
std::string replay_filter() { return g_replay; }

void assert_failed(const char* e, const char* f, int l) {
  const char* b = strrchr(f, '/');
  (void)l;
  throw AssertFailed(std::string("assertion failed: ") + e + " (" + (b ? b + 1 : f) + ")");
}
void exit_called(int code) {
  if (code == 0) violation("exit-status", "the code ends the program and reports success", sh ? sh->trace : "");
  throw ExitCalled{code};
}

// ---- chooser ---------------------------------------------------------------
enum Mode { NONE, ENUM, FORCED, GREEDY, SCRIPT };
static Mode mode = NONE;
static Opts opt;
static std::vector<Point> stack;      // decision stack of the current enumeration
static size_t depth = 0;
static Exec cur;
static std::vector<int> forced;
static std::function<int(const std::vector<double>&)> script;
static std::vector<Record*> recorders;
static std::vector<int> pinned;       // answers of a prefix that is not part of the enumeration
static size_t pin_pos = 0;
void pin(const std::vector<int>& p) { pinned = p; pin_pos = 0; }
void unpin() {
  if (pin_pos != pinned.size()) throw Divergence("a replayed prefix made fewer choices");
  pinned.clear(); pin_pos = 0;
}

bool choosing() { return mode != NONE; }

static int decide(const std::vector<double>& w, bool continuous) {
  for (auto* r : recorders) r->weights.push_back(w);
  progress();
  double tot = 0;
  bool bad = false;
  for (double x : w) { if (!(x >= 0) || std::isinf(x)) bad = true; tot += x; }
  if (w.empty()) return 0;
  if (bad || !(tot > 0) || std::isinf(tot)) {
    std::string m = "weighted choice with unusable weights [";
    for (size_t i = 0; i < w.size() && i < 12; ++i) m += (i ? "," : "") + num(w[i]);
    throw BadWeights(m + "]");
  }
  if (mode == ENUM && pin_pos < pinned.size()) {
    int i = pinned[pin_pos++];
    if (i < 0 || i >= int(w.size())) throw Divergence("pinned choice out of range");
    return i;
  }
  if (mode == FORCED || mode == SCRIPT) {
    int i;
    if (mode == FORCED) {
      if (depth >= forced.size()) throw Divergence("replay ran past the recorded choices");
      i = forced[depth++];
    } else {
      i = script(w);
    }
    if (i < 0 || i >= int(w.size())) throw Divergence("replayed choice out of range");
    cur.prob *= w[i] / tot;
    cur.picks.push_back(i);
    if (continuous) cur.continuous = true;
    return i;
  }
  int best = 0;
  for (size_t i = 1; i < w.size(); ++i) if (w[i] > w[best]) best = i;
  if (continuous) best = w.size() / 2;
  if (mode == GREEDY) return best;
  // ENUM
  if (opt.min_exec_p > 0 && cur.prob < opt.min_exec_p) throw Pruned();
  if (opt.horizon >= 0 && int(depth) >= opt.horizon) throw Pruned();
  if (depth < stack.size()) {
    Point& pt = stack[depth];
    int i = pt.alts[pt.cur];
    if (i >= int(w.size()) || !(w[i] > 0)) throw Divergence("divergence while replaying a prefix");
    double p = w[i] / tot;
    if (std::fabs(p - pt.p[pt.cur]) > 1e-9) throw Divergence("divergence while replaying a prefix (probability)");
    cur.prob *= p;
    cur.picks.push_back(i);
    if (pt.continuous) cur.continuous = true;
    ++depth;
    return i;
  }
  int devs = 0;
  for (auto& q : stack) if (q.cur != 0) ++devs;
  Point pt;
  pt.continuous = continuous;
  pt.cur = 0;
  pt.alts.push_back(best);
  bool wide = opt.max_width > 0 && int(w.size()) > opt.max_width;
  if (!wide && (opt.max_dev < 0 || devs < opt.max_dev)) {
    std::vector<int> rest;
    for (int i = 0; i < int(w.size()); ++i)
      if (i != best && w[i] > 0 && w[i] / tot >= opt.min_p && cur.prob * (w[i] / tot) >= opt.min_exec_p)
        rest.push_back(i);
    if (opt.max_alts > 0 && int(rest.size()) > opt.max_alts - 1) {
      // keep evenly spaced ones (always the first and the last)
      std::vector<int> k;
      int m = opt.max_alts - 1;
      for (int j = 0; j < m; ++j)
        k.push_back(rest[m == 1 ? 0 : size_t(j) * (rest.size() - 1) / (m - 1)]);
      rest = k;
    }
    for (int i : rest) pt.alts.push_back(i);
  }
  for (int i : pt.alts) pt.p.push_back(w[i] / tot);
  cur.prob *= pt.p[0];
  cur.picks.push_back(best);
  if (continuous) cur.continuous = true;
  stack.push_back(pt);
  ++depth;
  return best;
}

int pick_weighted(const std::vector<double>& w) { return decide(w, false); }
long pick_uniform_int(long a, long b) {
  if (b < a) throw BadWeights("uniform_int_distribution with b < a");
  if (b - a > 4096) {
    std::vector<double> w(9, 1.0);
    int i = decide(w, true);
    return a + long((double(b) - double(a)) * i / 8);
  }
  return a + decide(std::vector<double>(size_t(b - a + 1), 1.0), false);
}
static int nq() { return mode == ENUM ? opt.quantiles : mode == GREEDY ? 1 : opt.quantiles; }
double pick_quantile() {
  int k = nq();
  int i = decide(std::vector<double>(k, 1.0), true);
  return (i + 0.5) / k;
}
double q_normal(double m, double s) {
  if (!(s >= 0) || !std::isfinite(m) || !std::isfinite(s)) throw BadWeights("normal draw with bad parameters " + num(m) + "," + num(s));
  double q = pick_quantile();
  if (s == 0) return m;
  return boost::math::quantile(boost::math::normal(m, s), q);
}
double q_gamma(double k, double t) {
  if (!(k > 0) || !(t > 0) || std::isinf(k) || std::isinf(t)) throw BadWeights("gamma draw with bad parameters " + num(k) + "," + num(t));
  return boost::math::quantile(boost::math::gamma_distribution<>(k, t), pick_quantile());
}
double q_student(double n) {
  if (!(n > 0) || std::isinf(n)) throw BadWeights("student-t draw with bad parameters " + num(n));
  return boost::math::quantile(boost::math::students_t(n), pick_quantile());
}
int pick_poisson(double mu) {
  if (!(mu > 0) || std::isinf(mu)) throw BadWeights("poisson draw with bad mean " + num(mu));
  // truncate where the tail is negligible
  std::vector<double> w;
  double lp = -mu, p = 0;
  int hi = int(mu + 8 * std::sqrt(mu) + 12);
  if (hi > 2000) return int(mu);
  for (int k = 0; k <= hi; ++k) {
    p = std::exp(k * std::log(mu) - mu - std::lgamma(k + 1.0));
    w.push_back(p);
  }
  (void)lp;
  return decide(w, false);
}
int choose(int n) { return decide(std::vector<double>(n, 1.0), false); }

std::string Exec::str() const {
  std::string s = "choices=[";
  for (size_t i = 0; i < picks.size(); ++i) s += (i ? "," : "") + std::to_string(picks[i]);
  return s + "]";
}

uint64_t enumerate(const Opts& o, const std::function<void()>& body,
                   const std::function<void(const Exec&)>& done) {
  if (mode != NONE) throw std::logic_error("nested enumerate");
  opt = o;
  stack.clear();
  uint64_t n = 0;
  for (;;) {
    depth = 0;
    cur = Exec();
    pinned.clear();
    pin_pos = 0;
    mode = ENUM;
    bool pruned = false;
    try {
      body();
    } catch (const Pruned&) {
      pruned = true;
    } catch (...) {
      mode = NONE;
      throw;
    }
    mode = NONE;
    if (!pruned && depth < stack.size()) throw Divergence("execution made fewer choices than its prefix");
    if (!pruned) { ++n; Exec e = cur; auto saved = stack; done(e); stack = saved; opt = o; }
    progress();
    while (!stack.empty() && stack.back().cur + 1 >= int(stack.back().alts.size())) stack.pop_back();
    if (stack.empty()) break;
    ++stack.back().cur;
    if (n >= o.max_exec) { cap("execution cap " + std::to_string(o.max_exec)); break; }
  }
  return n;
}
static std::vector<Mode> modes;
Forced::Forced(std::vector<int> p) { modes.push_back(mode); mode = FORCED; forced = std::move(p); depth = 0; cur = Exec(); }
Forced::~Forced() { mode = modes.back(); modes.pop_back(); }
Greedy::Greedy(int q) { modes.push_back(mode); mode = GREEDY; opt.quantiles = q; }
Greedy::~Greedy() { mode = modes.back(); modes.pop_back(); }
Scripted::Scripted(std::function<int(const std::vector<double>&)> f) { modes.push_back(mode); mode = SCRIPT; script = f; cur = Exec(); }
Scripted::~Scripted() { mode = modes.back(); modes.pop_back(); }
Record::Record() { recorders.push_back(this); }
Record::~Record() { recorders.pop_back(); }

// ---- helpers ----------------------------------------------------------------
std::string num(double x) { char b[40]; snprintf(b, sizeof b, "%.12g", x); return b; }
std::string guarded(const std::function<void()>& f) {
  try {
    f();
    return "";
  } catch (const Divergence&) {
    throw;
  } catch (const Pruned&) {
    throw;
  } catch (const ExitCalled& e) {
    return "exit(" + std::to_string(e.code) + ")";
  } catch (const AssertFailed& e) {
    return e.msg;
  } catch (const BadWeights& e) {
    return e.msg;
  } catch (const std::exception& e) {
    return std::string("exception: ") + e.what();
  }
}
bool close(double a, double b, double tol) {
  if (std::isnan(a) || std::isnan(b)) return false;
  if (a == b) return true;
  if (std::isinf(a) || std::isinf(b)) return false;
  return std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b));
}
double lse(const std::vector<double>& v) {
  double m = -INFINITY;
  for (double x : v) m = std::max(m, x);
  if (std::isinf(m)) return m;
  double s = 0;
  for (double x : v) s += std::exp(x - m);
  return m + std::log(s);
}
std::string quote(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += char(c);
  }
  return r + "\"";
}
bool same_dist(const std::map<std::string, double>& a, const std::map<std::string, double>& b, double tol, std::string* why) {
  std::set<std::string> keys;
  for (auto& [k, v] : a) keys.insert(k);
  for (auto& [k, v] : b) keys.insert(k);
  for (auto& k : keys) {
    double x = a.count(k) ? a.at(k) : 0, y = b.count(k) ? b.at(k) : 0;
    if (!(std::fabs(x - y) <= tol)) {
      if (why) *why = "outcome " + k + ": probability " + num(x) + " vs expected " + num(y);
      return false;
    }
  }
  return true;
}

// ---- shards -----------------------------------------------------------------
struct Shard { std::string prop, name; ShardFn f; bool thorough_only; };
static std::vector<Shard>& shards() { static std::vector<Shard> v; return v; }
Registrar::Registrar(const std::string& p, const std::string& n, ShardFn f, bool t) { shards().push_back({p, n, f, t}); }
void add_shard(const std::string& p, const std::string& n, ShardFn f) { shards().push_back({p, n, f, false}); }

static std::string out_path;
static void write_result(const std::string& path, const std::string& status) {
  std::string t = path + ".tmp";
  FILE* f = fopen(t.c_str(), "w");
  if (!f) _exit(99);
  fprintf(f, "{\"status\":%s,\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"evaluations\":%llu,\"exhaustive\":%s",
          quote(status).c_str(), (unsigned long long)S.states, (unsigned long long)S.transitions,
          (unsigned long long)S.traces, (unsigned long long)S.evaluations, S.exhaustive ? "true" : "false");
  auto arr = [&](const char* n, const std::vector<std::string>& v) {
    fprintf(f, ",\"%s\":[", n);
    for (size_t i = 0; i < v.size(); ++i) fprintf(f, "%s%s", i ? "," : "", quote(v[i]).c_str());
    fprintf(f, "]");
  };
  arr("samples", S.samples);
  arr("caps", S.caps);
  fprintf(f, ",\"counters\":{");
  bool first = true;
  for (auto& [k, v] : S.counters) { fprintf(f, "%s%s:%llu", first ? "" : ",", quote(k).c_str(), (unsigned long long)v); first = false; }
  fprintf(f, "},\"violations\":[");
  for (size_t i = 0; i < viols.size(); ++i)
    fprintf(f, "%s{\"key\":%s,\"detail\":%s,\"trace\":%s}", i ? "," : "", quote(viols[i].key).c_str(),
            quote(viols[i].detail).c_str(), quote(viols[i].trace).c_str());
  fprintf(f, "]}\n");
  fclose(f);
  rename(t.c_str(), path.c_str());
}

static int watchdog_secs = 40;
static int child(const Shard& s, const std::string& path) {
  int nul = open("/dev/null", O_WRONLY);
  dup2(nul, 1);
  if (!getenv("VP_STDERR")) dup2(nul, 2);
  std::string status = "ok";
  try {
    s.f();
  } catch (const Divergence& e) {
    status = std::string("error: ") + e.what() + " at " + (sh ? sh->trace : "");
  } catch (const ExitCalled& e) {
    violation("unexpected-exit", "the code called exit(" + std::to_string(e.code) + ")", sh->trace);
  } catch (const std::exception& e) {
    violation(std::string("unexpected-exception:") + e.what(), e.what(), sh->trace);
  }
  write_result(path, status);
  return 0;
}

int run_main(int argc, char** argv) {
  std::string prop, out, only;
  int jobs = 8;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&] { return std::string(argv[++i]); };
    if (a == "--prop") prop = val();
    else if (a == "--out") out = val();
    else if (a == "--tier") { std::string t = val(); g_level = t == "deep" ? 2 : t == "thorough" ? 1 : 0; }
    else if (a == "--shard") only = val();
    else if (a == "--jobs") jobs = std::stoi(val());
    else if (a == "--watchdog") watchdog_secs = std::stoi(val());
    else if (a == "--replay") g_replay = val();
    else if (a == "--list") { for (auto& s : shards()) printf("%s %s\n", s.prop.c_str(), s.name.c_str()); return 0; }
  }
  struct Run { size_t idx; pid_t pid; Shared* sh; uint64_t last; double cpu_at; std::string path; bool hung; };
  std::vector<size_t> todo;
  for (size_t i = 0; i < shards().size(); ++i)
    if (shards()[i].prop == prop && (only.empty() || only == shards()[i].name)) todo.push_back(i);
  if (todo.empty()) { fprintf(stderr, "no shards for %s\n", prop.c_str()); return 3; }
  std::vector<Run> running;
  size_t next = 0;
  auto cpu_of = [](pid_t p) {
    std::ifstream f("/proc/" + std::to_string(p) + "/stat");
    std::string l; std::getline(f, l);
    size_t k = l.rfind(')');
    if (k == std::string::npos) return 0.0;
    std::istringstream is(l.substr(k + 2));
    std::string w; double u = 0, s = 0;
    for (int i = 3; i <= 15 && is >> w; ++i) { if (i == 14) u = atof(w.c_str()); if (i == 15) s = atof(w.c_str()); }
    return (u + s) / sysconf(_SC_CLK_TCK);
  };
  while (next < todo.size() || !running.empty()) {
    while (next < todo.size() && int(running.size()) < jobs) {
      Run r;
      r.idx = todo[next++];
      r.path = out + "." + std::to_string(r.idx);
      r.sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      r.last = 0; r.cpu_at = 0; r.hung = false;
      fflush(stdout); fflush(stderr);
      r.pid = fork();
      if (r.pid == 0) {
        sh = r.sh;
        _exit(child(shards()[r.idx], r.path));
      }
      running.push_back(r);
    }
    usleep(20000);
    for (size_t i = 0; i < running.size();) {
      Run& r = running[i];
      int st;
      pid_t w = waitpid(r.pid, &st, WNOHANG);
      if (w == 0) {
        if (r.sh->progress != r.last) { r.last = r.sh->progress; r.cpu_at = cpu_of(r.pid); }
        else if (cpu_of(r.pid) - r.cpu_at > watchdog_secs) { r.hung = true; kill(r.pid, SIGKILL); }
        ++i;
        continue;
      }
      const Shard& s = shards()[r.idx];
      if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
        S = Stats();
        viols.clear();
        viol_count.clear();
        std::string how = r.hung ? "hang" : WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit status " + std::to_string(WEXITSTATUS(st));
        std::string key = r.hung ? "hang" : "crash";
        violation(key, "shard " + s.name + " ended by " + how, r.sh->trace);
        write_result(r.path, r.hung ? "hang" : "crash");
      }
      FILE* f = fopen((r.path + ".name").c_str(), "w");
      fprintf(f, "%s", s.name.c_str());
      fclose(f);
      munmap(r.sh, sizeof(Shared));
      running.erase(running.begin() + i);
    }
  }
  return 0;
}
}  // namespace vp

int main(int argc, char** argv) { return vp::run_main(argc, argv); }
