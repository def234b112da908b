// Exploration runtime: owns all choices the code under test makes, enumerates
// executions, counts states, and records violations.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace vp {

struct AssertFailed : std::exception {
  std::string msg;
  explicit AssertFailed(std::string m) : msg(std::move(m)) {}
  const char* what() const noexcept override { return msg.c_str(); }
};
struct BadWeights : std::exception {
  std::string msg;
  explicit BadWeights(std::string m) : msg(std::move(m)) {}
  const char* what() const noexcept override { return msg.c_str(); }
};
struct Divergence : std::runtime_error { using runtime_error::runtime_error; };
struct Pruned {};
struct ExitCalled;  // defined in shim

// ---- results -------------------------------------------------------------
struct Stats {
  uint64_t states = 0, transitions = 0, traces = 0, evaluations = 0;
  bool exhaustive = true;
  std::vector<std::string> samples, caps;
  std::map<std::string, uint64_t> counters;
};
extern Stats S;
void sample(const std::string& s);                 // keep the first few
void cap(const std::string& why);                  // a bound was hit
void count(const std::string& name, uint64_t n = 1);
// key: stable identifier of what failed (matched against known findings)
void violation(const std::string& key, const std::string& detail, const std::string& trace);
bool too_many();                                   // enough violations for this shard
void at(const std::string& trace);                 // current input / history (for crash reports)
void progress();                                   // pets the watchdog
// how deep: 0, 1 or 2 (check.py says which tier of which property means which)
int level();
bool thorough();     // at least 1
template <class T> T pick(T a, T b, T c) { return level() == 0 ? a : level() == 1 ? b : c; }
std::string sh_trace();
std::string replay_filter();

// ---- chooser --------------------------------------------------------------
struct Opts {
  int max_dev = -1;          // deviations from the most probable answer; -1 unbounded
  double min_p = 0;          // ignore alternatives less probable than this
  int quantiles = 3;         // points per continuous draw
  int max_alts = -1;         // at most this many alternatives at one choice
  uint64_t max_exec = 2000000;
  bool pick_any = true;
  // probability-weighted floor: prune executions with total probability below
  double min_exec_p = 0;
  int max_width = -1;        // draws with more outcomes than this take the most probable one
  int horizon = -1;          // executions making more choices are cut (and not reported)
};
struct Point { std::vector<int> alts; std::vector<double> p; int cur; bool continuous; };
struct Exec {
  double prob = 1;           // probability of this execution (product of choice probs)
  std::vector<int> picks;    // outcome index at each choice
  bool continuous = false;   // a continuous draw was discretised
  std::string str() const;
};
// Runs f once per choice sequence; f must rebuild its own state. Returns the
// number of executions. f receives the Exec by reference (valid after the calls).
// An exception other than Pruned escapes.
uint64_t enumerate(const Opts& o, const std::function<void()>& body,
                   const std::function<void(const Exec&)>& done);
// Inside a body: the next choices take these answers and do not count as part
// of the enumeration (replay of a prefix); unpin() ends the prefix.
void pin(const std::vector<int>& p);
void unpin();
// Run with forced picks (replay); hard error on divergence.
struct Forced { explicit Forced(std::vector<int> picks); ~Forced(); };
// Deterministic scope: every choice takes the most probable alternative.
struct Greedy { explicit Greedy(int quantiles = 1); ~Greedy(); };
// first = always alternative with lowest index
// Environment answers chosen by the harness itself (an explored choice).
int choose(int n);

// Scripted scope: picks given by function (weights) -> index.
struct Scripted {
  explicit Scripted(std::function<int(const std::vector<double>&)> f);
  ~Scripted();
};

// The recorded weights of the choices made while in scope.
struct Record { std::vector<std::vector<double>> weights; Record(); ~Record(); };

// ---- helpers ---------------------------------------------------------------
// Runs f, mapping assertion failures, exits and exceptions to a string ("" = ok).
std::string guarded(const std::function<void()>& f);
bool close(double a, double b, double tol = 1e-8);
double lse(const std::vector<double>& v);
std::string num(double x);
template <class T> std::string str(const T& x) { std::ostringstream o; o << x; return o.str(); }
template <class C> std::string join(const C& c, const char* sep = ",") {
  std::ostringstream o; bool first = true;
  for (const auto& e : c) { if (!first) o << sep; o << e; first = false; }
  return o.str();
}
std::string quote(const std::string& s);
// Compares two outcome distributions (probability per canonical outcome).
bool same_dist(const std::map<std::string, double>& a, const std::map<std::string, double>& b,
               double tol, std::string* why);

// ---- shards -------------------------------------------------------------
using ShardFn = std::function<void()>;
struct Registrar { Registrar(const std::string& prop, const std::string& name, ShardFn f, bool thorough_only = false); };
void add_shard(const std::string& prop, const std::string& name, ShardFn f);
int run_main(int argc, char** argv);
}  // namespace vp
#define VP_CAT2(a, b) a##b
#define VP_CAT(a, b) VP_CAT2(a, b)
#define SHARD(prop, name) \
  static void VP_CAT(shard_, __LINE__)(); \
  static ::vp::Registrar VP_CAT(reg_, __LINE__)(prop, name, VP_CAT(shard_, __LINE__)); \
  static void VP_CAT(shard_, __LINE__)()
#include <random>
inline std::mt19937* nullptr_prng() { static std::mt19937 g(12345); return &g; }
