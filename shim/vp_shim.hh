// Force-included (-include) into every translation unit a check builds.
//
// Puts every source of nondeterminism of the code under test behind a seam the
// explorer owns: the std:: random distributions are replaced by ones that ask
// the active vp::Chooser for the outcome (one branch per outcome of non-zero
// probability).  With no active Chooser the genuine std:: distribution is used.
// Also turns std::exit and failed assertions into exceptions.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <numbers>
#include <numeric>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>
#include "vp_assert.h"

namespace vp {
struct ExitCalled { int code; };
[[noreturn]] void exit_called(int code);
bool choosing();                                     // is a Chooser active?
int pick_weighted(const std::vector<double>& w);     // raw, un-normalised weights
long pick_uniform_int(long a, long b);
double pick_quantile();                              // midpoint quantile in (0,1)
double q_normal(double mean, double sd);
double q_gamma(double shape, double scale);
double q_student(double nu);
int pick_poisson(double mu);
}  // namespace vp

namespace std {
[[noreturn]] inline void vp_exit(int c) { ::vp::exit_called(c); }

template <class T = int> class vp_discrete_distribution {
  std::vector<double> w_;
 public:
  using result_type = T;
  vp_discrete_distribution() : w_{1.0} {}
  template <class It> vp_discrete_distribution(It b, It e) : w_(b, e) {}
  vp_discrete_distribution(std::initializer_list<double> l) : w_(l) {}
  template <class F> vp_discrete_distribution(size_t n, double lo, double hi, F f) {
    std::discrete_distribution<T> d(n, lo, hi, f); w_ = d.probabilities();
  }
  std::vector<double> probabilities() const {
    std::discrete_distribution<T> d(w_.begin(), w_.end()); return d.probabilities();
  }
  void reset() {}
  template <class G> T operator()(G& g) {
    if (vp::choosing()) return T(vp::pick_weighted(w_));
    std::discrete_distribution<T> d(w_.begin(), w_.end()); return d(g);
  }
};
template <class T = int> class vp_uniform_int_distribution {
  T a_, b_;
 public:
  using result_type = T;
  vp_uniform_int_distribution(T a = 0, T b = std::numeric_limits<T>::max()) : a_(a), b_(b) {}
  T a() const { return a_; } T b() const { return b_; }
  void reset() {}
  template <class G> T operator()(G& g) {
    if (vp::choosing()) return T(vp::pick_uniform_int(long(a_), long(b_)));
    std::uniform_int_distribution<long> d(a_, b_); return T(d(g));
  }
};
class vp_bernoulli_distribution {
  double p_;
 public:
  using result_type = bool;
  vp_bernoulli_distribution(double p = 0.5) : p_(p) {}
  void reset() {}
  template <class G> bool operator()(G& g) {
    if (vp::choosing()) return vp::pick_weighted({1 - p_, p_}) == 1;
    std::bernoulli_distribution d(p_); return d(g);
  }
};
template <class T = double> class vp_uniform_real_distribution {
  T a_, b_;
 public:
  using result_type = T;
  vp_uniform_real_distribution(T a = 0, T b = 1) : a_(a), b_(b) {}
  void reset() {}
  template <class G> T operator()(G& g) {
    if (vp::choosing()) return T(a_ + (b_ - a_) * vp::pick_quantile());
    std::uniform_real_distribution<T> d(a_, b_); return d(g);
  }
};
template <class T = double> class vp_normal_distribution {
  T m_, s_;
 public:
  using result_type = T;
  vp_normal_distribution(T m = 0, T s = 1) : m_(m), s_(s) {}
  void reset() {}
  template <class G> T operator()(G& g) {
    if (vp::choosing()) return T(vp::q_normal(m_, s_));
    std::normal_distribution<T> d(m_, s_); return d(g);
  }
};
template <class T = double> class vp_gamma_distribution {
  T k_, t_;
 public:
  using result_type = T;
  vp_gamma_distribution(T k = 1, T t = 1) : k_(k), t_(t) {}
  void reset() {}
  template <class G> T operator()(G& g) {
    if (vp::choosing()) return T(vp::q_gamma(k_, t_));
    std::gamma_distribution<T> d(k_, t_); return d(g);
  }
};
template <class T = double> class vp_student_t_distribution {
  T n_;
 public:
  using result_type = T;
  vp_student_t_distribution(T n = 1) : n_(n) {}
  void reset() {}
  template <class G> T operator()(G& g) {
    if (vp::choosing()) return T(vp::q_student(n_));
    std::student_t_distribution<T> d(n_); return d(g);
  }
};
template <class T = int> class vp_poisson_distribution {
  double m_;
 public:
  using result_type = T;
  vp_poisson_distribution(double m = 1) : m_(m) {}
  void reset() {}
  template <class G> T operator()(G& g) {
    if (vp::choosing()) return T(vp::pick_poisson(m_));
    std::poisson_distribution<T> d(m_); return d(g);
  }
};
}  // namespace std
#ifndef VP_NO_RENAME
#define discrete_distribution vp_discrete_distribution
#define uniform_int_distribution vp_uniform_int_distribution
#define bernoulli_distribution vp_bernoulli_distribution
#define uniform_real_distribution vp_uniform_real_distribution
#define normal_distribution vp_normal_distribution
#define gamma_distribution vp_gamma_distribution
#define student_t_distribution vp_student_t_distribution
#define poisson_distribution vp_poisson_distribution
#define exit vp_exit
inline void vp_exit(int c) { ::vp::exit_called(c); }
#endif
