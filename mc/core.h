// Bounded-exhaustive (stateless) explorer core.
//
// A scenario is a deterministic function of a sequence of nondeterministic
// choices, each made with Run::pick(n).  The explorer enumerates EVERY choice
// sequence by backtracking; one complete sequence is one execution (one case).
// A case is named "<scenario>:<c0>,<c1>,..." and can be replayed on its own.
#ifndef MC_CORE_H_
#define MC_CORE_H_
#include <stdint.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <functional>

namespace mc {

struct Failure { std::string sig, msg; };

extern bool thorough;       // tier
extern bool replaying;

class Run {
 public:
  // Nondeterministic choice in [0,n).
  int pick(int n);
  bool flip() { return pick(2) == 1; }
  template <class T> const T& of(const std::vector<T>& v) { return v[pick((int)v.size())]; }
  template <class T, size_t N> const T& of(const T (&v)[N]) { return v[pick((int)N)]; }
  // Human readable trace of the case (kept for samples and replays).
  void say(const std::string& s);
  // One transition: an operation applied to the implementation.
  void step(int n = 1);
  // A (reference-model or observed) state reached.
  void state(const std::string& canonical);
  void state_hash(uint64_t h);
  // The case reached the oracle with a non-trivial input.
  void nontrivial() { nontrivial_ = true; }
  // Property violated.  Never returns.
  void fail(const std::string& sig, const std::string& msg);
  void check(bool ok, const std::string& sig, const std::string& msg) { if (!ok) fail(sig, msg); }
  template <class A, class B>
  void eq(const A& want, const B& got, const std::string& sig, const std::string& ctx = "") {
    if (!(want == got)) {
      std::ostringstream o;
      o.precision(17);
      o << ctx << " want=[" << want << "] got=[" << got << "]";
      fail(sig, o.str());
    }
  }
  // Prune: this case is not part of the space (not counted).
  void prune();

  // internals
  std::vector<std::pair<int,int> > path_;
  size_t pos_;
  bool nontrivial_;
  std::string trace_;
};

typedef std::function<void(Run&)> Fn;
struct Scenario { std::string name; Fn fn; int tiers; int shard_depth; };
enum { QUICK = 1, THOROUGH = 2, BOTH = 3 };
void add(const std::string& name, Fn fn, int tiers = BOTH, int shard_depth = 2);
// Describe the space and what counts as non-trivial (evidence "rule").
void rule(const std::string& text);
void assume(const std::string& text);
// Per-case CPU limit in seconds before the case counts as non-terminating.
void cpu_limit(int seconds);

uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ULL);
std::string esc(const std::string& s);   // printable rendering
std::string num(double d);               // round-trippable
std::string str(long long v);

// Bytes currently allocated (sanitizer allocator).
size_t heap_bytes();
}  // namespace mc

void mc_setup();  // defined by each harness
#endif
