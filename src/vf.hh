// Choice-sequence property-based testing kernel (interface).
//
// A case is a deterministic function of the sequence of numbers it draws from vf::G.  The kernel
// (vf_main.cc) generates sequences from VERIF_SEED, runs cases in forked batches so that crashes,
// failed assertions, sanitizer reports and hangs are attributed to a case, shrinks the sequence of
// a failing case, and replays it.
#pragma once

#include <cstdint>
#include <cstdlib>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace vf {

struct Failure
{
  std::string msg;
};

// Case abandoned because it outgrew the bounds of the check; never a verdict.
struct Discard {};

class G
{
public:

  G(std::uint64_t seed, const std::vector<std::uint32_t>* replay);

  // Uniform in [0,n). 0 is the simplest choice.
  std::uint32_t below(std::uint64_t n);

  // In [lo,hi].
  int range(int lo, int hi) { return lo + static_cast<int>(below(static_cast<std::uint64_t>(hi - lo + 1))); }

  // True with probability pct/100; a zero choice means false.
  bool chance(unsigned pct) { return below(100) >= 100 - pct; }

  // Biased toward small values, in [lo,hi].
  int small(int lo, int hi)
  {
    const int x = range(lo, hi);
    const int y = range(lo, hi);
    return x < y ? x : y;
  }

  template <typename T>
  const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }

  template <typename T>
  T oneof(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }

  // Fisher-Yates, identity for zero choices.
  template <typename T>
  void shuffle(std::vector<T>& v)
  {
    for (std::size_t i = 0; i + 1 < v.size(); ++i)
    {
      std::swap(v[i], v[i + below(v.size() - i)]);
    }
  }

  void label(const std::string& l) { ++labels[l]; }
  void nontrivial() { nontriv = true; }

  [[noreturn]] void fail(const std::string& m) { throw Failure{m}; }

  // Deterministic 64 bits pseudo-random stream derived from ONE recorded choice; for bulk data.
  std::uint64_t bulk_seed() { return (std::uint64_t(below(1u << 31)) + 1) * 0x9e3779b97f4a7c15ull; }

  std::map<std::string, std::uint64_t> labels;
  bool nontriv = false;
  std::ostringstream desc;

private:

  std::uint64_t s_[2];
  const std::vector<std::uint32_t>* replay_;
  std::size_t pos_ = 0;
  std::uint64_t next();
};

inline std::uint64_t mix(std::uint64_t& s)
{
  s += 0x9e3779b97f4a7c15ull;
  std::uint64_t z = s;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

struct Case
{
  std::string name;
  unsigned weight;
  std::function<void (G&)> fn;
};

std::vector<Case>& cases();

struct Register
{
  Register(const std::string& name, unsigned weight, std::function<void (G&)> fn)
  {
    cases().push_back(Case{name, weight, std::move(fn)});
  }
};

// Property id, non-triviality rule; defined once by each check.
extern const char* const property_id;
extern const char* const rule;

// Live heap allocations made through operator new (exact in every variant).
long live_allocations();

// Known findings observed by a case (identifier -> text); printed by the driver, never a failure.
void known_finding(const std::string& key, const std::string& text);

} // namespace vf

#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
#define VF_CASE(name, weight, fn) static ::vf::Register VF_CAT(vf_reg_, __LINE__)(name, weight, fn)

// Fail with a streamed message.
#define VF_FAIL(g, stream)                                                                          \
  do { std::ostringstream vf_os_; vf_os_ << stream; (g).fail(vf_os_.str()); } while (0)
#define VF_CHECK(g, cond, stream)                                                                   \
  do { if (!(cond)) { std::ostringstream vf_os_; vf_os_ << "[" #cond "] " << stream; (g).fail(vf_os_.str()); } } while (0)
