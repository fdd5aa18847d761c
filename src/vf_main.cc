// Choice-sequence property-based testing kernel (driver). See vf.hh.
#include "vf.hh"

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <new>
#include <unordered_set>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

/*------------------------------------------------------------------------------------------------*/
// Live allocations.

namespace {
std::atomic<long> g_live{0};

void* counted(std::size_t n)
{
  if (n > (std::size_t(1) << 36)) throw std::bad_alloc(); // more than any case could need
  void* p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  g_live.fetch_add(1, std::memory_order_relaxed);
  return p;
}

void uncounted(void* p)
{
  if (p) { g_live.fetch_sub(1, std::memory_order_relaxed); std::free(p); }
}
}

void* operator new(std::size_t n) { return counted(n); }
void* operator new[](std::size_t n) { return counted(n); }
void operator delete(void* p) noexcept { uncounted(p); }
void operator delete[](void* p) noexcept { uncounted(p); }
void operator delete(void* p, std::size_t) noexcept { uncounted(p); }
void operator delete[](void* p, std::size_t) noexcept { uncounted(p); }

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_ASAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__) || defined(VF_ASAN)
extern "C" const char* __asan_default_options()
{
  return "exitcode=77:detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:"
         "hard_rss_limit_mb=3500:handle_abort=0:alloc_dealloc_mismatch=0:"
         "allocator_may_return_null=0:print_summary=1:quarantine_size_mb=16:malloc_context_size=12";
}
extern "C" const char* __ubsan_default_options()
{
  return "halt_on_error=1:exitcode=77:print_stacktrace=1";
}
#endif

namespace vf {

long live_allocations() { return g_live.load(); }

/*------------------------------------------------------------------------------------------------*/

namespace {

constexpr std::size_t max_choices = 1u << 21;

struct Shared
{
  std::uint64_t current;       // index of the case being run
  std::uint64_t done;          // cases completed by this batch
  std::uint64_t nchoices;
  int failed;                  // a Failure was caught
  char msg[8192];
  char desc[16384];
  std::uint32_t choices[max_choices];
};

Shared* shm_slots[64];
Shared* cur_shm = nullptr;

Shared* map_shared()
{
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { std::perror("mmap"); std::exit(3); }
  return static_cast<Shared*>(p);
}

std::map<std::string, std::string> findings;

} // namespace

std::vector<Case>& cases() { static std::vector<Case> c; return c; }

void known_finding(const std::string& key, const std::string& text) { findings[key] = text; }

G::G(std::uint64_t seed, const std::vector<std::uint32_t>* replay)
  : replay_(replay)
{
  s_[0] = mix(seed);
  s_[1] = mix(seed);
  if (!s_[0] && !s_[1]) s_[0] = 1;
}

std::uint64_t G::next()
{
  std::uint64_t s1 = s_[0];
  const std::uint64_t s0 = s_[1];
  const std::uint64_t r = s0 + s1;
  s_[0] = s0;
  s1 ^= s1 << 23;
  s_[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
  return r;
}

std::uint32_t G::below(std::uint64_t n)
{
  if (n == 0) { std::fprintf(stderr, "harness error: below(0)\n"); std::_Exit(90); }
  std::uint32_t v;
  if (replay_)
  {
    v = pos_ < replay_->size() ? (*replay_)[pos_] : 0;
    if (v >= n) v = static_cast<std::uint32_t>(n - 1);
  }
  else
  {
    v = static_cast<std::uint32_t>((next() >> 11) % n);
  }
  ++pos_;
  if (cur_shm)
  {
    if (cur_shm->nchoices < max_choices) cur_shm->choices[cur_shm->nchoices++] = v;
    else throw Discard{};
  }
  return v;
}

/*------------------------------------------------------------------------------------------------*/

namespace {

double cpu_limit = 30; // seconds of CPU time in a single case, far beyond the normal milliseconds

double now()
{
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

std::uint64_t hash_str(const std::string& s)
{
  std::uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}

std::uint64_t case_seed(std::uint64_t seed, std::uint64_t i)
{
  std::uint64_t s = seed * 0x2545F4914F6CDD1Dull + hash_str(property_id) + i * 0x9e3779b97f4a7c15ull;
  return mix(s);
}

void arm_timer(double s)
{
  itimerval t{};
  t.it_value.tv_sec = static_cast<long>(s);
  t.it_value.tv_usec = static_cast<long>((s - static_cast<long>(s)) * 1e6);
  setitimer(ITIMER_PROF, &t, nullptr);
}

const Case* choose(G& g)
{
  unsigned total = 0;
  for (const auto& c : cases()) total += c.weight;
  unsigned x = g.below(total);
  for (const auto& c : cases())
  {
    if (x < c.weight) return &c;
    x -= c.weight;
  }
  return nullptr;
}

// Returns false on failure (message in cur_shm).
bool run_one(G& g, bool& discarded)
{
  discarded = false;
  auto put = [&](const std::string& m)
  {
    std::strncpy(cur_shm->msg, m.c_str(), sizeof(cur_shm->msg) - 1);
    std::strncpy(cur_shm->desc, g.desc.str().c_str(), sizeof(cur_shm->desc) - 1);
    cur_shm->failed = 1;
  };
  try
  {
    const Case* c = choose(g);
    g.label("case:" + c->name);
    g.desc << "[" << c->name << "] ";
    c->fn(g);
    return true;
  }
  catch (const Discard&) { discarded = true; return true; }
  catch (const Failure& f) { put(f.msg); return false; }
  catch (const std::exception& e)
  {
    put(std::string("unexpected exception: ") + e.what());
    return false;
  }
  catch (...) { put("unexpected exception of unknown type"); return false; }
}

struct Stats
{
  std::uint64_t evaluations = 0, discarded = 0;
  std::unordered_set<std::uint64_t> distinct;
  std::map<std::string, std::uint64_t> labels;
  std::vector<std::string> samples;
  std::map<std::string, std::string> known;
};

std::string escape_line(std::string s)
{
  for (auto& c : s) if (c == '\n' || c == '\r') c = ' ';
  return s;
}

// Child side of a batch.
[[noreturn]] void batch_child(std::uint64_t seed, std::uint64_t from, std::uint64_t to, Shared* shm,
                              const std::string& out)
{
  cur_shm = shm;
  shm->done = 0;
  std::map<std::string, std::uint64_t> labels;
  std::vector<std::uint64_t> hashes;
  std::vector<std::string> samples;
  std::uint64_t evals = 0, disc = 0;
  for (std::uint64_t i = from; i < to; ++i)
  {
    shm->current = i;
    shm->nchoices = 0;
    shm->failed = 0;
    arm_timer(cpu_limit);
    bool discarded = false;
    G g(case_seed(seed, i), nullptr);
    if (!run_one(g, discarded)) { std::_Exit(10); }
    ++evals;
    if (discarded) ++disc;
    for (const auto& l : g.labels) labels[l.first] += l.second;
    if (g.nontriv && !discarded)
    {
      std::uint64_t h = 1469598103934665603ull;
      for (std::uint64_t k = 0; k < shm->nchoices; ++k) { h ^= shm->choices[k] + 1; h *= 1099511628211ull; h ^= h >> 29; }
      hashes.push_back(h);
      if (samples.size() < 2) samples.push_back(g.desc.str().substr(0, 700));
    }
    ++shm->done;
  }
  arm_timer(0);
  std::ofstream f(out);
  f << "E " << evals << " " << disc << "\n";
  for (const auto& l : labels) f << "L " << l.second << " " << l.first << "\n";
  for (auto h : hashes) f << "H " << h << "\n";
  for (const auto& s : samples) f << "S " << escape_line(s) << "\n";
  for (const auto& k : findings) f << "K " << k.first << "\t" << escape_line(k.second) << "\n";
  f.close();
  std::_Exit(0);
}

void silence(const std::string& err)
{
  const int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
  rlimit rl{0, 0};
  setrlimit(RLIMIT_CORE, &rl);
}

std::string tail_of(const std::string& path)
{
  std::ifstream f(path);
  std::string all((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  // Keep what matters of a sanitizer report or an assertion.
  std::istringstream is(all);
  std::string line, res;
  int n = 0;
  while (std::getline(is, line) && n < 25)
  {
    if (line.find("WARNING: ASan is ignoring") != std::string::npos) continue;
    if (line.find("False positive error reports") != std::string::npos) continue;
    if (line.find("For details see") != std::string::npos) continue;
    if (line.size() > 300) line = line.substr(0, 300) + "...";
    res += line + "\n";
    ++n;
  }
  return res;
}

enum class Outcome { ok, fail, hang, environment };

struct Result
{
  Outcome outcome = Outcome::ok;
  std::string what;
};

Result classify(int status, Shared* shm, const std::string& err)
{
  Result r;
  if (WIFEXITED(status))
  {
    const int c = WEXITSTATUS(status);
    if (c == 0) return r;
    if (c == 10) { r.outcome = Outcome::fail; r.what = shm->msg; return r; }
    if (c == 90) { r.outcome = Outcome::environment; r.what = "harness error: " + tail_of(err); return r; }
    if (c == 77)
    {
      r.what = "sanitizer report: " + tail_of(err);
      r.outcome = r.what.find("rss limit exhausted") != std::string::npos ? Outcome::hang : Outcome::fail;
      if (r.what.find("failed to allocate") != std::string::npos
          || r.what.find("out of memory") != std::string::npos
          || r.what.find("ReserveShadowMemoryRange") != std::string::npos) r.outcome = Outcome::environment;
      return r;
    }
    r.outcome = Outcome::fail;
    r.what = "process exited with status " + std::to_string(c) + ": " + tail_of(err);
    return r;
  }
  const int s = WTERMSIG(status);
  if (s == SIGKILL) { r.outcome = Outcome::environment; r.what = "killed"; return r; }
  if (s == SIGPROF) { r.outcome = Outcome::hang; r.what = "no result within the CPU bound"; return r; }
  r.outcome = Outcome::fail;
  r.what = std::string("crash: ") + strsignal(s) + ": " + tail_of(err);
  return r;
}

std::string workdir;

// Run a single case in a fresh process, from its seed or from choices.
Result run_single(std::uint64_t seed, std::uint64_t index, const std::vector<std::uint32_t>* choices,
                  Shared* shm, double limit)
{
  const std::string err = workdir + "/single.err";
  shm->nchoices = 0;
  shm->failed = 0;
  std::memset(shm->msg, 0, sizeof(shm->msg));
  std::memset(shm->desc, 0, sizeof(shm->desc));
  const pid_t p = fork();
  if (p == 0)
  {
    silence(err);
    cur_shm = shm;
    arm_timer(limit);
    bool d;
    G g(choices ? 1 : case_seed(seed, index), choices);
    const bool ok = run_one(g, d);
    if (ok) std::strncpy(shm->desc, g.desc.str().c_str(), sizeof(shm->desc) - 1);
    std::_Exit(ok ? 0 : 10);
  }
  int st = 0;
  waitpid(p, &st, 0);
  return classify(st, shm, err);
}

Result run_range(std::uint64_t seed, std::uint64_t from, std::uint64_t to, Shared* shm)
{
  const std::string err = workdir + "/range.err";
  shm->failed = 0;
  const pid_t p = fork();
  if (p == 0)
  {
    silence(err);
    batch_child(seed, from, to, shm, workdir + "/range.out");
  }
  int st = 0;
  waitpid(p, &st, 0);
  return classify(st, shm, err);
}

std::vector<std::uint32_t> shrink(std::vector<std::uint32_t> c, Shared* shm, bool hang)
{
  const double deadline = now() + (hang ? 30 : 60);
  int budget = 1500;
  const double lim = hang ? 5 : cpu_limit;
  auto fails = [&](const std::vector<std::uint32_t>& x)
  {
    if (budget-- <= 0 || now() > deadline) return false;
    const auto r = run_single(0, 0, &x, shm, lim);
    return hang ? r.outcome == Outcome::hang : r.outcome == Outcome::fail;
  };
  auto trim = [](std::vector<std::uint32_t>& x) { while (!x.empty() && x.back() == 0) x.pop_back(); };
  trim(c);
  bool progress = true;
  while (progress && budget > 0 && now() < deadline)
  {
    progress = false;
    // Remove chunks.
    for (std::size_t len = std::max<std::size_t>(1, c.size() / 2); len >= 1; len /= 2)
    {
      for (std::size_t i = 0; i < c.size();)
      {
        auto x = c;
        x.erase(x.begin() + i, x.begin() + std::min(c.size(), i + len));
        trim(x);
        if (fails(x)) { c = x; progress = true; }
        else i += len;
        if (budget <= 0 || now() > deadline) return c;
      }
      if (len == 1) break;
    }
    // Zero chunks.
    for (std::size_t len = std::max<std::size_t>(1, c.size() / 4); len >= 1; len /= 2)
    {
      for (std::size_t i = 0; i < c.size(); i += len)
      {
        auto x = c;
        bool any = false;
        for (std::size_t k = i; k < std::min(c.size(), i + len); ++k) { any |= x[k] != 0; x[k] = 0; }
        trim(x);
        if (any && fails(x)) { c = x; progress = true; }
        if (budget <= 0 || now() > deadline) return c;
      }
      if (len == 1) break;
    }
    // Lower values.
    for (std::size_t i = 0; i < c.size(); ++i)
    {
      std::uint32_t lo = 0, hi = c[i];
      while (lo < hi)
      {
        const std::uint32_t mid = lo + (hi - lo) / 2;
        auto x = c;
        x[i] = mid;
        if (fails(x)) { hi = mid; c = x; progress = true; }
        else lo = mid + 1;
        if (budget <= 0 || now() > deadline) return c;
      }
    }
    trim(c);
  }
  return c;
}

std::string json_str(const std::string& s)
{
  std::string r = "\"";
  for (unsigned char c : s)
  {
    switch (c)
    {
      case '"': r += "\\\""; break;
      case '\\': r += "\\\\"; break;
      case '\n': r += "\\n"; break;
      case '\t': r += "\\t"; break;
      default:
        if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += static_cast<char>(c);
    }
  }
  return r + "\"";
}

struct Options
{
  std::uint64_t seed = 1, n = 1000, batch = 40, from = 0;
  int jobs = 8;
  double wall = 1e9;
  std::string out, replay_out, replay, variant = "default", choices;
};

void read_stats(const std::string& path, Stats& s)
{
  std::ifstream f(path);
  std::string line;
  while (std::getline(f, line))
  {
    if (line.size() < 3) continue;
    std::istringstream is(line.substr(2));
    switch (line[0])
    {
      case 'E': { std::uint64_t a, b; is >> a >> b; s.evaluations += a; s.discarded += b; break; }
      case 'L': { std::uint64_t n; is >> n; std::string l; std::getline(is, l); s.labels[l.substr(1)] += n; break; }
      case 'H': { std::uint64_t h; is >> h; s.distinct.insert(h); break; }
      case 'S': if (s.samples.size() < 200) s.samples.push_back(line.substr(2)); break;
      case 'K': { const auto t = line.find('\t'); s.known[line.substr(2, t - 2)] = line.substr(t + 1); break; }
    }
  }
}

void write_replay(const Options& o, const std::string& kind, const std::vector<std::uint32_t>& c,
                  std::uint64_t from, std::uint64_t to, const std::string& what, const std::string& desc)
{
  std::ofstream f(o.replay_out);
  f << "{\n \"property\": " << json_str(property_id) << ",\n \"variant\": " << json_str(o.variant)
    << ",\n \"kind\": " << json_str(kind) << ",\n \"seed\": " << o.seed
    << ",\n \"from\": " << from << ",\n \"to\": " << to
    << ",\n \"what\": " << json_str(what) << ",\n \"case\": " << json_str(desc)
    << ",\n \"choices\": [";
  for (std::size_t i = 0; i < c.size(); ++i) f << (i ? "," : "") << c[i];
  f << "]\n}\n";
}

// Returns true if the failure is confirmed (and the replay file written).
bool triage(const Options& o, std::uint64_t from, std::uint64_t index, const Result& first, Shared* shm,
            std::string& what)
{
  bool hang = first.outcome == Outcome::hang;
  int n = 0;
  Result r;
  const double lim = hang ? 2 * cpu_limit : cpu_limit;
  for (int k = 0; k < 3; ++k)
  {
    r = run_single(o.seed, index, nullptr, shm, lim);
    if (r.outcome == Outcome::fail || r.outcome == Outcome::hang) ++n;
    else break;
    if (hang && k == 1) { ++n; break; }
  }
  if (n >= 3)
  {
    hang = r.outcome == Outcome::hang;
    std::vector<std::uint32_t> c(shm->choices, shm->choices + shm->nchoices);
    const auto original = c;
    c = shrink(c, shm, hang);
    // Confirm the shrunk sequence 3 times; fall back on the original one.
    bool stable = true;
    Result rr;
    for (int k = 0; k < (hang ? 1 : 3) && stable; ++k)
    {
      rr = run_single(0, 0, &c, shm, lim);
      stable = rr.outcome == Outcome::fail || rr.outcome == Outcome::hang;
    }
    if (!stable)
    {
      c = original;
      rr = run_single(0, 0, &c, shm, lim);
      if (rr.outcome == Outcome::ok) rr = r;
    }
    what = rr.what;
    write_replay(o, "case", c, index, index + 1, rr.what, shm->desc);
    return true;
  }
  if (hang) return false;
  // Not a property of the case alone: replay the history of the process that failed.
  int hits = 0;
  for (int k = 0; k < 3; ++k)
  {
    r = run_range(o.seed, from, index + 1, shm);
    if (r.outcome == Outcome::fail) { ++hits; what = r.what; }
  }
  if (hits >= 2)
  {
    write_replay(o, "range", {}, from, index + 1, what, shm->desc);
    return true;
  }
  return false;
}

int campaign(Options& o)
{
  const double t0 = now();
  Stats stats;
  std::uint64_t unconfirmed = 0, environment = 0;
  std::vector<std::string> notes;
  for (int j = 0; j < o.jobs; ++j) shm_slots[j] = map_shared();
  Shared* spare = map_shared();

  struct Job { pid_t pid = 0; std::uint64_t from = 0, to = 0; std::string out, err; };
  std::vector<Job> jobs(o.jobs);
  std::uint64_t next = o.from;
  const std::uint64_t end = o.from + o.n;
  bool violated = false;
  std::string what;
  std::vector<std::pair<std::uint64_t, std::uint64_t>> pending; // remainders of failed batches

  auto launch = [&](int j, std::uint64_t from, std::uint64_t to)
  {
    Job& job = jobs[j];
    job.from = from;
    job.to = to;
    job.out = workdir + "/b" + std::to_string(j) + ".out";
    job.err = workdir + "/b" + std::to_string(j) + ".err";
    unlink(job.out.c_str());
    shm_slots[j]->done = 0;
    shm_slots[j]->current = from;
    const pid_t p = fork();
    if (p == 0)
    {
      silence(job.err);
      batch_child(o.seed, from, to, shm_slots[j], job.out);
    }
    if (p < 0) { std::perror("fork"); std::exit(3); }
    job.pid = p;
  };

  while (!violated)
  {
    for (int j = 0; j < o.jobs; ++j)
    {
      if (jobs[j].pid) continue;
      if (!pending.empty())
      {
        auto p = pending.back();
        pending.pop_back();
        launch(j, p.first, p.second);
      }
      else if (next < end && now() - t0 < o.wall)
      {
        const std::uint64_t to = std::min(end, next + o.batch);
        launch(j, next, to);
        next = to;
      }
    }
    bool running = false;
    for (auto& j : jobs) running |= j.pid != 0;
    if (!running) break;
    int st = 0;
    const pid_t p = wait(&st);
    if (p < 0) break;
    for (int j = 0; j < o.jobs; ++j)
    {
      if (jobs[j].pid != p) continue;
      Job& job = jobs[j];
      job.pid = 0;
      Result r = classify(st, shm_slots[j], job.err);
      if (r.outcome == Outcome::ok) { read_stats(job.out, stats); break; }
      const std::uint64_t index = shm_slots[j]->current;
      stats.evaluations += shm_slots[j]->done + 1;
      if (r.outcome == Outcome::environment)
      {
        ++environment;
        notes.push_back("batch lost (" + escape_line(r.what) + ")");
        if (environment <= 3 && index + 1 < job.to) pending.emplace_back(index + 1, job.to);
        break;
      }
      // Let the others finish their batch quietly: stop them, they are deterministic anyway.
      for (auto& other : jobs) if (other.pid) { kill(other.pid, SIGKILL); }
      for (auto& other : jobs)
      {
        if (!other.pid) continue;
        waitpid(other.pid, nullptr, 0);
        pending.emplace_back(other.from, other.to);
        other.pid = 0;
      }
      if (triage(o, job.from, index, r, spare, what))
      {
        violated = true;
      }
      else
      {
        ++unconfirmed;
        notes.push_back("unconfirmed failure at case " + std::to_string(index) + ": " + escape_line(r.what.substr(0, 400)));
        if (index + 1 < job.to) pending.emplace_back(index + 1, job.to);
        if (unconfirmed > 5) { pending.clear(); next = end; }
      }
      break;
    }
  }

  std::ofstream f(o.out);
  f << "{\n \"property\": " << json_str(property_id) << ",\n \"variant\": " << json_str(o.variant)
    << ",\n \"violated\": " << (violated ? "true" : "false")
    << ",\n \"what\": " << json_str(what)
    << ",\n \"evaluations\": " << stats.evaluations
    << ",\n \"discarded\": " << stats.discarded
    << ",\n \"distinct_nontrivial\": " << stats.distinct.size()
    << ",\n \"unconfirmed\": " << unconfirmed << ",\n \"environment\": " << environment
    << ",\n \"rule\": " << json_str(rule)
    << ",\n \"wall_s\": " << (now() - t0)
    << ",\n \"labels\": {";
  bool first = true;
  for (const auto& l : stats.labels) { f << (first ? "" : ", ") << json_str(l.first) << ": " << l.second; first = false; }
  f << "},\n \"samples\": [";
  first = true;
  const std::size_t step = std::max<std::size_t>(1, stats.samples.size() / 5);
  for (std::size_t i = 0; i < stats.samples.size(); i += step) { f << (first ? "" : ",\n  ") << json_str(stats.samples[i]); first = false; }
  f << "],\n \"notes\": [";
  first = true;
  for (const auto& n : notes) { f << (first ? "" : ",\n  ") << json_str(n); first = false; }
  f << "],\n \"known\": {";
  first = true;
  for (const auto& k : stats.known) { f << (first ? "" : ", ") << json_str(k.first) << ": " << json_str(k.second); first = false; }
  f << "}\n}\n";
  f.close();
  return violated ? 1 : 0;
}

std::vector<std::uint32_t> read_choices(const std::string& path, std::string& kind, Options& o)
{
  std::ifstream f(path);
  std::string all((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  std::vector<std::uint32_t> c;
  auto field = [&](const std::string& name) -> std::string
  {
    const auto p = all.find("\"" + name + "\": ");
    if (p == std::string::npos) return "";
    return all.substr(p + name.size() + 4);
  };
  kind = field("kind").substr(0, 6) == "\"range" ? "range" : "case";
  if (kind == "range")
  {
    o.seed = std::strtoull(field("seed").c_str(), nullptr, 10);
    o.from = std::strtoull(field("from").c_str(), nullptr, 10);
    o.n = std::strtoull(field("to").c_str(), nullptr, 10) - o.from;
  }
  std::string l = field("choices");
  const auto b = l.find('[');
  if (b != std::string::npos)
  {
    const char* s = l.c_str() + b + 1;
    char* e = nullptr;
    for (;;)
    {
      const auto v = std::strtoull(s, &e, 10);
      if (e == s) break;
      c.push_back(static_cast<std::uint32_t>(v));
      s = e;
      while (*s == ',' || *s == ' ' || *s == '\n') ++s;
    }
  }
  return c;
}

} // namespace

} // namespace vf

#ifdef VF_LIBFUZZER

// Coverage-guided mode: the bytes are the choices. Failures abort the process; the driver converts
// the artifact to a choice sequence, and confirms and shrinks it with the regular binary.
extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* data, std::size_t size)
{
  using namespace vf;
  std::vector<std::uint32_t> c;
  for (std::size_t i = 0; i + 1 < size; i += 2) c.push_back(data[i] | (data[i + 1] << 8));
  if (!cur_shm) cur_shm = map_shared();
  cur_shm->nchoices = 0;
  G g(1, &c);
  bool d = false;
  if (!run_one(g, d))
  {
    std::fprintf(stderr, "VF-FAILURE %s\n", cur_shm->msg);
    std::abort();
  }
  return d ? -1 : 0;
}

#else

int main(int argc, char** argv)
{
  using namespace vf;
  // Addresses order nodes: make them as reproducible as the platform allows.
  const int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !std::getenv("VF_NO_REEXEC"))
  {
    setenv("VF_NO_REEXEC", "1", 1);
    if (personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  // Deep recursion is legitimate; keep a generous, known stack.
  rlimit rl;
  if (getrlimit(RLIMIT_STACK, &rl) == 0 && rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (64u << 20)
      && (rl.rlim_max == RLIM_INFINITY || rl.rlim_max >= (64u << 20)) && !std::getenv("VF_STACK"))
  {
    rl.rlim_cur = 64u << 20;
    setenv("VF_STACK", "1", 1);
    if (setrlimit(RLIMIT_STACK, &rl) == 0) execv("/proc/self/exe", argv);
  }

  Options o;
  for (int i = 1; i + 1 < argc; i += 2)
  {
    const std::string k = argv[i], v = argv[i + 1];
    if (k == "--seed") o.seed = std::strtoull(v.c_str(), nullptr, 10);
    else if (k == "--cases") o.n = std::strtoull(v.c_str(), nullptr, 10);
    else if (k == "--from") o.from = std::strtoull(v.c_str(), nullptr, 10);
    else if (k == "--batch") o.batch = std::strtoull(v.c_str(), nullptr, 10);
    else if (k == "--jobs") o.jobs = std::atoi(v.c_str());
    else if (k == "--wall") o.wall = std::atof(v.c_str());
    else if (k == "--cpu") cpu_limit = std::atof(v.c_str());
    else if (k == "--out") o.out = v;
    else if (k == "--replay-out") o.replay_out = v;
    else if (k == "--replay") o.replay = v;
    else if (k == "--variant") o.variant = v;
    else if (k == "--workdir") workdir = v;
    else { std::fprintf(stderr, "unknown option %s\n", k.c_str()); return 3; }
  }
  if (o.jobs > 60) o.jobs = 60;
  if (workdir.empty()) workdir = ".";

  if (!o.replay.empty())
  {
    // Replay (and shrink further if asked for a replay output).
    std::string kind;
    auto c = read_choices(o.replay, kind, o);
    Shared* shm = map_shared();
    Result r;
    if (kind == "range") r = run_range(o.seed, o.from, o.from + o.n, shm);
    else
    {
      r = run_single(0, 0, &c, shm, 2 * cpu_limit);
      if (!o.replay_out.empty() && (r.outcome == Outcome::fail || r.outcome == Outcome::hang))
      {
        c = shrink(c, shm, r.outcome == Outcome::hang);
        r = run_single(0, 0, &c, shm, 2 * cpu_limit);
        write_replay(o, "case", c, 0, 0, r.what, shm->desc);
      }
    }
    std::printf("%s\ncase: %s\n%s\n", r.outcome == Outcome::ok ? "OK" : "FAILS", shm->desc, r.what.c_str());
    return r.outcome == Outcome::ok ? 0 : 1;
  }
  return campaign(o);
}

#endif
