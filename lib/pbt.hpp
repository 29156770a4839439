// A small property-based testing engine.
//
// A test case is a function of a sequence of integer choices.  Random cases
// draw the choices from a generator seeded by (VERIF_SEED, worker, index);
// replays and shrinking feed an explicit sequence instead (0, the simplest
// choice, once it is used up).  Shrinking edits the sequence, so generators
// need no shrinkers of their own and a replay file is just the sequence.
//
// Cases run in forked workers: a crash, a sanitizer report or a hang is a
// failure of the case that was running, and is shrunk and replayed like any
// other.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_ASAN 1
#endif
#endif
#ifdef PBT_ASAN
#include <sanitizer/allocator_interface.h>
#endif

// there in the coverage build of tools/coverage.py only
extern "C" int __llvm_profile_write_file() __attribute__((weak));
extern "C" void __llvm_profile_set_filename(const char*) __attribute__((weak));

namespace pbt {

inline uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

inline double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

struct Failure {
  std::string message;
};

enum { MaxChoices = 1 << 17, MaxText = 1 << 16, MaxHashes = 1 << 21,
       MaxClasses = 96, MaxSamples = 10, SampleText = 1200 };

struct ClassCount {
  char name[56];
  uint64_t count;
};

// Shared between the parent and one worker.
struct Shared {
  volatile uint64_t case_index;   // case being run
  volatile uint64_t cases_done;
  volatile double case_started;
  volatile uint32_t num_choices;
  volatile uint32_t finished;     // worker ran to its end
  volatile uint32_t failed;       // a Failure was caught
  volatile uint64_t nontrivial;
  volatile uint64_t num_hashes;
  volatile uint64_t excluded;
  char message[MaxText];
  char notes[MaxText];
  ClassCount classes[MaxClasses];
  char samples[MaxSamples][SampleText];
  volatile uint32_t num_samples;
  uint64_t choices[MaxChoices];
  uint64_t hashes[MaxHashes];
};

class Case {
 public:
  Case(Shared* sh, uint64_t seed) : sh_(sh), state_(seed) { start(); }
  Case(Shared* sh, const std::vector<uint64_t>* replay)
      : sh_(sh), replay_(replay) {
    start();
  }

  // Uniform in [0, bound].
  uint64_t draw(uint64_t bound) {
    uint64_t v;
    if (replay_) {
      v = pos_ < replay_->size() ? (*replay_)[pos_] : 0;
      if (v > bound) v = bound;
    } else {
      state_ = state_ + 0x9e3779b97f4a7c15ull;
      uint64_t r = mix(state_);
      v = bound == ~0ull ? r
                         : static_cast<uint64_t>(
                               (static_cast<unsigned __int128>(r) *
                                (static_cast<unsigned __int128>(bound) + 1)) >>
                               64);
    }
    ++pos_;
    uint32_t n = sh_->num_choices;
    if (n < MaxChoices) {
      sh_->choices[n] = v;
      sh_->num_choices = n + 1;
    }
    return v;
  }
  template <class A, class B>
  int64_t range(A lo_, B hi_) {  // inclusive; lo is the simplest
    int64_t lo = static_cast<int64_t>(lo_), hi = static_cast<int64_t>(hi_);
    if (hi <= lo) return lo;
    return lo + static_cast<int64_t>(
                    draw(static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo)));
  }
  // Mostly small values, sometimes up to max.
  size_t size(size_t max) {
    if (max == 0) return 0;
    switch (draw(3)) {
      case 0: return range(0, std::min<size_t>(max, 3));
      case 1: return range(0, std::min<size_t>(max, 12));
      case 2: return range(0, std::min<size_t>(max, 64));
      default: return range(0, max);
    }
  }
  bool chance(unsigned num, unsigned den) {  // false is the simplest
    return draw(den - 1) >= den - num;
  }
  bool boolean() { return draw(1) == 1; }
  // 64-bit values with edges.
  uint64_t u64() {
    switch (draw(5)) {
      case 0: return draw(16);
      case 1: return draw(~0ull);
      case 2: return 1ull << draw(63);
      case 3: return (1ull << draw(63)) - 1;
      case 4: return ~draw(16);
      default: {
        uint64_t b = draw(63);
        return draw((1ull << b) * 2 - 1);
      }
    }
  }
  int64_t i64() {
    uint64_t v = u64();
    return static_cast<int64_t>(v);
  }
  template <class T>
  const T& pick(const std::vector<T>& v) {
    return v[draw(v.size() - 1)];
  }
  template <class T, size_t N>
  const T& pick(const T (&v)[N]) {
    return v[draw(N - 1)];
  }
  // Chosen by weight; index 0 is the simplest.
  size_t weighted(std::initializer_list<unsigned> w) {
    uint64_t total = 0;
    for (auto x : w) total += x;
    uint64_t r = draw(total - 1);
    size_t i = 0;
    for (auto x : w) {
      if (r < x) return i;
      r -= x;
      ++i;
    }
    return 0;
  }
  std::string bytes(size_t n) {  // arbitrary bytes, cheap in choices
    std::string s;
    s.reserve(n);
    if (n > 64) {
      uint64_t x = draw(~0ull);
      for (size_t i = 0; i < n; ++i) {
        if (i % 8 == 0) x = mix(x);
        s.push_back(static_cast<char>(x >> (8 * (i % 8))));
      }
      return s;
    }
    for (size_t i = 0; i < n; ++i) s.push_back(static_cast<char>(draw(255)));
    return s;
  }
  std::string over(const std::string& alphabet, size_t n) {
    std::string s;
    for (size_t i = 0; i < n; ++i) s.push_back(alphabet[draw(alphabet.size() - 1)]);
    return s;
  }

  // --- reporting -----------------------------------------------------------
  template <class... A>
  void note(const A&... a) {
    if (note_len_ > MaxText - 2048) return;
    std::ostringstream os;
    int unused[] = {0, ((void)(os << a), 0)...};
    (void)unused;
    append(os.str() + "; ");
  }
  void nontrivial() { nontrivial_ = true; }
  void classify(const std::string& label) { labels_.push_back(label); }
  void classify(const std::string& label, bool b) {
    if (b) labels_.push_back(label);
  }
  void exclude(const std::string& label) {
    labels_.push_back("excluded:" + label);
    sh_->excluded = sh_->excluded + 1;
  }
  template <class... A>
  [[noreturn]] void fail(const A&... a) {
    std::ostringstream os;
    int unused[] = {0, ((void)(os << a), 0)...};
    (void)unused;
    throw Failure{os.str()};
  }
  template <class... A>
  void check(bool ok, const A&... a) {
    if (!ok) fail(a...);
  }
  template <class X, class Y>
  void equal(const X& x, const Y& y, const std::string& what) {
    if (!(x == y)) fail(what, ": got ", show(x), ", expected ", show(y));
  }
  template <class T>
  static std::string show(const T& t) {
    std::ostringstream os;
    os << t;
    return os.str();
  }
  static std::string show(const std::string& t) { return quote(t); }
  static std::string quote(const std::string& s, size_t max = 200) {
    std::string r = "\"";
    char b[8];
    for (size_t i = 0; i < s.size() && i < max; ++i) {
      unsigned char c = s[i];
      if (c == '"' || c == '\\') {
        r += '\\';
        r += c;
      } else if (c < 32 || c >= 127) {
        snprintf(b, sizeof b, "\\x%02x", c);
        r += b;
      } else {
        r += c;
      }
    }
    r += '"';
    if (s.size() > max) r += "...(" + std::to_string(s.size()) + " bytes)";
    return r;
  }

  bool is_nontrivial() const { return nontrivial_; }
  const std::vector<std::string>& labels() const { return labels_; }
  uint64_t hash() const {
    uint64_t h = 1469598103934665603ull;
    for (uint32_t i = 0; i < sh_->num_choices; ++i) h = mix(h ^ sh_->choices[i]);
    return h;
  }

 private:
  void start() {
    sh_->num_choices = 0;
    sh_->notes[0] = 0;
    note_len_ = 0;
  }
  void append(const std::string& s) {
    size_t n = std::min<size_t>(s.size(), MaxText - 1 - note_len_);
    memcpy(sh_->notes + note_len_, s.data(), n);
    note_len_ += n;
    sh_->notes[note_len_] = 0;
  }
  Shared* sh_;
  uint64_t state_ = 0;
  const std::vector<uint64_t>* replay_ = nullptr;
  size_t pos_ = 0;
  size_t note_len_ = 0;
  bool nontrivial_ = false;
  std::vector<std::string> labels_;
};

struct Property {
  std::string name;
  std::function<void(Case&)> body;
  bool concurrent = false;    // outcome may depend on the scheduler
  double hang_seconds = 20;   // a case that runs longer does not terminate
  bool check_memory = false;  // growth of the heap over repeats is a failure
  bool check_fds = false;     // growth of the fd table is a failure
};

inline std::vector<Property>& registry() {
  static std::vector<Property> r;
  return r;
}
struct Register {
  Register(Property p) { registry().push_back(std::move(p)); }
};
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// PROPERTY(name, options...) { body using Case& c }
#define PROPERTY(NAME, ...)                                               \
  static void PBT_CAT(pbt_body_, NAME)(pbt::Case & c);                    \
  static pbt::Register PBT_CAT(pbt_reg_, NAME)([] {                       \
    pbt::Property p;                                                      \
    p.name = #NAME;                                                       \
    p.body = PBT_CAT(pbt_body_, NAME);                                    \
    __VA_ARGS__;                                                          \
    return p;                                                             \
  }());                                                                   \
  static void PBT_CAT(pbt_body_, NAME)(pbt::Case & c)

inline int count_fds() {
  int n = 0;
  for (int fd = 0; fd < 256; ++fd) {
    if (fcntl(fd, F_GETFD) != -1) ++n;
  }
  return n;
}
inline size_t heap_bytes() {
#ifdef PBT_ASAN
  return __sanitizer_get_current_allocated_bytes();
#else
  return 0;
#endif
}

// Runs one case; returns true if it passed.
inline bool run_case(const Property& p, Case& c, Shared* sh) {
  try {
    p.body(c);
    return true;
  } catch (const Failure& f) {
    snprintf(sh->message, MaxText, "%s", f.message.c_str());
  } catch (const std::exception& e) {
    snprintf(sh->message, MaxText, "unexpected exception: %s", e.what());
  } catch (...) {
    snprintf(sh->message, MaxText, "unexpected exception of unknown type");
  }
  return false;
}

// Runs a choice sequence to completion, with the resource checks.
inline bool run_sequence(const Property& p, const std::vector<uint64_t>& seq,
                         Shared* sh) {
  {
    Case c(sh, &seq);
    if (!run_case(p, c, sh)) return false;
  }
  if (p.check_memory || p.check_fds) {
    size_t m[5];
    int f[5];
    for (int i = 0; i < 5; ++i) {
      Case c(sh, &seq);
      if (!run_case(p, c, sh)) return false;
      m[i] = heap_bytes();
      f[i] = count_fds();
    }
    if (p.check_memory && m[1] < m[2] && m[2] < m[3] && m[3] < m[4]) {
      snprintf(sh->message, MaxText,
               "heap grows on every repeat of the same case: %zu %zu %zu %zu",
               m[1], m[2], m[3], m[4]);
      return false;
    }
    if (p.check_fds && f[1] < f[2] && f[2] < f[3] && f[3] < f[4]) {
      snprintf(sh->message, MaxText,
               "open descriptors grow on every repeat of the same case: "
               "%d %d %d %d", f[1], f[2], f[3], f[4]);
      return false;
    }
  }
  return true;
}

inline Shared* new_shared() {
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(3);
  }
  return static_cast<Shared*>(p);
}

inline void redirect_stderr(const std::string& path) {
  int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0) {
    dup2(fd, 2);
    dup2(fd, 1);
    close(fd);
  }
}
inline std::string read_file(const std::string& path, size_t max = 1 << 20) {
  std::string s;
  FILE* f = fopen(path.c_str(), "rb");
  if (!f) return s;
  char buf[4096];
  size_t n;
  while (s.size() < max && (n = fread(buf, 1, sizeof buf, f)) > 0) s.append(buf, n);
  fclose(f);
  return s;
}
// The part of a sanitizer or abort report worth keeping.
inline std::string digest_log(const std::string& log) {
  static const char* keys[] = {"ERROR: AddressSanitizer", "runtime error:",
                               "WARNING: ThreadSanitizer", "ERROR: ThreadSanitizer",
                               "Assertion", "terminate called", "what():",
                               "stack-overflow"};
  std::string out;
  std::istringstream is(log);
  std::string line;
  int take = 0, total = 0;
  while (std::getline(is, line)) {
    for (auto k : keys) {
      if (line.find(k) != std::string::npos) take = 8;
    }
    if (take > 0 && total < 20) {
      out += line.substr(0, 200) + "\n";
      --take;
      ++total;
    }
  }
  return out;
}

enum class Outcome { Pass, Fail, Crash, Hang };

struct Runner {
  const Property* p;
  Shared* sh;           // for replays and shrinking
  std::string log_path;
  double hang_seconds;

  // Runs one sequence in a forked child.
  Outcome once(const std::vector<uint64_t>& seq, std::string* message = nullptr) {
    sh->failed = 0;
    sh->finished = 0;
    sh->message[0] = 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      setpgid(0, 0);
      signal(SIGPIPE, SIG_DFL);  // as in any program
      redirect_stderr(log_path);
      bool ok = run_sequence(*p, seq, sh);
      if (!ok) sh->failed = 1;
      sh->finished = 1;
      _exit(0);
    }
    double t0 = now();
    int st = 0;
    while (true) {
      pid_t r = waitpid(pid, &st, WNOHANG);
      if (r == pid) break;
      if (now() - t0 > hang_seconds * (p->check_memory || p->check_fds ? 6 : 1)) {
        kill(-pid, SIGKILL);
        kill(pid, SIGKILL);
        waitpid(pid, &st, 0);
        if (message) *message = "did not terminate";
        return Outcome::Hang;
      }
      usleep(now() - t0 < 0.2 ? 200 : 5000);
    }
    kill(-pid, SIGKILL);
    if (sh->finished && !sh->failed) return Outcome::Pass;
    if (sh->finished) {
      if (message) *message = sh->message;
      return Outcome::Fail;
    }
    if (message) {
      std::ostringstream os;
      if (WIFSIGNALED(st)) {
        os << "process died of signal " << WTERMSIG(st);
      } else {
        os << "process exited with status " << WEXITSTATUS(st);
      }
      std::string d = digest_log(read_file(log_path));
      if (!d.empty()) os << "\n" << d;
      *message = os.str();
    }
    return Outcome::Crash;
  }
  bool fails(const std::vector<uint64_t>& seq, int attempts) {
    for (int i = 0; i < attempts; ++i) {
      if (once(seq) != Outcome::Pass) return true;
    }
    return false;
  }
};

// Edits the sequence while it still fails.
inline std::vector<uint64_t> shrink(Runner& r, std::vector<uint64_t> seq,
                                    int attempts, double budget) {
  double t0 = now();
  auto left = [&] { return now() - t0 < budget; };
  auto try_seq = [&](const std::vector<uint64_t>& s) {
    if (!left()) return false;
    if (r.fails(s, attempts)) {
      // Keep what the run consumed (shorter or equal information).
      uint32_t n = r.sh->num_choices;
      std::vector<uint64_t> used(r.sh->choices, r.sh->choices + n);
      seq = used.size() <= s.size() ? used : s;
      while (!seq.empty() && seq.back() == 0) seq.pop_back();
      return true;
    }
    return false;
  };
  bool improved = true;
  while (improved && left()) {
    improved = false;
    // truncate
    for (size_t cut = seq.size() / 2; cut >= 1 && left(); cut /= 2) {
      if (cut >= seq.size()) continue;
      std::vector<uint64_t> s(seq.begin(), seq.end() - cut);
      if (try_seq(s)) {
        improved = true;
        cut = std::max<size_t>(2, seq.size());
      }
    }
    // delete blocks
    for (size_t len : {64, 32, 16, 8, 5, 4, 3, 2, 1}) {
      for (size_t i = 0; i + len <= seq.size() && left();) {
        std::vector<uint64_t> s(seq);
        s.erase(s.begin() + i, s.begin() + i + len);
        if (try_seq(s)) {
          improved = true;
        } else {
          i += len > 4 ? len / 2 : 1;
        }
      }
    }
    // zero blocks
    for (size_t len : {16, 4, 1}) {
      for (size_t i = 0; i + len <= seq.size() && left(); i += len) {
        std::vector<uint64_t> s(seq);
        bool any = false;
        for (size_t j = i; j < i + len; ++j) {
          any |= s[j] != 0;
          s[j] = 0;
        }
        if (any && try_seq(s)) improved = true;
      }
    }
    // lower values
    for (size_t i = 0; i < seq.size() && left(); ++i) {
      uint64_t lo = 0, hi = seq[i];
      while (lo < hi && left() && i < seq.size()) {
        uint64_t mid = lo + (hi - lo) / 2;
        std::vector<uint64_t> s(seq);
        s[i] = mid;
        if (try_seq(s)) {
          improved = true;
          if (i >= seq.size()) break;
          hi = std::min(mid, seq[i]);
        } else {
          lo = mid + 1;
          if (hi - lo > 1000000) lo = hi - (hi - lo) / 16;
        }
      }
    }
  }
  return seq;
}

inline std::string json_string(const std::string& s) {
  std::string r = "\"";
  char b[8];
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      r += '\\';
      r += ch;
    } else if (ch < 32 || ch >= 127) {
      snprintf(b, sizeof b, "\\u%04x", ch);
      r += b;
    } else {
      r += ch;
    }
  }
  return r + "\"";
}

inline bool write_replay(const std::string& path, const std::string& id,
                         const std::string& prop,
                         const std::vector<uint64_t>& seq,
                         const std::string& message, const std::string& notes) {
  FILE* f = fopen(path.c_str(), "w");
  if (!f) return false;
  fprintf(f, "# property: %s\n# sub-property: %s\n", id.c_str(), prop.c_str());
  std::istringstream is("failure: " + message + "\ncase: " + notes);
  std::string line;
  while (std::getline(is, line)) fprintf(f, "# %s\n", line.c_str());
  fprintf(f, "choices %zu\n", seq.size());
  for (auto v : seq) fprintf(f, "%llu\n", static_cast<unsigned long long>(v));
  fclose(f);
  return true;
}
inline std::vector<uint64_t> read_replay(const std::string& path) {
  std::vector<uint64_t> seq;
  FILE* f = fopen(path.c_str(), "r");
  if (!f) return seq;
  char line[4096];
  bool in = false;
  while (fgets(line, sizeof line, f)) {
    if (in) seq.push_back(strtoull(line, nullptr, 10));
    if (!strncmp(line, "choices", 7)) in = true;
  }
  fclose(f);
  return seq;
}

struct Args {
  std::string prop, out, replay_dir = ".", replay, id = "P00";
  uint64_t seed = 1, cases = 1000;
  int workers = 8;
  double seconds = 120, shrink_seconds = 20;
};

inline uint64_t case_seed(uint64_t seed, uint64_t global) {
  return mix(mix(seed * 0x1000193 + 7) ^ mix(global));
}
// Some cases are repeated to see whether anything leaks.
inline bool repeated(const Property& p, uint64_t i) {
  return (p.check_memory || p.check_fds) && (i % 64 == 63 || i < 8);
}
inline bool repeat_case(const Property& p, Shared* sh) {
  std::vector<uint64_t> seq(sh->choices, sh->choices + sh->num_choices);
  return run_sequence(p, seq, sh);
}

// A failure that depends on what the process did before: the cases it ran, by
// their numbers.
struct History {
  uint64_t seed = 1;
  uint64_t workers = 8, worker = 0;
  std::vector<uint64_t> cases;
};

// Runs them, one after another, in one new process. `failed_at` is the position
// of the case that failed.
inline Outcome run_history(const Property& p, const History& h, Shared* sh,
                           const std::string& log_path, double seconds,
                           size_t* failed_at, std::string* message) {
  sh->failed = sh->finished = 0;
  sh->message[0] = 0;
  sh->case_index = 0;
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    signal(SIGPIPE, SIG_DFL);
    redirect_stderr(log_path);
    for (size_t k = 0; k < h.cases.size(); ++k) {
      sh->case_index = k;
      Case c(sh, case_seed(h.seed, h.cases[k] * h.workers + h.worker));
      if (!run_case(p, c, sh) ||
          (repeated(p, h.cases[k]) && !repeat_case(p, sh))) {
        sh->failed = 1;
        break;
      }
    }
    sh->finished = 1;
    _exit(0);
  }
  double t0 = now();
  int st = 0;
  while (waitpid(pid, &st, WNOHANG) != pid) {
    if (now() - t0 > seconds) {
      kill(-pid, SIGKILL);
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      return Outcome::Hang;
    }
    usleep(now() - t0 < 0.2 ? 200 : 5000);
  }
  kill(-pid, SIGKILL);
  if (sh->finished && !sh->failed) return Outcome::Pass;
  *failed_at = sh->case_index;
  *message = sh->finished ? std::string(sh->message)
                          : "process died\n" + digest_log(read_file(log_path));
  return sh->finished ? Outcome::Fail : Outcome::Crash;
}

// The shortest run of cases up to number `last` that fails again and again;
// empty if there is none.
inline History confirm_history(const Property& p, uint64_t seed, int workers,
                               int worker, uint64_t first, uint64_t last,
                               Shared* sh, const std::string& log_path,
                               double budget, std::string* message) {
  double t0 = now();
  auto left = [&] { return std::max(0.0, budget - (now() - t0)); };
  auto fails = [&](History& h) {
    for (int k = 0; k < 2; ++k) {
      size_t at = 0;
      std::string m;
      Outcome o = run_history(p, h, sh, log_path, left(), &at, &m);
      if (o != Outcome::Fail && o != Outcome::Crash) return false;
      h.cases.resize(std::min(h.cases.size(), at + 1));
      *message = m;
    }
    return true;
  };
  History h{seed, static_cast<uint64_t>(workers), static_cast<uint64_t>(worker),
            {}};
  bool found = false;
  for (uint64_t n = 2; !found && left() > 0; n *= 4) {
    uint64_t from = last - first < n ? first : last - n + 1;
    h.cases.clear();
    for (uint64_t i = from; i <= last; ++i) h.cases.push_back(i);
    found = fails(h);
    if (from == first) break;
  }
  if (!found) {
    // It may come a little later in another run (ids are random, for example).
    t0 = now();
    h.cases.clear();
    for (uint64_t i = first; i <= last + 64 + (last - first) / 2; ++i)
      h.cases.push_back(i);
    int got = 0;
    for (int k = 0; k < 3 && left() > 0 && got < 2; ++k) {
      size_t at = 0;
      std::string m;
      Outcome o = run_history(p, h, sh, log_path, left(), &at, &m);
      if (o != Outcome::Fail && o != Outcome::Crash) continue;
      ++got;
      *message = m;
    }
    if (got < 2) h.cases.clear();
    return h;
  }
  History best = h;
  for (size_t len = best.cases.size() / 2; len >= 1 && left() > 0; len /= 2) {
    for (size_t i = 0; i + 1 < best.cases.size() && left() > 0;) {
      History t = best;
      size_t end = std::min(i + len, t.cases.size() - 1);
      t.cases.erase(t.cases.begin() + i, t.cases.begin() + end);
      std::string kept = *message;
      if (fails(t)) {
        best = t;
      } else {
        *message = kept;
        i += len;
      }
    }
  }
  return best;
}

inline bool write_history(const std::string& path, const std::string& id,
                          const std::string& prop, const History& h,
                          const std::string& message,
                          const std::string& notes) {
  if (!write_replay(path, id, prop, {}, message, notes)) return false;
  FILE* f = fopen(path.c_str(), "a");
  if (!f) return false;
  // without choices: the cases are made from the seed
  fprintf(f, "history %llu %llu %llu %zu\n", (unsigned long long)h.seed,
          (unsigned long long)h.workers, (unsigned long long)h.worker,
          h.cases.size());
  for (auto i : h.cases) fprintf(f, "%llu\n", (unsigned long long)i);
  fclose(f);
  return true;
}
inline bool read_history(const std::string& path, History& h) {
  FILE* f = fopen(path.c_str(), "r");
  if (!f) return false;
  char line[4096];
  bool in = false;
  while (fgets(line, sizeof line, f)) {
    if (in) h.cases.push_back(strtoull(line, nullptr, 10));
    unsigned long long a, b, c;
    if (sscanf(line, "history %llu %llu %llu", &a, &b, &c) == 3) {
      in = true;
      h.seed = a;
      h.workers = b;
      h.worker = c;
    }
  }
  fclose(f);
  return in;
}

inline void worker_main(const Property& p, const Args& a, int w, Shared* sh,
                        uint64_t first) {
  for (uint64_t i = first;; ++i) {
    uint64_t global = i * a.workers + w;
    if (global >= a.cases) break;
    sh->case_index = i;
    sh->case_started = now();
    Case c(sh, case_seed(a.seed, global));
    if (!run_case(p, c, sh) || (repeated(p, i) && !repeat_case(p, sh))) {
      sh->failed = 1;
      _exit(10);
    }
    if (c.is_nontrivial()) {
      sh->nontrivial = sh->nontrivial + 1;
      if (sh->num_hashes < MaxHashes) {
        sh->hashes[sh->num_hashes] = c.hash();
        sh->num_hashes = sh->num_hashes + 1;
      }
      uint32_t n = sh->num_samples;
      if (n < MaxSamples && (i < 3 || i % 97 == 0)) {
        snprintf(sh->samples[n], SampleText, "%s", sh->notes);
        sh->num_samples = n + 1;
      }
    }
    for (auto& l : c.labels()) {
      for (int k = 0; k < MaxClasses; ++k) {
        if (sh->classes[k].name[0] == 0) {
          snprintf(sh->classes[k].name, sizeof sh->classes[k].name, "%s",
                   l.c_str());
        }
        if (!strncmp(sh->classes[k].name, l.c_str(), 55)) {
          ++sh->classes[k].count;
          break;
        }
      }
    }
    sh->cases_done = sh->cases_done + 1;
  }
  sh->finished = 1;
  if (__llvm_profile_write_file && __llvm_profile_set_filename) {
    static char name[256];
    const char* dir = getenv("VERIF_PROFILES");
    snprintf(name, sizeof(name), "%s/%d.profraw", dir ? dir : ".", (int)getpid());
    __llvm_profile_set_filename(name);
    __llvm_profile_write_file();
  }
  _exit(0);
}

// Set by a harness whose cases run its own executable again.
inline int (*&other_main())(int argc, char** argv) {
  static int (*f)(int, char**) = nullptr;
  return f;
}

inline int main_impl(int argc, char** argv) {
  if (argc > 1 && other_main() && !strcmp(argv[1], "--other"))
    return other_main()(argc - 1, argv + 1);
  Args a;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--prop") a.prop = v;
    else if (k == "--id") a.id = v;
    else if (k == "--seed") a.seed = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--cases") a.cases = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--workers") a.workers = atoi(v.c_str());
    else if (k == "--seconds") a.seconds = atof(v.c_str());
    else if (k == "--shrink-seconds") a.shrink_seconds = atof(v.c_str());
    else if (k == "--out") a.out = v;
    else if (k == "--replay-dir") a.replay_dir = v;
    else if (k == "--replay") a.replay = v;
    else {
      fprintf(stderr, "unknown option %s\n", k.c_str());
      return 3;
    }
  }
  if (argc == 2 && !strcmp(argv[1], "--list")) {
    for (auto& p : registry()) printf("%s\n", p.name.c_str());
    return 0;
  }
  signal(SIGPIPE, SIG_IGN);
  rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  const Property* prop = nullptr;
  for (auto& p : registry()) {
    if (p.name == a.prop) prop = &p;
  }
  if (!prop) {
    fprintf(stderr, "no property %s\n", a.prop.c_str());
    return 3;
  }
  std::string log_base = a.replay_dir + "/" + a.id + "." + a.prop + ".log";
  Runner runner{prop, new_shared(), log_base + ".r", prop->hang_seconds};

  History history;
  if (!a.replay.empty() && read_history(a.replay, history)) {
    size_t at = 0;
    std::string message;
    Outcome o = Outcome::Pass;
    for (int k = 0; k < 3 && o == Outcome::Pass; ++k)
      o = run_history(*prop, history, runner.sh, runner.log_path, 600, &at,
                      &message);
    printf("%zu cases, the last: %s\n", history.cases.size(), runner.sh->notes);
    unlink(runner.log_path.c_str());
    printf(o == Outcome::Pass ? "PASS\n" : "FAIL: %s\n", message.c_str());
    return o == Outcome::Pass ? 0 : 1;
  }
  if (!a.replay.empty()) {
    std::vector<uint64_t> seq = read_replay(a.replay);
    std::string message;
    int attempts = prop->concurrent ? 100 : 1;
    Outcome o = Outcome::Pass;
    for (int i = 0; i < attempts && o == Outcome::Pass; ++i) {
      o = runner.once(seq, &message);
    }
    printf("case: %s\n", runner.sh->notes);
    unlink(runner.log_path.c_str());
    if (o == Outcome::Pass) {
      printf("PASS\n");
      return 0;
    }
    printf("FAIL: %s\n", message.c_str());
    return 1;
  }

  double t0 = now();
  int W = a.workers;
  std::vector<Shared*> sh(W);
  std::vector<pid_t> pid(W, 0);
  std::vector<int> unconfirmed(W, 0);
  std::vector<uint64_t> started(W, 0);
  int histories_tried = 0;
  for (auto& s : sh) s = new_shared();
  auto launch = [&](int w, uint64_t first) {
    sh[w]->failed = sh[w]->finished = 0;
    sh[w]->case_started = now();
    sh[w]->case_index = first;
    started[w] = first;
    fflush(stdout);
    pid_t q = fork();
    if (q == 0) {
      setpgid(0, 0);
      signal(SIGPIPE, SIG_DFL);
      redirect_stderr(log_base + std::to_string(w));
      worker_main(*prop, a, w, sh[w], first);
    }
    pid[w] = q;
  };
  for (int w = 0; w < W; ++w) launch(w, 0);

  bool violation = false, timed_out = false;
  std::string message, notes, replay_path;
  int total_unconfirmed = 0;
  std::string unconfirmed_text;
  int live = W;
  auto stop_all = [&] {
    for (int w = 0; w < W; ++w) {
      if (pid[w] > 0) {
        kill(-pid[w], SIGKILL);
        kill(pid[w], SIGKILL);
        waitpid(pid[w], nullptr, 0);
        pid[w] = 0;
      }
    }
  };
  while (live > 0 && !violation) {
    usleep(2000);
    if (now() - t0 > a.seconds) {
      timed_out = true;
      stop_all();
      break;
    }
    for (int w = 0; w < W && !violation; ++w) {
      if (pid[w] <= 0) continue;
      int st = 0;
      pid_t r = waitpid(pid[w], &st, WNOHANG);
      Outcome o = Outcome::Pass;
      if (r == pid[w]) {
        kill(-pid[w], SIGKILL);
        pid[w] = 0;
        if (sh[w]->finished) {
          --live;
          continue;
        }
        o = sh[w]->failed ? Outcome::Fail : Outcome::Crash;
      } else if (now() - sh[w]->case_started > prop->hang_seconds) {
        kill(-pid[w], SIGKILL);
        kill(pid[w], SIGKILL);
        waitpid(pid[w], nullptr, 0);
        pid[w] = 0;
        o = Outcome::Hang;
      } else {
        continue;
      }
      // Something failed: confirm, shrink, confirm again.
      std::vector<uint64_t> seq(sh[w]->choices,
                                sh[w]->choices + sh[w]->num_choices);
      std::string first_message =
          o == Outcome::Fail ? std::string(sh[w]->message)
          : o == Outcome::Hang
              ? std::string("did not terminate")
              : "process died\n" +
                    digest_log(read_file(log_base + std::to_string(w)));
      std::string first_notes = sh[w]->notes;
      int need = 3, got = 0;
      int attempts = prop->concurrent ? 60 : 3;
      for (int k = 0; k < attempts && got < need; ++k) {
        std::string m;
        if (runner.once(seq, &m) != Outcome::Pass) {
          ++got;
          first_message = m;
        } else if (!prop->concurrent) {
          break;
        }
        if (o == Outcome::Hang && (got == 0 || got == 2)) break;
      }
      if (o == Outcome::Hang && got >= 2) got = need;
      bool confirmed = got >= need || (prop->concurrent && o != Outcome::Hang);
      // Nothing alone; does it fail after the cases before it?
      if (!confirmed && !prop->concurrent && o != Outcome::Hang &&
          histories_tried++ < 2) {
        std::string m = first_message;
        History h = confirm_history(
            *prop, a.seed, a.workers, w, started[w], sh[w]->case_index,
            runner.sh, runner.log_path, std::min(a.shrink_seconds + 20, 40.0), &m);
        if (!h.cases.empty()) {
          stop_all();
          violation = true;
          message = "after " + std::to_string(h.cases.size() - 1) +
                    " other cases in the same process: " + m;
          notes = first_notes;
          replay_path = a.replay_dir + "/" + a.id + "." + a.prop + ".replay";
          write_history(replay_path, a.id, a.prop, h, message, notes);
          continue;
        }
      }
      if (!confirmed) {
        ++total_unconfirmed;
        unconfirmed_text += "[" + first_message + "] " + first_notes + "\n";
        if (o == Outcome::Crash && ++unconfirmed[w] > 20) {
          --live;
          continue;
        }
        launch(w, sh[w]->case_index + 1);
        continue;
      }
      stop_all();
      violation = true;
      double budget = o == Outcome::Hang ? 0 : a.shrink_seconds;
      std::vector<uint64_t> small = seq;
      if (got >= need && budget > 0) {
        small = shrink(runner, seq, prop->concurrent ? 10 : 1, budget);
      }
      std::string m2;
      bool again = false;
      for (int k = 0; k < (prop->concurrent ? 30 : 1) && !again; ++k) {
        again = runner.once(small, &m2) != Outcome::Pass;
      }
      if (!again) small = seq;
      message = again ? m2 : first_message;
      notes = again ? std::string(runner.sh->notes) : first_notes;
      replay_path = a.replay_dir + "/" + a.id + "." + a.prop + ".replay";
      write_replay(replay_path, a.id, a.prop, small, message, notes);
    }
  }
  stop_all();
  // Totals.
  uint64_t done = 0, nontrivial = 0, excluded = 0;
  std::vector<uint64_t> hashes;
  std::map<std::string, uint64_t> classes;
  std::vector<std::string> samples;
  for (auto s : sh) {
    done += s->cases_done;
    nontrivial += s->nontrivial;
    excluded += s->excluded;
    hashes.insert(hashes.end(), s->hashes, s->hashes + s->num_hashes);
    for (int k = 0; k < MaxClasses && s->classes[k].name[0]; ++k) {
      classes[s->classes[k].name] += s->classes[k].count;
    }
    for (uint32_t k = 0; k < s->num_samples && samples.size() < 6; ++k) {
      if (k < 2 || samples.size() < 3) samples.push_back(s->samples[k]);
    }
  }
  std::sort(hashes.begin(), hashes.end());
  hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());
  for (int w = 0; w < W; ++w) unlink((log_base + std::to_string(w)).c_str());
  unlink((log_base + ".r").c_str());
  std::ostringstream js;
  js << "{\"prop\":" << json_string(a.prop) << ",\"seed\":" << a.seed
     << ",\"evaluations\":" << done << ",\"planned\":" << a.cases
     << ",\"nontrivial\":" << nontrivial
     << ",\"distinct_nontrivial\":" << hashes.size()
     << ",\"excluded\":" << excluded << ",\"timed_out\":"
     << (timed_out ? "true" : "false") << ",\"unconfirmed\":"
     << total_unconfirmed << ",\"unconfirmed_text\":"
     << json_string(unconfirmed_text.substr(0, 4000)) << ",\"wall\":"
     << now() - t0 << ",\"violation\":" << (violation ? "true" : "false")
     << ",\"message\":" << json_string(message) << ",\"case\":"
     << json_string(notes.substr(0, 4000)) << ",\"replay\":"
     << json_string(replay_path) << ",\"classes\":{";
  bool first = true;
  for (auto& k : classes) {
    if (!first) js << ",";
    first = false;
    js << json_string(k.first) << ":" << k.second;
  }
  js << "},\"samples\":[";
  for (size_t i = 0; i < samples.size(); ++i) {
    js << (i ? "," : "") << json_string(samples[i]);
  }
  js << "]}";
  if (!a.out.empty()) {
    FILE* f = fopen(a.out.c_str(), "w");
    if (f) {
      fputs(js.str().c_str(), f);
      fclose(f);
    }
  } else {
    printf("%s\n", js.str().c_str());
  }
  return violation ? 1 : 0;
}
}  // namespace pbt

#ifndef PBT_NO_MAIN
int main(int argc, char** argv) { return pbt::main_impl(argc, argv); }
#endif
#endif
