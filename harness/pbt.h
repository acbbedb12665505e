// A small property-based testing engine (choice-sequence style).
//
// A property is a function of a Case.  Every random decision goes through
// Case::draw, which records it; the recorded sequence *is* the test case: it is
// what gets shrunk and what a replay file stores.  Cases run in forked worker
// processes, so an assertion, sanitizer report, uncaught exception, signal or
// runaway loop in the code under test is attributed to the case that caused it
// and is shrunk like any other failure.
//
// Case i of a run with seed S is a pure function of (S, i) and the code under
// test; it does not depend on the number of workers or on timing.
#ifndef VERIF_PBT_H_
#define VERIF_PBT_H_

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cinttypes>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  char buf[2048];
  int n = vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  if (n < (int)sizeof buf) return buf;
  std::string s(n + 1, 0);
  va_start(ap, f);
  vsnprintf(&s[0], n + 1, f, ap);
  va_end(ap);
  s.resize(n);
  return s;
}

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}

inline uint64_t hash_str(const std::string& s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  return mix(h);
}

struct Failure : std::exception {
  std::string msg;
  explicit Failure(std::string m) : msg(std::move(m)) {}
  const char* what() const noexcept override { return msg.c_str(); }
};

// Area shared between the parent and one child.
struct Shared {
  static constexpr size_t kMaxChoices = 1 << 18;
  volatile uint64_t current;     // case index being executed
  volatile uint64_t done;        // cases completed
  volatile uint32_t state;       // 0 running, 1 finished all, 2 property failed
  volatile uint64_t n_choices;
  char msg[8192];
  char desc[65536];
  uint64_t choices[kMaxChoices];
};

class Case {
 public:
  // draws -----------------------------------------------------------------
  // Uniform in [0, n).
  uint64_t draw(uint64_t n) {
    if (n == 0) n = 1;
    uint64_t v;
    if (pos_ < prefix_.size()) {
      v = prefix_[pos_] < n ? prefix_[pos_] : n - 1;
    } else if (random_) {
      v = next() % n;
    } else {
      v = 0;
    }
    ++pos_;
    if (log_ && log_->n_choices < Shared::kMaxChoices) {
      log_->choices[log_->n_choices] = v;
      log_->n_choices = log_->n_choices + 1;
    }
    return v;
  }
  // Uniform in [lo, hi]; shrinks towards lo.
  int64_t range(int64_t lo, int64_t hi) {
    return (int64_t)((uint64_t)lo + draw((uint64_t)hi - (uint64_t)lo + 1));
  }
  // True with probability num/den; shrinks towards false.
  bool coin(unsigned num = 1, unsigned den = 2) {
    return draw(den) >= den - num;
  }
  template <typename C>
  auto& pick(const C& c) {
    return *(std::begin(c) + draw(std::end(c) - std::begin(c)));
  }
  template <typename T>
  T pick(std::initializer_list<T> c) {
    return *(c.begin() + draw(c.size()));
  }
  // Index chosen with the given weights; shrinks towards 0.
  int weighted(std::initializer_list<int> w) {
    int total = 0;
    for (int x : w) total += x;
    int64_t v = draw(total);
    int i = 0;
    for (int x : w) {
      if (v < x) return i;
      v -= x;
      ++i;
    }
    return i - 1;
  }
  // for (auto m = c.many(avg, max); m.more();) ...   Geometric-ish length; an
  // element's choices sit together so that shrinking can delete it.
  struct Many {
    Case* c;
    int avg, left;
    bool more() {
      if (left <= 0) return false;
      --left;
      return c->draw(avg + 1) != 0;
    }
  };
  Many many(int avg, int max) { return Many{this, avg, max}; }

  // reporting -------------------------------------------------------------
  // Append to the human-readable description of the case.
  void note(const std::string& s) {
    desc_ += s;
    if (log_) {
      size_t used = strnlen(log_->desc, sizeof log_->desc - 1);
      size_t n = std::min(s.size(), sizeof log_->desc - 1 - used);
      memcpy(log_->desc + used, s.data(), n);
      log_->desc[used + n] = 0;
    }
  }
  void nontrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }
  void label(const std::string& s) { labels_.insert(s); }
  // Count additional oracle evaluations made inside one case.
  void evals(uint64_t n) { evals_ += n; }
  [[noreturn]] void fail(const std::string& m) { throw Failure(m); }
  void check(bool ok, const std::string& m) {
    if (!ok) fail(m);
  }
  template <typename F>
  void check_f(bool ok, F f) {
    if (!ok) fail(f());
  }
  uint64_t index = 0;  // enum index, for enumerated tests
  std::string scratch;  // private scratch directory for the worker
  bool thorough = false;

  // internals
  uint64_t next() {
    state_ += 0x9e3779b97f4a7c15ULL;
    uint64_t x = state_;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
  }
  std::vector<uint64_t> prefix_;
  size_t pos_ = 0;
  bool random_ = false;
  uint64_t state_ = 0;
  Shared* log_ = nullptr;
  std::string desc_;
  bool nontrivial_ = false;
  std::set<std::string> labels_;
  uint64_t evals_ = 1;
};

struct Test {
  std::string name;
  std::function<void(Case&)> fn;
  uint64_t enum_count = 0;  // >0: enumerate 0..enum_count-1 completely
  int weight = 1;           // share of random cases
};

struct Config {
  std::string property;
  std::string rule;
  std::vector<Test> tests;
  uint64_t quick_cases = 100000;
  uint64_t thorough_cases = 1000000;
  double quick_wall = 60;      // safety cap, seconds
  double thorough_wall = 600;  // safety cap, seconds
  int case_cpu_s = 20;         // CPU seconds after which one case is "stuck"
  uint64_t mem_mb = 0;         // RLIMIT_AS per worker (0: none; not with ASan)
};

inline double now() {
  return std::chrono::duration<double>(
             std::chrono::steady_clock::now().time_since_epoch()).count();
}

inline std::string json_escape(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c == '\t') r += "\\t";
    else if (c < 32 || c > 126) r += fmt("\\u%04x", c);
    else r += c;
  }
  return r;
}

class Runner {
 public:
  Runner(Config cfg, int argc, char** argv) : cfg_(std::move(cfg)) {
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
      if (a == "--seed") seed_ = strtoull(val().c_str(), 0, 0);
      else if (a == "--tier") thorough_ = val() == "thorough";
      else if (a == "--cases") cases_override_ = strtoull(val().c_str(), 0, 0);
      else if (a == "--wall") wall_override_ = atof(val().c_str());
      else if (a == "--jobs") jobs_ = atoi(val().c_str());
      else if (a == "--evidence") evidence_ = val();
      else if (a == "--replay") replay_ = val();
      else if (a == "--replay-out") replay_out_ = val();
      else if (a == "--tmp") tmp_ = val();
      else if (a == "--only") only_ = val();
      else if (a == "--show") show_ = atoi(val().c_str());
      else { fprintf(stderr, "unknown argument %s\n", a.c_str()); exit(2); }
    }
    if (!only_.empty()) {
      for (auto& t : cfg_.tests)
        if (t.name != only_) { t.enum_count = 0; t.weight = 0; t.fn = nullptr; }
    }
    for (size_t t = 0; t < cfg_.tests.size(); ++t) {
      if (cfg_.tests[t].fn && cfg_.tests[t].enum_count) enum_total_ += cfg_.tests[t].enum_count;
      else if (cfg_.tests[t].fn) weight_total_ += cfg_.tests[t].weight;
    }
    total_ = enum_total_;
    if (weight_total_) {
      total_ += cases_override_ ? cases_override_
                                : thorough_ ? cfg_.thorough_cases : cfg_.quick_cases;
    }
    wall_ = wall_override_ > 0 ? wall_override_ : thorough_ ? cfg_.thorough_wall : cfg_.quick_wall;
    if (tmp_.empty()) { char b[] = "/tmp/pbt.XXXXXX"; tmp_ = mkdtemp(b); own_tmp_ = true; }
  }

  int run() {
    int rc = replay_.empty() ? search() : do_replay();
    if (own_tmp_) { std::string c = "rm -rf '" + tmp_ + "'"; if (system(c.c_str())) {} }
    return rc;
  }

 private:
  Shared* make_shared() {
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return (Shared*)p;
  }

  // Sets up the case with index i of a random run.
  void setup_random(Case& c, uint64_t i) {
    c.random_ = true;
    if (i < enum_total_) {
      uint64_t k = i;
      for (size_t t = 0; t < cfg_.tests.size(); ++t) {
        if (!cfg_.tests[t].fn || !cfg_.tests[t].enum_count) continue;
        if (k < cfg_.tests[t].enum_count) { c.prefix_ = {t, k}; break; }
        k -= cfg_.tests[t].enum_count;
      }
    } else {
      int64_t v = mix(mix(seed_) ^ (i * 2 + 1)) % weight_total_;
      for (size_t t = 0; t < cfg_.tests.size(); ++t) {
        if (!cfg_.tests[t].fn || cfg_.tests[t].enum_count) continue;
        if (v < cfg_.tests[t].weight) { c.prefix_ = {t, 0}; break; }
        v -= cfg_.tests[t].weight;
      }
    }
    c.state_ = mix(mix(seed_ + 0x1234567) + i);
  }

  void execute(Case& c) {
    c.thorough = thorough_;
    c.scratch = scratch_;
    uint64_t t = c.draw(cfg_.tests.size());
    uint64_t ec = cfg_.tests[t].enum_count;
    c.index = c.draw(ec ? ec : 1);
    if (cfg_.tests[t].fn) cfg_.tests[t].fn(c);
  }

  void arm() {
    struct itimerval it = {};
    it.it_value.tv_sec = cfg_.case_cpu_s;
    setitimer(ITIMER_PROF, &it, nullptr);
  }

  void child_setup(const std::string& errfile, const std::string& scratch) {
    int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
    int nul = open("/dev/null", O_WRONLY);
    if (nul >= 0) { dup2(nul, 1); close(nul); }
    mkdir(scratch.c_str(), 0700);
    scratch_ = scratch;
    signal(SIGPROF, SIG_DFL);
    signal(SIGPIPE, SIG_IGN);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    if (cfg_.mem_mb) { rl.rlim_cur = rl.rlim_max = cfg_.mem_mb << 20; setrlimit(RLIMIT_AS, &rl); }
  }

  static std::string tail_of(const std::string& path) {
    std::ifstream f(path);
    std::string line, first, sum;
    std::vector<std::string> keep;
    while (std::getline(f, line)) {
      if (keep.size() < 12 && (line.find("ERROR") != line.npos || line.find("Assert") != line.npos ||
          line.find("assert") != line.npos || line.find("runtime error") != line.npos ||
          line.find("terminate") != line.npos || line.find("what()") != line.npos ||
          line.find("vshim") != line.npos || line.find(" in nsasm::") != line.npos))
        keep.push_back(line);
    }
    for (auto& l : keep) sum += "\n    " + l;
    return sum;
  }

  static std::string describe_status(int st, int cpu) {
    if (WIFSIGNALED(st)) {
      if (WTERMSIG(st) == SIGPROF) return fmt("did not finish within %d CPU seconds", cpu);
      return fmt("killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
    }
    return fmt("process exited with status %d", WEXITSTATUS(st));
  }

  // Runs one case in a child.  Returns true if it failed.
  struct Outcome { bool failed = false; std::string msg, desc; std::vector<uint64_t> choices; bool signalled = false; };
  Outcome run_one(const std::function<void(Case&)>& prep) {
    Shared* sh = one_ ? one_ : (one_ = make_shared());
    sh->state = 0; sh->n_choices = 0; sh->msg[0] = 0; sh->desc[0] = 0;
    std::string err = tmp_ + "/one.err", scratch = tmp_ + "/one";
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0) {
      child_setup(err, scratch);
      Case c;
      prep(c);
      c.log_ = sh;
      arm();
      run_guarded(c, sh);
      _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    Outcome o;
    o.desc = sh->desc;
    o.choices.assign(sh->choices, sh->choices + sh->n_choices);
    if (sh->state == 2) { o.failed = true; o.msg = sh->msg; }
    else if (sh->state != 1) {
      o.failed = true;
      o.signalled = true;
      o.msg = "code under test crashed or hung: " + describe_status(st, cfg_.case_cpu_s) + tail_of(err);
    }
    return o;
  }

  // Runs cases first, first+step, ... in one child; fails if any of them fails.
  Outcome run_history(uint64_t first, uint64_t step, uint64_t count) {
    Shared* sh = one_ ? one_ : (one_ = make_shared());
    sh->state = 0; sh->n_choices = 0; sh->msg[0] = 0; sh->desc[0] = 0;
    std::string err = tmp_ + "/one.err", scratch = tmp_ + "/one";
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0) {
      child_setup(err, scratch);
      for (uint64_t k = 0; k < count; ++k) {
        Case c;
        setup_random(c, first + k * step);
        sh->n_choices = 0; sh->desc[0] = 0; sh->state = 0;
        c.log_ = sh;
        arm();
        run_guarded(c, sh);
        if (sh->state == 2) _exit(0);
      }
      _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    Outcome o;
    o.desc = sh->desc;
    if (sh->state == 2) { o.failed = true; o.msg = sh->msg; }
    else if (sh->state != 1) { o.failed = true; o.msg = "code under test crashed or hung: " + describe_status(st, cfg_.case_cpu_s) + tail_of(err); }
    return o;
  }

  // Runs c, leaving the outcome in sh->state.
  void run_guarded(Case& c, Shared* sh) {
    try {
      execute(c);
      sh->state = 1;
    } catch (const Failure& f) {
      snprintf(sh->msg, sizeof sh->msg, "%s", f.msg.c_str());
      sh->state = 2;
    } catch (const std::exception& e) {
      snprintf(sh->msg, sizeof sh->msg, "uncaught exception from code under test: %s", e.what());
      sh->state = 2;
    }
  }

  int search() {
    double t0 = now();
    int J = jobs_;
    std::vector<Shared*> sh(J);
    std::vector<pid_t> pid(J);
    fflush(nullptr);
    for (int j = 0; j < J; ++j) {
      sh[j] = make_shared();
      pid[j] = fork();
      if (pid[j] < 0) { perror("fork"); exit(2); }
      if (pid[j] == 0) worker(j, J, sh[j], t0);
    }
    std::vector<std::pair<uint64_t, std::string>> failing;
    for (int j = 0; j < J; ++j) {
      int st = 0;
      waitpid(pid[j], &st, 0);
      if (sh[j]->state == 2) failing.push_back({sh[j]->current, sh[j]->msg});
      else if (sh[j]->state != 1)
        failing.push_back({sh[j]->current, "code under test crashed or hung: " +
                           describe_status(st, cfg_.case_cpu_s) + tail_of(fmt("%s/w%d.err", tmp_.c_str(), j))});
    }
    std::sort(failing.begin(), failing.end());
    int violations = 0;
    for (auto& f : failing) {
      uint64_t idx = f.first;
      Outcome o = run_one([&](Case& c) { setup_random(c, idx); });
      if (!o.failed) {
        // The failure needs state left behind by earlier cases of its worker:
        // look for the shortest run of preceding cases that brings it back.
        bool found = false;
        for (uint64_t n = 1; !found && n <= 16384; n *= 4) {
          uint64_t back = std::min<uint64_t>(n, idx / J);
          int bad = 0;
          for (int k = 0; k < 3; ++k) { o = run_history(idx - back * J, J, back + 1); bad += o.failed; if (!o.failed) break; }
          if (bad == 3) {
            found = true;
            std::string path = replay_out_.empty() ? "replay.txt" : replay_out_;
            std::ofstream r(path);
            r << "# property " << cfg_.property << ": fails only after the preceding cases ran in the same process\n"
              << "history " << seed_ << ' ' << (thorough_ ? 1 : 0) << ' ' << idx - back * J << ' ' << J << ' ' << back + 1 << "\n# failure:\n";
            comment(r, o.msg);
            r << "# last case:\n";
            comment(r, o.desc);
            r.close();
            printf("FAILURE: %s\n  case: %s\n", o.msg.c_str(), o.desc.c_str());
            printf("VIOLATION property=%s replay=%s\n", cfg_.property.c_str(), path.c_str());
            ++violations;
          }
          if (back < n) break;
        }
        if (found) break;
        fprintf(stderr, "note: case %" PRIu64 " failed in a worker but not alone: %s\n", idx, f.second.c_str());
        unreproduced_++;
        continue;
      }
      if (!getenv("PBT_NOSHRINK")) shrink(o);  // (set by tools/mutate.py)
      // Replay three times before believing it.
      bool solid = true;
      for (int k = 0; k < 3; ++k) {
        auto ch = o.choices;
        Outcome r = run_one([&](Case& c) { c.prefix_ = ch; });
        if (!r.failed) solid = false;
        else { o.msg = r.msg; o.desc = r.desc; }
      }
      if (!solid) { fprintf(stderr, "note: shrunk case is flaky, ignored: %s\n", o.msg.c_str()); unreproduced_++; continue; }
      ++violations;
      std::string path = replay_out_.empty() ? "replay.txt" : replay_out_;
      std::ofstream r(path);
      r << "# property " << cfg_.property << ", found with seed " << seed_ << " at case " << idx << "\n";
      r << "choices";
      for (uint64_t v : o.choices) r << ' ' << v;
      r << "\n# failure:\n";
      comment(r, o.msg);
      r << "# case:\n";
      comment(r, o.desc);
      r.close();
      printf("FAILURE: %s\n  case: %s\n", o.msg.c_str(), o.desc.c_str());
      printf("VIOLATION property=%s replay=%s\n", cfg_.property.c_str(), path.c_str());
      break;
    }
    write_evidence(sh, t0, violations);
    fflush(nullptr);
    return violations ? 1 : 0;
  }

  static void comment(std::ostream& o, const std::string& s) {
    std::istringstream in(s);
    std::string l;
    while (std::getline(in, l)) o << "#   " << l << "\n";
  }

  [[noreturn]] void worker(int j, int J, Shared* sh, double t0) {
    child_setup(fmt("%s/w%d.err", tmp_.c_str(), j), fmt("%s/s%d", tmp_.c_str(), j));
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    uint64_t evals = 0, since = 0;
    for (uint64_t i = j; i < total_; i += J) {
      if (i >= enum_total_ && ++since % 16 == 0 && now() - t0 > wall_) break;
      sh->current = i;
      Case c;
      setup_random(c, i);
      arm();
      sh->state = 0;
      run_guarded(c, sh);
      if (sh->state == 2) break;
      sh->done = sh->done + 1;
      evals += c.evals_;
      if (c.nontrivial_) {
        bool fresh = distinct.insert(hash_str(c.desc_)).second;
        size_t per = i < enum_total_ ? 1 : 4;
        if (fresh && samples.size() < per && c.desc_.size() < 3000) samples.push_back(c.desc_);
      }
      for (auto& l : c.labels_) labels[l]++;
    }
    bool failed = sh->state == 2;
    struct itimerval it = {};
    setitimer(ITIMER_PROF, &it, nullptr);
    std::ofstream f(fmt("%s/w%d.stats", tmp_.c_str(), j), std::ios::binary);
    f << evals << ' ' << distinct.size() << ' ' << labels.size() << ' ' << samples.size() << '\n';
    for (auto h : distinct) f.write((char*)&h, 8);
    for (auto& l : labels) f << l.first << '\n' << l.second << '\n';
    for (auto& s : samples) { f << s.size() << '\n'; f.write(s.data(), s.size()); }
    f.close();
    if (!failed) sh->state = 1;
    _exit(0);
  }

  void write_evidence(std::vector<Shared*>& sh, double t0, int violations) {
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    uint64_t evals = 0, cases = 0;
    for (size_t j = 0; j < sh.size(); ++j) {
      cases += sh[j]->done;
      std::ifstream f(fmt("%s/w%zu.stats", tmp_.c_str(), j), std::ios::binary);
      size_t e = 0, nd = 0, nl = 0, ns = 0;
      if (!(f >> e >> nd >> nl >> ns)) continue;
      f.get();
      evals += e;
      for (size_t k = 0; k < nd; ++k) { uint64_t h; f.read((char*)&h, 8); distinct.insert(h); }
      for (size_t k = 0; k < nl; ++k) { std::string a, b; std::getline(f, a); std::getline(f, b); labels[a] += strtoull(b.c_str(), 0, 10); }
      for (size_t k = 0; k < ns; ++k) { std::string a; std::getline(f, a); std::string s(strtoull(a.c_str(), 0, 10), 0); f.read(&s[0], s.size()); if (samples.size() < 12) samples.push_back(s); }
    }
    printf("%s: %" PRIu64 " cases (%" PRIu64 " oracle evaluations), %zu distinct non-trivial, %.1fs\n",
           cfg_.property.c_str(), cases, evals, distinct.size(), now() - t0);
    for (auto& l : labels) printf("    %-44s %" PRIu64 "\n", l.first.c_str(), l.second);
    for (int k = 0; k < show_ && k < (int)samples.size(); ++k) printf("  sample: %s\n", samples[k].c_str());
    if (evidence_.empty()) return;
    std::ofstream o(evidence_);
    o << "{\"property\":\"" << cfg_.property << "\",\"tier\":\"" << (thorough_ ? "thorough" : "quick")
      << "\",\"seed\":" << seed_ << ",\"level\":\"exploration\",\"coverage\":{\"evaluations\":" << cases
      << ",\"oracle_comparisons\":" << evals
      << ",\"distinct_nontrivial\":" << distinct.size() << ",\"planned_cases\":" << total_
      << ",\"enumerated_cases\":" << enum_total_ << ",\"unreproduced\":" << unreproduced_
      << ",\"rule\":\"" << json_escape(cfg_.rule) << "\",\"classes\":{";
    bool first = true;
    for (auto& l : labels) { o << (first ? "" : ",") << "\"" << json_escape(l.first) << "\":" << l.second; first = false; }
    o << "},\"samples\":[";
    first = true;
    for (auto& s : samples) { o << (first ? "" : ",") << "\"" << json_escape(s) << "\""; first = false; }
    o << "]},\"wall_s\":" << fmt("%.2f", now() - t0) << ",\"violations\":" << violations << "}\n";
  }

  void shrink(Outcome& o) {
    double t0 = now();
    int tries = 0;
    auto budget = [&] { return tries < 3000 && now() - t0 < 40; };
    auto attempt = [&](std::vector<uint64_t> ch) {
      ++tries;
      Outcome r = run_one([&](Case& c) { c.prefix_ = ch; });
      // Stuck cases are slow to re-run; do not drift from a wrong answer into one.
      if (!r.failed) return false;
      if (r.choices.size() < o.choices.size() || (r.choices.size() == o.choices.size() && r.choices < o.choices)) {
        o = r;
        return true;
      }
      return false;
    };
    // Drop trailing zeros implicitly: replay pads with zeros.
    bool progress = true;
    while (progress && budget()) {
      progress = false;
      for (size_t bs : {64, 32, 16, 8, 6, 5, 4, 3, 2, 1}) {
        for (size_t i = o.choices.size(); i-- > 2 && budget();) {
          if (i + bs > o.choices.size() || i < 2) continue;
          auto ch = o.choices;
          ch.erase(ch.begin() + i, ch.begin() + i + bs);
          if (attempt(ch)) progress = true;
        }
      }
      for (size_t i = 2; i < o.choices.size() && budget(); ++i) {
        if (o.choices[i] == 0) continue;
        auto ch = o.choices;
        ch[i] = 0;
        if (attempt(ch)) { progress = true; continue; }
        uint64_t lo = 0, hi = i < o.choices.size() ? o.choices[i] : 0;
        while (hi - lo > 1 && budget()) {
          uint64_t mid = lo + (hi - lo) / 2;
          ch = o.choices;
          if (i >= ch.size()) break;
          ch[i] = mid;
          if (attempt(ch)) { hi = mid; progress = true; } else lo = mid;
        }
      }
    }
  }

  int do_replay() {
    std::ifstream f(replay_);
    std::string line;
    std::vector<uint64_t> ch, hist;
    while (std::getline(f, line))
      if (line.rfind("history", 0) == 0) {
        std::istringstream in(line.substr(7));
        uint64_t v;
        while (in >> v) hist.push_back(v);
      } else if (line.rfind("choices", 0) == 0) {
        std::istringstream in(line.substr(7));
        uint64_t v;
        while (in >> v) ch.push_back(v);
      }
    int bad = 0;
    Outcome o;
    for (int k = 0; k < 3; ++k) {
      if (hist.size() == 5) { seed_ = hist[0]; thorough_ = hist[1]; o = run_history(hist[2], hist[3], hist[4]); }
      else o = run_one([&](Case& c) { c.prefix_ = ch; });
      bad += o.failed;
    }
    printf("  case: %s\n", o.desc.c_str());
    if (bad) {
      printf("FAILURE (%d of 3 replays): %s\nVIOLATION property=%s replay=%s\n", bad, o.msg.c_str(), cfg_.property.c_str(), replay_.c_str());
      return 1;
    }
    printf("replay passes\n");
    return 0;
  }

  Config cfg_;
  uint64_t seed_ = 1, cases_override_ = 0, total_ = 0, enum_total_ = 0;
  int64_t weight_total_ = 0;
  uint64_t unreproduced_ = 0;
  bool thorough_ = false, own_tmp_ = false;
  double wall_ = 60, wall_override_ = 0;
  int jobs_ = 8, show_ = 0;
  std::string evidence_, replay_, replay_out_, tmp_, only_, scratch_;
  Shared* one_ = nullptr;
};

inline int main_(Config cfg, int argc, char** argv) {
  Runner r(std::move(cfg), argc, argv);
  return r.run();
}

}  // namespace pbt

#endif  // VERIF_PBT_H_
