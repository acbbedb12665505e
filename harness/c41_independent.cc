// C41: what comes out depends on what goes in, and on nothing that was done before or is being done elsewhere.
//
// The worker itself never runs the code under test: every job and every history
// runs in a child forked from it, so that "on its own" means in a process that
// has done nothing else.
#include <pthread.h>

#include <thread>

#include "asm_run.h"
#include "disasm_run.h"
#include "gen_line.h"
#include "nsasm/rom.h"
#include "nsasm/token.h"
#include "rom_file.h"

using namespace nsasm;
using pbt::Case;
using pbt::fmt;

using FileTexts = std::vector<std::pair<std::string, std::string>>;
struct Request { uint32_t at; dis::Flags flags; };

struct Job {
  enum Kind { kAssemble, kDisassemble, kLines, kRom } kind = kAssemble;
  FileTexts files;                 // kAssemble
  bool on_disk = false;
  dis::Image im;                   // kDisassemble
  dis::Convs convs;
  std::vector<Request> requests;
  bool cleanup = false;
  std::vector<std::string> lines;  // kLines
  std::string rom;                 // kRom
  std::vector<std::pair<uint32_t, int>> reads;
};

static std::string Show(const Job& j) {
  std::string s;
  if (j.kind == Job::kAssemble)
    for (auto& f : j.files) s += "--- " + f.first + "\n" + f.second + "\n";
  if (j.kind == Job::kDisassemble) {
    uint32_t next = 0xffffffff;
    for (auto& b : j.im.bytes) {
      if (b.first != next) s += fmt("\n%06x:", b.first);
      s += fmt(" %02x", b.second);
      next = b.first + 1;
    }
    s += "\nconventions:" + dis::ShowConvs(j.convs) + "\n";
    for (auto& r : j.requests) s += fmt("at $%06x with ", r.at) + dis::Str(r.flags) + "\n";
    if (j.cleanup) s += "cleanup\n";
  }
  for (auto& l : j.lines) s += l + "\n";
  if (j.kind == Job::kRom) s += fmt("rom of %d bytes, %d reads\n", (int)j.rom.size(), (int)j.reads.size());
  return s;
}

// A job under way.  Call Step() until it returns false; Report() is everything
// that can be asked afterwards, and may be asked again.
struct Work {
  const Job& j;
  std::function<void()> on_io;      // called whenever the library reads or writes
  std::string dir;                  // its files are here
  size_t step = 0;
  std::string log;
  struct Out : OutputSink {
    Work* w;
    std::map<uint32_t, uint8_t> bytes;
    ErrorOr<void> Write(nsasm::Address a, absl::Span<const std::uint8_t> data) override {
      if (w->on_io) w->on_io();
      for (size_t i = 0; i < data.size(); ++i) bytes[prog::Wrap(run::Num(a), i)] = data[i];
      if (w->on_io) w->on_io();
      return {};
    }
  } out;
  struct In : InputSource {
    Work* w;
    explicit In(Work* w) : w(w) {}
    std::string Path() const override { return "img.sfc"; }
    ErrorOr<std::vector<uint8_t>> Read(nsasm::Address a, int length) const override {
      if (w->on_io) w->on_io();
      return dis::Source(w->j.im).Read(a, length);
    }
  };
  std::vector<File> fs;
  std::unique_ptr<Assembler> as;
  std::unique_ptr<Disassembler> d;
  std::vector<std::vector<absl::variant<Statement, ParsedLabel>>> parsed;
  std::vector<std::vector<Token>> tokens;
  std::unique_ptr<Rom> rom;
  bool failed = false;
  absl::optional<Error> error;

  Work(const Job& j, const std::string& dir) : j(j), dir(dir) { out.w = this; }
  Work(const Work&) = delete;

  void Fail(Error e) { failed = true; error.emplace(std::move(e)); }

  bool Step() {
    size_t n = step++;
    if (failed) return false;
    switch (j.kind) {
      case Job::kAssemble: {
        if (n == 0) {
          as = std::make_unique<Assembler>();
          if (j.on_disk) mkdir(dir.c_str(), 0700), mkdir((dir + "/src").c_str(), 0700);
          return true;
        }
        if (n <= j.files.size()) {
          auto& f = j.files[n - 1];
          if (j.on_disk) {
            std::ofstream(dir + "/" + f.first, std::ios::binary) << f.second;
            auto opened = OpenFile(dir + "/" + f.first);
            if (!opened.ok()) { Fail(opened.error()); return false; }
            fs.push_back(*std::move(opened));
          } else fs.push_back(MakeFakeFile(f.first, f.second));
          auto r = as->AddAsmFile(fs.back());
          if (!r.ok()) Fail(r.error());
          return !failed;
        }
        if (n > j.files.size() + 1) return false;
        auto r = as->Assemble(&out);
        if (!r.ok()) Fail(r.error());
        return false;
      }
      case Job::kDisassemble: {
        if (n == 0) {
          d = std::make_unique<Disassembler>(std::make_unique<In>(this));
          d->AddTargetReturnConventions(dis::ToConvs(j.convs));
          return true;
        }
        if (n <= j.requests.size()) {
          auto r = d->Disassemble(dis::Addr(j.requests[n - 1].at), dis::To(j.requests[n - 1].flags));
          if (!r.ok()) log += "error " + r.error().ToString() + "\n";
          else
            for (auto& t : *r) log += "far " + t.first.ToString() + " " + t.second.ToString() + "\n";
          return true;
        }
        if (n > j.requests.size() + 1 || !j.cleanup) return false;
        auto r = d->Cleanup();
        log += r.ok() ? "cleaned\n" : "error " + r.error().ToString() + "\n";
        return false;
      }
      case Job::kLines: {
        if (n >= j.lines.size()) return false;
        auto t = Tokenize(j.lines[n], Location("l.asm", n + 1));
        if (!t.ok()) { log += "error " + t.error().ToString() + "\n"; return true; }
        tokens.push_back(*t);
        auto p = Parse(tokens.back());
        if (!p.ok()) { log += "error " + p.error().ToString() + "\n"; return true; }
        parsed.push_back(*std::move(p));
        return true;
      }
      case Job::kRom: {
        if (n == 0) {
          mkdir(dir.c_str(), 0700);
          std::ofstream(dir + "/r.sfc", std::ios::binary) << j.rom;
          auto r = LoadRomFile(dir + "/r.sfc");
          if (!r.ok()) log += "error " + r.error().ToString() + "\n";
          else rom = *std::move(r);
          return true;
        }
        if (!rom) return false;
        if (n > j.reads.size()) {
          RomOverwriter over(std::move(rom));
          std::string saved = dir + "/saved.sfc";
          auto r = over.CreateFile(saved);
          if (!r.ok()) log += "error " + r.error().ToString() + "\n";
          std::ifstream f(saved, std::ios::binary);
          std::string all((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
          log += fmt("saved %zu bytes, %016llx\n", all.size(), (unsigned long long)pbt::hash_str(all));
          return false;
        }
        auto r = rom->Read(dis::Addr(j.reads[n - 1].first), j.reads[n - 1].second);
        if (!r.ok()) log += "error " + r.error().ToString() + "\n";
        else {
          for (uint8_t b : *r) log += fmt("%02x", b);
          log += "\n";
        }
        return true;
      }
    }
    return false;
  }

  std::string Report() const {
    std::string s = Everything(), d = dir + "/";
    for (size_t p; (p = s.find(d)) != s.npos;) s.erase(p, d.size());
    return s;
  }
  std::string Everything() const {
    std::string s = log;
    if (error) s += "error " + error->ToString() + "\n";
    for (auto& t : tokens) {
      for (auto& x : t) s += x.ToString() + "@" + x.Location().ToString() + " ";
      s += "\n";
    }
    for (auto& p : parsed) {
      for (auto& x : p) s += absl::holds_alternative<Statement>(x) ? "statement " + absl::get<Statement>(x).ToString() + ";" : "label " + absl::get<ParsedLabel>(x).ToString() + ";";
      s += "\n";
    }
    if (d) s += dis::Dump(d->Result());
    if (as && !failed && step > j.files.size() + 1) {
      s += run::Show(out.bytes) + "\n";
      for (auto& t : as->JumpTargets()) s += " " + t.first.ToString() + "=" + t.second.ToString();
      for (auto& t : as->JumpTargetReturnConventions())
        s += " " + t.first.ToString() + (t.second.IsExitCall() ? ":noreturn" : t.second.YieldFlags() ? ":" + t.second.YieldFlags()->ToString() : ":");
      for (auto& b : out.bytes) {
        auto n = as->NameForAddress(run::Addr(b.first));
        if (n) s += fmt(" %06x:", b.first) + n->ToString();
        if (!as->Contains(run::Addr(b.first))) s += fmt(" -%06x", b.first);
      }
    }
    return s;
  }
  void Finish() { while (Step()) {} }
};

// ------------------------------------------------------------------- jobs
static void Damage(Case& c, std::string* s) {
  if (s->empty()) return;
  size_t p = c.draw(s->size());
  switch (c.draw(5)) {
    case 0: s->erase(p, c.range(1, 4)); break;
    case 1: (*s)[p] = c.pick({'x', '$', '\n', '7', ',', '+', ' ', '#', 'a'}); break;
    case 2: s->insert(p, c.pick({"\n nop\n", "\n .org $018000\n", "\n .begin\n", " ", "1", "+", "\n .equ q 1\n"})); break;
    case 3: {  // a line again
      size_t b = s->rfind('\n', p), e = s->find('\n', p);
      b = b == s->npos ? 0 : b + 1;
      if (e != s->npos && e > b) s->insert(c.coin() ? b : 0, s->substr(b, e - b + 1));
      break;
    }
    default: {  // a line less
      size_t b = s->rfind('\n', p), e = s->find('\n', p);
      b = b == s->npos ? 0 : b + 1;
      if (e != s->npos && e > b) s->erase(b, e - b + 1);
    }
  }
}

static Job Fresh(Case& c) {
  Job j;
  j.kind = (Job::Kind)c.weighted({5, 5, 3, 2});
  if (j.kind == Job::kAssemble) {
    prog::Options o;
    o.body = 8;
    o.blocks = 3;
    o.names_heavy = c.coin(1, 3);
    if (c.coin(1, 30)) o.modules = 10, o.many_names = true, o.body = 30;
    prog::Gen g(c, o);
    prog::Program p = g.Make();
    j.files = run::FileList(p, p.order);
    j.on_disk = c.coin(1, 4);
  } else if (j.kind == Job::kDisassemble) {
    dis::Options o;
    if (c.coin(1, 30)) o.routines = 30, o.body = 30;
    dis::Gen g(c, o);
    j.im = g.Make();
    j.convs = dis::SomeConvs(c, j.im);
    for (int n = c.range(1, 4); n > 0; --n) {
      Request r;
      r.at = c.coin(5, 6) || j.im.code.empty() ? j.im.routines[c.draw(j.im.routines.size())] : c.pick(j.im.code);
      ref::Mode3 m;
      ref::ModeByName(c.pick({"m8x8", "m16x16", "m8x16", "m16x8", "emu", "native"}), &m);
      r.flags = {m.e, m.m, m.x, c.coin(1, 3) ? (int)c.draw(2) : -1};
      if (r.flags.e == 1) r.flags.m = r.flags.x = 1;
      j.requests.push_back(r);
    }
    j.cleanup = c.coin(2, 3);
  } else if (j.kind == Job::kLines) {
    for (int n = c.range(1, 8); n > 0; --n) j.lines.push_back(gen::line(c));
  } else {
    auto d = romfile::image(c.coin() ? ref::LoRom : ref::HiRom, c.pick({0x10000, 0x18000, 0x20000}), c.draw(1000));
    j.rom.assign(d.begin(), d.end());
    if (c.coin(1, 4)) j.rom = std::string(0x200, 's') + j.rom;
    for (int n = c.range(1, 6); n > 0; --n) j.reads.push_back({c.draw(4) << 16 | 0x8000 | c.draw(0x8000), (int)c.range(0, 40)});
  }
  return j;
}

// Almost the same job: what would be mixed up with the first, if anything was.
static Job Variant(Case& c, Job j) {
  switch (j.kind) {
    case Job::kAssemble: {
      if (j.files.size() > 1 && c.coin(1, 4)) {
        size_t a = c.draw(j.files.size()), b = c.draw(j.files.size());
        std::swap(j.files[a].second, j.files[b].second);
      }
      if (j.files.size() > 1 && c.coin(1, 6)) j.files.pop_back();
      for (int n = c.weighted({1, 4, 2}); n > 0; --n) Damage(c, &j.files[c.draw(j.files.size())].second);
      break;
    }
    case Job::kDisassemble: {
      if (c.coin(1, 3)) j.convs = dis::SomeConvs(c, j.im);
      for (int n = c.weighted({1, 3, 2}); n > 0; --n) {
        auto it = j.im.bytes.begin();
        std::advance(it, c.draw(j.im.bytes.size()));
        if (c.coin(1, 4)) j.im.bytes.erase(it);
        else it->second = c.draw(256);
        if (j.im.bytes.empty()) break;
      }
      for (auto& r : j.requests)
        if (c.coin(1, 3)) {
          r.flags.m = r.flags.x = 1;
          r.flags.e = c.range(0, 1);
        }
      if (c.coin(1, 4)) j.cleanup = !j.cleanup;
      break;
    }
    case Job::kLines: {
      for (auto& l : j.lines)
        if (c.coin(1, 3)) Damage(c, &l);
      break;
    }
    case Job::kRom: {
      for (int n = c.range(0, 20); n > 0; --n) j.rom[c.draw(j.rom.size())] = c.draw(256);
      if (j.rom.size() % 0x1000 == 0x200 && c.coin()) j.rom.erase(0, 0x200);
      else if (c.coin(1, 3)) j.rom = std::string(0x200, 't') + j.rom;
      size_t h = j.rom.size() % 0x1000 == 0x200 ? 0x200 : 0;
      if (c.coin(1, 3) && j.rom.size() > h + 0xffe0)
        for (size_t at : {0x7fdcu, 0xffdcu}) j.rom[h + at] ^= c.draw(2) << c.draw(8);
      if (c.coin(1, 4)) j.rom.resize(c.pick({0x100, 0x8000, 0x10000, 0x7fff, 0x8200}));
      break;
    }
  }
  return j;
}

static std::vector<Job> Jobs(Case& c, int lo, int hi) {
  std::vector<Job> js;
  int n = c.range(lo, hi);
  for (int i = 0; i < n; ++i) {
    if (i > 0 && c.coin(3, 5)) js.push_back(Variant(c, js[c.draw(i)]));
    else js.push_back(Fresh(c));
  }
  for (int i = 0; i < n; ++i) c.note(fmt("=== job %d\n", i) + Show(js[i]));
  return js;
}

// ---------------------------------------------------------------- children
static std::string Dir(Case& c, int i) { return c.scratch + fmt("/%d", i); }

static std::string Race(const std::string& path) {
  std::ifstream f(path);
  std::string line, s;
  int kept = 0;
  while (std::getline(f, line) && kept < 14) {
    bool keep = line.find("ThreadSanitizer") != line.npos || line.find("ssert") != line.npos || line.find(" nsasm::") != line.npos || line.find("Write of") != line.npos || line.find("Read of") != line.npos || line.find("terminate") != line.npos;
    if (keep) s += "\n    " + line.substr(0, 200), ++kept;
  }
  return s;
}

// Runs f in a child, which gives back some texts.
static std::vector<std::string> InChild(Case& c, const std::string& what, const std::function<std::vector<std::string>()>& f) {
  int fd[2];
  if (pipe(fd)) c.fail("pipe");
  std::string err = c.scratch + "/child.err";
  pid_t pid = fork();
  if (pid < 0) c.fail("fork");
  if (pid == 0) {
    close(fd[0]);
    int e = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (e >= 0) dup2(e, 2);
    alarm(100);
    std::string all;
    for (auto& s : f()) all += fmt("%zu\n", s.size()) + s;
    all += "end\n";
    for (size_t at = 0; at < all.size();) {
      ssize_t n = write(fd[1], all.data() + at, all.size() - at);
      if (n <= 0) _exit(3);
      at += n;
    }
    _exit(0);
  }
  close(fd[1]);
  std::string all;
  char buf[65536];
  for (ssize_t n; (n = read(fd[0], buf, sizeof buf)) > 0;) all.append(buf, n);
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  std::vector<std::string> r;
  size_t at = 0;
  while (at < all.size() && all.compare(at, 4, "end\n")) {
    size_t e = all.find('\n', at), n = strtoull(all.c_str() + at, nullptr, 10);
    r.push_back(all.substr(e + 1, n));
    at = e + 1 + n;
  }
  if (st || all.size() < 4 || all.compare(all.size() - 4, 4, "end\n")) c.fail(what + fmt(" ended with status %x", st) + Race(err));
  return r;
}

// Each job on its own.
static std::vector<std::string> Alone(Case& c, const std::vector<Job>& js) {
  std::vector<std::string> r;
  std::set<std::string> kinds;
  for (size_t i = 0; i < js.size(); ++i) {
    auto got = InChild(c, fmt("job %zu on its own", i), [&] {
      Work w(js[i], Dir(c, 0));
      w.Finish();
      return std::vector<std::string>{w.Report()};
    });
    r.push_back(got.at(0));
    kinds.insert(fmt("%d", js[i].kind));
    c.label(std::string(js[i].kind == Job::kAssemble ? "assembly" : js[i].kind == Job::kDisassemble ? "disassembly" : js[i].kind == Job::kLines ? "lines" : "rom") + (got[0].find("error ") == std::string::npos ? ", no error" : ", errors"));
  }
  c.nontrivial(std::set<std::string>(r.begin(), r.end()).size() > 1);
  c.evals(js.size());
  return r;
}
static void Same(Case& c, const std::string& when, const std::string& got, const std::string& want) {
  if (got == want) return;
  size_t p = 0;
  while (p < got.size() && p < want.size() && got[p] == want[p]) ++p;
  size_t b = p > 60 ? p - 60 : 0;
  c.fail(when + " gives\n  ..." + got.substr(b, 200) + "\nbut on its own\n  ..." + want.substr(b, 200));
}

// One after the other, all results kept.
static void histories(Case& c) {
  auto js = Jobs(c, 2, 6);
  auto want = Alone(c, js);
  std::vector<int> order;
  for (int n = c.range(2, 10); n > 0; --n) order.push_back(c.draw(js.size()));
  std::string o;
  for (int i : order) o += fmt(" %d", i);
  c.note("order:" + o);
  bool keep = c.coin(2, 3), same_dir = c.coin(2, 3);
  auto got = InChild(c, "jobs in the order" + o, [&] {
    std::vector<std::unique_ptr<Work>> ws;
    std::vector<std::string> r;
    for (int i : order) {
      ws.push_back(std::make_unique<Work>(js[i], Dir(c, same_dir ? 0 : i)));
      ws.back()->Finish();
      r.push_back(ws.back()->Report());
      if (!keep) ws.clear();
    }
    for (auto& w : ws) r.push_back(w->Report());
    return r;
  });
  for (size_t k = 0; k < got.size(); ++k) {
    size_t n = k % order.size();
    Same(c, fmt("job %d, number %zu of the order", order[n], n) + o + (k < order.size() ? "" : ", asked again at the end,"), got[k], want[order[n]]);
  }
  c.evals(got.size());
}

// Steps of several jobs in turn.
static void interleaved(Case& c) {
  auto js = Jobs(c, 2, 4);
  auto want = Alone(c, js);
  std::vector<int> turns;
  for (int n = 40; n > 0; --n) turns.push_back(c.draw(js.size()));
  auto got = InChild(c, "interleaved jobs", [&] {
    std::vector<std::unique_ptr<Work>> ws;
    std::vector<bool> done(js.size());
    for (size_t i = 0; i < js.size(); ++i) ws.push_back(std::make_unique<Work>(js[i], Dir(c, i)));
    for (int i : turns)
      if (!done[i]) done[i] = !ws[i]->Step();
    for (size_t i = 0; i < js.size(); ++i)
      if (!done[i]) ws[i]->Finish();
    std::vector<std::string> r;
    for (auto& w : ws) r.push_back(w->Report());
    return r;
  });
  for (size_t i = 0; i < js.size(); ++i) Same(c, fmt("job %zu, with steps of others in between,", i), got[i], want[i]);
}

// A job that runs while another is writing its output or reading its image.
static void nested(Case& c) {
  auto js = Jobs(c, 2, 2);
  auto want = Alone(c, js);
  int at = c.range(1, 8), ran = 0;
  c.note(fmt("job 1 runs in number %d of the reads and writes of job 0", at));
  auto got = InChild(c, "nested jobs", [&] {
    Work outer(js[0], Dir(c, 0));
    std::vector<std::string> r;
    outer.on_io = [&] {
      if (++ran != at) return;
      Work inner(js[1], Dir(c, 1));
      inner.Finish();
      r.push_back(inner.Report());
    };
    outer.Finish();
    r.push_back(outer.Report());
    return r;
  });
  Same(c, "job 0, with job 1 run in between,", got.back(), want[0]);
  if (got.size() > 1) Same(c, "job 1, run while job 0 is", got[0], want[1]);
  c.label(got.size() > 1 ? "nested" : "not nested");
}

// Jobs in threads of their own.
static void threads(Case& c) {
  auto js = Jobs(c, 2, 4);
  auto want = Alone(c, js);
  int n = c.range(2, 6), reps = c.range(1, 2);
  std::vector<int> who;
  for (int i = 0; i < n; ++i) who.push_back(i < (int)js.size() ? i : c.draw(js.size()));
  auto got = InChild(c, fmt("%d threads", n), [&] {
    std::vector<std::string> r(n * reps);
    pthread_barrier_t start;
    pthread_barrier_init(&start, nullptr, n);
    std::vector<std::thread> ts;
    for (int i = 0; i < n; ++i)
      ts.emplace_back([&, i] {
        pthread_barrier_wait(&start);
        for (int k = 0; k < reps; ++k) {
          Work w(js[who[i]], Dir(c, 10 + i));
          w.Finish();
          r[i * reps + k] = w.Report();
        }
      });
    for (auto& t : ts) t.join();
    return r;
  });
  for (int i = 0; i < n; ++i)
    for (int k = 0; k < reps; ++k) Same(c, fmt("job %d in one of %d threads", who[i], n), got.at(i * reps + k), want[who[i]]);
  c.evals(n * reps);
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C41";
  cfg.rule = "sets of assemblies, disassemblies, parsed lines and ROM loads, most of them variants of one another, each done alone in a fresh process and then in a sequence, step by step in turn, inside one another, and in threads; non-trivial: at least two of the jobs have different results";
  cfg.tests = {{"histories", histories, 0, 3}, {"interleaved", interleaved, 0, 2}, {"nested", nested, 0, 1}, {"threads", threads, 0, 3}};
  cfg.quick_cases = 4000;
  cfg.thorough_cases = 60000;
  cfg.case_cpu_s = 60;
  return pbt::main_(cfg, argc, argv);
}
