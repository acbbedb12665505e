// C40: output that is refused makes assembly fail at the statement it belongs to.
#include "asm_run.h"

using namespace nsasm;
using pbt::Case;
using pbt::fmt;

// Refuses some writes, and records the rest.
struct RefusingSink : public OutputSink {
  std::set<uint32_t> refused;           // addresses it does not take
  int limit = -1;                       // takes this many writes at most
  Error error{"none"};
  std::map<uint32_t, uint8_t> bytes;
  uint32_t at = 0;
  int length = 0;
  int writes = 0, after = 0;
  bool failed = false, twice = false, empty = false;
  ErrorOr<void> Write(nsasm::Address address, absl::Span<const std::uint8_t> data) override {
    if (failed) { ++after; return error; }
    if (data.empty()) empty = true;
    bool no = limit >= 0 && writes >= limit;
    for (size_t i = 0; i < data.size(); ++i) no = no || refused.count(prog::Wrap(run::Num(address), i));
    if (no) {
      failed = true;
      at = run::Num(address);
      length = data.size();
      return error;
    }
    ++writes;
    for (size_t i = 0; i < data.size(); ++i)
      if (!bytes.emplace(prog::Wrap(run::Num(address), i), data[i]).second) twice = true;
    return {};
  }
};

static void refuse(Case& c) {
  prog::Options o;
  o.blocks = 3;
  o.body = 8;
  if (c.coin(1, 25)) o.modules = 12, o.many_names = true, o.body = 30;
  prog::Gen g(c, o);
  prog::Program p = g.Make();
  auto want = g.Bytes();
  std::vector<std::pair<const prog::Module*, const prog::St*>> writers;
  std::map<const prog::St*, int> length;
  for (size_t k = 0; k < p.mod.size(); ++k)
    for (auto& s : p.mod[k].st) {
      int n = g.Encode(k, s).size();
      if (n == 0) continue;
      writers.push_back({&p.mod[k], &s});
      length[&s] = n;
    }
  if (writers.empty()) return;
  RefusingSink sink;
  int kind = c.weighted({3, 3, 1, 1});
  if (kind == 0) {
    auto& w = c.pick(writers);
    sink.refused.insert(prog::Wrap(w.second->addr, c.draw(length[w.second])));
  } else if (kind == 1) {
    sink.limit = c.draw(std::min<size_t>(writers.size() + 3, 1 + 2 * writers.size()));
  } else if (kind == 2) {
    for (int n = c.range(2, 6); n > 0; --n) {
      auto& w = c.pick(writers);
      sink.refused.insert(prog::Wrap(w.second->addr, c.draw(length[w.second])));
    }
  } else {
    uint32_t a = c.draw(0x1000000);
    if (!want.count(a)) sink.refused.insert(a);
  }
  std::string message = fmt("refusal number %d", (int)c.draw(100));
  sink.error = Error("%s", message);
  int where = c.draw(4);
  if (where == 1) sink.error.SetLocation(Location("other.sfc"));
  if (where == 2) sink.error.SetLocation(Location("other.sfc", 77));
  if (where == 3) sink.error.SetLocation(std::string("other.sfc"), nsasm::Address(0x123456u));
  c.note(prog::Listing(p));
  std::string refused;
  for (uint32_t a : sink.refused) refused += fmt(" $%06x", a);
  c.note("refused:" + refused + fmt(", after %d writes", sink.limit));

  std::vector<File> fs;
  for (auto& f : run::FileList(p, p.order)) fs.push_back(MakeFakeFile(f.first, f.second));
  auto a = Assemble(fs, &sink);
  c.check(!sink.twice, "a byte was written twice");
  for (auto& b : sink.bytes) {
    auto it = want.find(b.first);
    if (it == want.end() || it->second != b.second) c.fail(fmt("%02x was written at $%06x", b.second, b.first));
  }
  c.evals(sink.bytes.size());
  if (kind != 1) {
    bool hit = false;
    for (uint32_t x : sink.refused) hit = hit || want.count(x);
    c.check(hit == sink.failed, hit ? "the refused byte was never written" : "a byte was refused that the program does not have");
  }
  c.check(a.ok() == !sink.failed, a.ok() ? "assembled although the output was refused" : "fails although nothing was refused: " + a.error().ToString());
  if (!sink.failed) {
    if (sink.bytes != want) c.fail("incomplete: " + run::FirstDiff(sink.bytes, want));
    c.label("all taken");
    return;
  }
  c.check(sink.after == 0, fmt("%d writes after a refusal", sink.after));
  // The statement it belongs to.
  const prog::Module* mod = nullptr;
  const prog::St* st = nullptr;
  for (auto& w : writers)
    for (int i = 0; i < length[w.second]; ++i)
      if (prog::Wrap(w.second->addr, i) == sink.at) mod = w.first, st = w.second;
  c.check(st != nullptr, fmt("a write at $%06x, where there is no statement", sink.at));
  std::string text = a.error().ToString(), loc = mod->path + fmt(":%d: ", st->line);
  c.check(text.compare(0, loc.size(), loc) == 0, "the error should be at " + loc + " but is: " + text);
  c.check(text.find(message) != std::string::npos, "the message should be '" + message + "' but is: " + text);
  c.nontrivial(sink.writes > 0);
  c.label(st->directive ? "data refused" : "instruction refused");
  c.label(where ? "error with a location of its own" : "error without location");
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C40";
  cfg.rule = "valid programs assembled to an output that refuses some addresses, or everything after some writes, with an error that has a location of its own or none; non-trivial: something was written before the refusal";
  cfg.tests = {{"refuse", refuse}};
  cfg.quick_cases = 12000;
  cfg.thorough_cases = 400000;
  return pbt::main_(cfg, argc, argv);
}
