// C11: the quick_dump tool, run as a program.
#include "gen_addr.h"
#include "rom_file.h"
#include "limited_run.h"

using pbt::Case;
using pbt::fmt;
using namespace romfile;

struct Result { int status; std::string out; };

static Result run(Case& c, const std::vector<std::string>& args) {
  std::string tool = std::string(getenv("VERIF_BIN_DIR")) + "/quick_dump", out = c.scratch + "/stdout";
  int st = spawn::Run(tool, args, "/dev/null", out, "");
  Bytes b;
  read_file(out, &b);
  return {st, std::string(b.begin(), b.end())};
}

static void dump(Case& c) {
  ref::Map m = ref::Map(c.weighted({3, 3, 1}));
  uint32_t size = m == ref::ExHiRom ? 0x400000 : 0x1000 * c.range(0x10, 0x20);
  bool has_smc = c.coin(1, 3);
  uint64_t key = c.draw(4);
  Bytes d = image(m, size, key);
  std::string path = c.scratch + fmt("/d%d-%x-%d-%d.sfc", (int)m, size, has_smc, (int)key);
  struct stat sb;
  if (stat(path.c_str(), &sb)) write_file(path, has_smc ? smc_header(key) : Bytes(), d);
  uint32_t a = c.coin(4, 5) ? addr_for(c, m, c.coin(1, 5) ? size - 1 - c.range(0, 9) : (uint32_t)c.draw(size)) : gen::address(c);
  if (c.coin(1, 5)) a |= 0xfff0;
  int stride = c.weighted({1, 3, 3, 3, 1}), per = 8, count = c.coin(1, 10) ? c.range(-2, 1) : c.range(1, 40);
  if (c.coin(1, 40)) count = c.range(1000, 15000);  // the tool takes quadratic time
  std::vector<std::string> args = {path, fmt(c.coin(1, 4) ? "%X" : c.coin(1, 4) ? "0x%x" : "%06x", a), std::to_string(count)};
  bool with_stride = c.coin(3, 4), with_per = with_stride && c.coin();
  if (with_stride) args.push_back(std::to_string(stride));
  if (with_per) { per = c.range(-1, 20); args.push_back(std::to_string(per)); }
  int width = with_stride && stride >= 2 && stride <= 3 ? stride : 1;
  int want_count = std::max(count, 1), want_per = std::max(per, 1);
  c.note(fmt("dump $%06x count=%d stride=%s per=%s", a, count, with_stride ? args[3].c_str() : "-", with_per ? args[4].c_str() : "-"));
  Result r = run(c, args);
  std::vector<uint32_t> want;
  bool ok = true;
  for (int i = 0; ok && i < want_count; ++i) {
    uint32_t v = 0;
    for (int b = 0; b < width; ++b) {
      auto o = ref::RomOffset(ref::Wrap(a, (int64_t)i * width + b), m);
      if (!o || *o >= size) { ok = false; break; }
      v |= d[*o] << (8 * b);
    }
    want.push_back(v);
  }
  c.label(ok ? "dumped" : "address error");
  c.check_f(WIFEXITED(r.status), [&] { return "tool died: " + spawn::Ending(r.status) + ": " + r.out.substr(0, 200); });
  if (!ok) {
    c.check_f(WEXITSTATUS(r.status) == 1, [&] { return fmt("exit status %d for an unreadable address", WEXITSTATUS(r.status)); });
    c.check_f(r.out.find(path) != r.out.npos, [&] { return "the message does not name the ROM: " + r.out; });
    return;
  }
  c.nontrivial(want_count > want_per);
  c.check_f(WEXITSTATUS(r.status) == 0, [&] { return fmt("exit status %d: ", WEXITSTATUS(r.status)) + r.out; });
  // Read the listing back.
  std::istringstream in(r.out);
  std::string tok, line;
  std::getline(in, line);
  uint32_t org = 0;
  c.check_f(sscanf(line.c_str(), ".org $%x", &org) == 1 && org == a, [&] { return "first line is " + line; });
  std::vector<uint32_t> got;
  size_t lines = 0;
  while (std::getline(in, line)) {
    std::istringstream ls(line);
    ls >> tok;
    c.check_f(tok == (width == 1 ? ".db" : width == 2 ? ".dw" : ".dl"), [&] { return "wrong directive in: " + line; });
    std::string rest, item;
    std::getline(ls, rest);
    std::istringstream items(rest);
    int k = 0;
    while (std::getline(items, item, ',')) {
      unsigned v;
      char extra;
      c.check_f(sscanf(item.c_str(), " $%x %c", &v, &extra) == 1, [&] { return "bad item in: " + line; });
      got.push_back(v);
      ++k;
    }
    c.check_f(k >= 1 && k <= want_per, [&] { return fmt("%d items on a line, want at most %d", k, want_per); });
    ++lines;
  }
  c.check_f(got == want, [&] {
    size_t i = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
    return fmt("%zu values, want %zu; first difference at %zu", got.size(), want.size(), i);
  });
  c.check_f(lines == (want.size() + want_per - 1) / want_per, [&] { return fmt("%zu lines for %zu values, %d per line", lines, want.size(), want_per); });
}

static void misuse(Case& c) {
  Bytes d = image(ref::LoRom, 0x10000, 1);
  std::string path = c.scratch + "/m.sfc";
  struct stat sb;
  if (stat(path.c_str(), &sb)) write_file(path, Bytes(), d);
  std::vector<std::string> args;
  int n = c.range(0, 5);
  static const char* junk[] = {"", "zz", "-", "1000000", "ffffffff", "$8000", "8000", "4", "99999999", "-1"};
  if (c.coin()) {
    // right but for one of them
    static const char* good[] = {"", "8000", "4", "2", "3"};
    n = 2 + c.draw(4);
    for (int i = 0; i < n; ++i) args.push_back(i == 0 ? path : good[i]);
    args[c.draw(n)] = c.pick(junk);
  } else {
    for (int i = 0; i < n; ++i) args.push_back(i == 0 && c.coin(3, 4) ? path : std::string(c.pick(junk)));
  }
  c.note("misuse:");
  for (auto& a : args) c.note(" '" + a + "'");
  // A count that is a huge number is legitimate; keep the run short.
  if (n > 2 && args[2] == "99999999") args[2] = "12";
  if (n > 2 && (args[2] == "1000000")) args[2] = "100";
  Result r = run(c, args);
  c.nontrivial(n >= 3);
  c.check_f(WIFEXITED(r.status) && (WEXITSTATUS(r.status) == 0 || WEXITSTATUS(r.status) == 1), [&] { return "tool crashed: " + spawn::Ending(r.status) + ": " + r.out.substr(0, 300); });
  // The outcome, where the arguments leave no doubt about it.
  bool listing = r.out.find(".org") != r.out.npos;
  auto is = [&](int i, std::initializer_list<const char*> set) { for (auto s : set) if (n > i && args[i] == s) return true; return false; };
  if (n < 3) {
    c.check(!listing && r.out.find("Usage") != r.out.npos, "no usage message: " + r.out.substr(0, 300));
    return;
  }
  if (args[0] != path) {
    c.check(!listing && WEXITSTATUS(r.status) == 1 && (args[0].empty() || r.out.find(args[0] + ": ") == 0), fmt("status %d, ", WEXITSTATUS(r.status)) + "no error about the ROM: " + r.out.substr(0, 300));
    return;
  }
  bool bad = is(1, {"", "zz", "-", "1000000", "ffffffff", "$8000", "99999999", "-1"});
  for (int i = 2; i < n; ++i) bad = bad || is(i, {"", "zz", "-", "ffffffff", "$8000"});
  if (bad) c.check(!listing && WEXITSTATUS(r.status) == 1 && r.out.find("Usage") != r.out.npos, fmt("status %d for bad arguments: ", WEXITSTATUS(r.status)) + r.out.substr(0, 300));
  c.label(bad ? "bad arguments" : "good arguments");
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C11";
  cfg.rule = "quick_dump run on generated ROM files with generated address, count, stride and items per line, its listing parsed back; plus malformed command lines; non-trivial: a listing of more than one line, or a misuse with three or more arguments";
  cfg.tests = {{"dump", dump, 0, 8}, {"misuse", misuse, 0, 1}};
  cfg.quick_cases = 6000;
  cfg.thorough_cases = 100000;
  return pbt::main_(cfg, argc, argv);
}
