// C33: quick_assemble, run as a program.
#include "gen_addr.h"
#include "tool_run.h"

using pbt::Case;
using pbt::fmt;
using namespace romfile;
using namespace tool;

struct Prog {
  std::vector<std::string> text;                 // one per file
  std::map<uint32_t, uint8_t> bytes;             // image offset -> byte
  bool bad = false;                              // must be refused
  std::string why;
};

static Prog Make(Case& c, ref::Map m, uint32_t size, const Bytes& image, bool same_as_rom) {
  Prog p;
  bool big = c.coin(1, 12);
  int files = c.range(1, big ? 12 : 3);
  std::map<uint32_t, bool> used;
  std::vector<std::pair<std::string, uint32_t>> labels;
  int n = 0;
  for (int f = 0; f < files; ++f) {
    std::string s;
    if (c.coin()) s += fmt("; file %d\n", f);
    bool module = c.coin(2, 3);
    if (module) s += fmt(".module mod%d\n", f);
    for (int b = c.range(1, big ? 30 : 4); b > 0; --b) {
      uint32_t a = addr_for(c, m, c.coin(1, 4) ? size - 1 - c.draw(40) : (uint32_t)c.draw(size));
      if (c.coin(1, 6)) a |= 0xfff8;
      // the bytes of a block
      std::vector<uint8_t> bytes;
      int len = c.range(1, big && c.coin() ? 200 : 12);
      std::vector<uint32_t> at;
      bool ok = true;
      for (int i = 0; i < len; ++i) {
        uint32_t w = ref::Wrap(a, i);
        auto o = ref::RomOffset(w, m);
        if (!o || *o >= size || used.count(w) || p.bytes.count(*o)) { ok = false; break; }
        at.push_back(*o);
      }
      if (!ok) continue;
      for (int i = 0; i < len; ++i) bytes.push_back(same_as_rom ? image[at[i]] : (uint8_t)c.draw(256));
      s += fmt(".org $%06x\n", a);
      int i = 0;
      while (i < len) {
        if (c.coin(1, 3)) {
          labels.push_back({fmt("v%d", n), ref::Wrap(a, i)});
          s += c.coin() ? fmt("export v%d:\n", n) : fmt("v%d:", n);
          ++n;
        }
        int k = std::min<int>(c.range(1, 3), len - i);
        // a reference to a label of this file, when the ROM need not match
        if (k == 3 && !same_as_rom && !labels.empty() && c.coin()) {
          auto& l = labels[c.draw(labels.size())];
          if (s.find(l.first + ":") != s.npos) {
            for (int b = 0; b < 3; ++b) bytes[i + b] = l.second >> (8 * b) & 0xff;
            s += " .dl " + l.first + "\n";
            i += 3;
            continue;
          }
        }
        uint32_t v = 0;
        for (int b = 0; b < k; ++b) v |= (uint32_t)bytes[i + b] << (8 * b);
        s += fmt(" .d%c %s\n", "bwl"[k - 1], c.coin() ? fmt("$%0*x", 2 * k, v).c_str() : std::to_string(v).c_str());
        i += k;
      }
      for (int i = 0; i < len; ++i) {
        used[ref::Wrap(a, i)] = true;
        p.bytes[at[i]] = bytes[i];
      }
    }
    if (!module && c.coin()) s += fmt(".module mod%d\n", f);
    p.text.push_back(s);
  }
  if (c.coin(1, 4)) {
    std::string& s = p.text[c.draw(p.text.size())];
    p.bad = true;
    switch (c.draw(6)) {
      case 0: s += " lda (\n"; p.why = "syntax"; break;
      case 1: s += ".org $7e2000\n .db 1\n"; p.why = "unmapped address"; break;
      case 2: s += fmt(".org $%06x\n .dw nowhere\n", addr_for(c, m, 0x100)); p.why = "undefined name"; break;
      case 3: { uint32_t a = addr_for(c, m, 0x4321); s += fmt(".org $%06x\n .db 1\n.org $%06x\n .db 1\n", a, a); p.why = "overlap"; break; }
      case 4: { uint32_t a = addr_for(c, m, 0x5432); s += fmt(".org $%06x\n x1: .db 1\n x1: .db 2\n", a); p.why = "duplicate"; break; }
      default: { uint32_t a = addr_for(c, m, 0x6543); s += fmt(".org $%06x\n .entry m8\n lda #5\n ldx #5\n rts\n", a); p.why = "unknown width"; }
    }
    c.label("refused: " + p.why);
  }
  return p;
}

static void assemble(Case& c) {
  ref::Map m = ref::Map(c.weighted({3, 3}));
  uint32_t size = 0x1000 * c.range(0x10, 0x14);
  bool has_smc = c.coin(1, 3), same = c.coin(1, 4), identity = same ? c.coin(5, 6) : c.coin(1, 8);
  uint64_t key = c.draw(1000);
  Bytes d = image(m, size, key), smc = has_smc ? smc_header(key) : Bytes();
  std::string rom = c.scratch + "/in.sfc", out = c.scratch + "/out.sfc";
  write_file(rom, smc, d);
  Prog p = Make(c, m, size, d, same);
  bool changes = false;
  for (auto& e : p.bytes) changes = changes || d[e.first] != e.second;
  std::vector<std::string> args = {rom, identity ? "-" : out};
  for (size_t i = 0; i < p.text.size(); ++i) {
    std::string path = c.scratch + fmt("/f%d.asm", (int)i);
    Spit(path, p.text[i]);
    args.push_back(path);
    c.note(fmt("-- f%d.asm\n", (int)i) + p.text[i]);
  }
  enum { kNone, kMissingFile, kMissingRom, kBadOut, kAsmOut } fault = (decltype(kNone))c.weighted({12, 1, 1, 1, 1});
  if (fault == kMissingFile) args[2 + c.draw(p.text.size())] = c.scratch + "/absent.asm";
  if (fault == kMissingRom) args[0] = c.scratch + "/absent.sfc";
  if (fault == kBadOut && !identity) args[1] = c.scratch + "/absent/out.sfc";
  if (fault == kAsmOut && !identity) args[1] = args[2];
  unlink(out.c_str());
  bool over_self = fault == kNone && !identity && c.coin(1, 6), stale = !over_self && c.coin(1, 3);
  if (over_self) args[1] = rom;
  if (stale) write_file(out, {}, Bytes(100, 0xcc));
  c.note(fmt("fault=%d identity=%d smc=%d self=%d stale=%d\n", fault, identity, has_smc, over_self, stale));
  bool good = !p.bad && fault == kNone;
  if (identity && fault >= kBadOut) good = !p.bad;
  if (identity && changes) good = false;
  // without an address there is nothing to write; still a success
  Result r = Run(c, "quick_assemble", args);
  CheckEnds(c, r, "quick_assemble");
  c.label(good ? (identity ? "identity ok" : "written") : "refused");
  c.check_f(r.code() == (good ? 0 : 1), [&] { return fmt("exit status %d: ", r.code()) + r.out; });
  c.check_f(good || r.out.find("Error") != r.out.npos, [&] { return "no error message: " + r.out; });
  if (!good && fault == kMissingFile) c.check_f(r.out.find("absent.asm") != r.out.npos, [&] { return "the message does not name the missing file: " + r.out; });
  if (!good && fault == kMissingRom) c.check_f(r.out.find("absent.sfc") != r.out.npos, [&] { return "the message does not name the missing ROM: " + r.out; });
  // the input is as it was, unless it was to be written over
  Bytes got, want = smc;
  want.insert(want.end(), d.begin(), d.end());
  if (good && !identity)
    for (auto& e : p.bytes) want[smc.size() + e.first] = e.second;
  if (!over_self) {
    Bytes orig = smc;
    orig.insert(orig.end(), d.begin(), d.end());
    read_file(rom, &got);
    c.check(got == orig, "the input ROM was changed");
    for (size_t i = 0; i < p.text.size(); ++i) c.check(Slurp(c.scratch + fmt("/f%d.asm", (int)i)) == p.text[i], "a source file was changed");
  }
  bool there = read_file(over_self ? rom : out, &got);
  if (good && !identity) {
    c.check(there, "no output file");
    c.check_f(got.size() == want.size(), [&] { return fmt("output is %zu bytes, want %zu", got.size(), want.size()); });
    for (size_t i = 0; i < got.size(); ++i)
      c.check_f(got[i] == want[i], [&] { return fmt("output has %02x at file offset 0x%zx, want %02x", got[i], i, want[i]); });
  } else if (over_self) {
    c.check(got == want, "a refused run changed the ROM");
  } else {
    c.check(there == stale, "a refused run made or removed the output");
    if (stale) c.check(got == Bytes(100, 0xcc), "a refused run changed the output");
  }
  c.nontrivial(p.bytes.size() >= 4);
}

// Any text at all: the tool ends in an orderly way.
static void misuse(Case& c) {
  Bytes d = image(ref::LoRom, 0x10000, 1);
  std::string rom = c.scratch + "/m.sfc";
  write_file(rom, {}, c.coin(1, 8) ? Bytes(c.draw(0x900)) : d);
  std::vector<std::string> args;
  std::string asm_path = c.scratch + "/m.asm";
  std::string text;
  for (int i = c.draw(60); i > 0; --i) text += (char)(c.coin(1, 10) ? c.draw(256) : c.pick({'\n', ' ', '.', '#', '$', 'a', '1', ':', 'o', 'r', 'g', '@', '(', ')', ',', '"'}));
  Spit(asm_path, text);
  const std::vector<std::string> words = {rom, asm_path, "-", "", c.scratch + "/o.sfc", c.scratch, "x.asm", c.scratch + "/nothing"};
  int n = c.range(0, 5);
  for (int i = 0; i < n; ++i) {
    int pick = c.coin(2, 3) ? (i == 0 ? 0 : i == 1 ? 2 + 2 * c.draw(2) : 1) : (int)c.draw(words.size());
    args.push_back(words[pick]);
  }
  // nothing outside the scratch directory is to be written
  if (n > 1 && args[1].rfind(c.scratch, 0) != 0 && args[1] != "-") args[1] = "-";
  c.note("args:");
  for (auto& a : args) c.note(" '" + a + "'");
  c.note("\n" + text);
  Result r = Run(c, "quick_assemble", args);
  c.nontrivial(n >= 3);
  CheckEnds(c, r, "quick_assemble");
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C33";
  cfg.rule = "quick_assemble run on generated ROM files and one to three source files with faults of many kinds, the output file compared byte by byte; non-trivial: at least four bytes assembled, or a misuse with three or more arguments";
  cfg.tests = {{"assemble", assemble, 0, 6}, {"misuse", misuse, 0, 1}};
  cfg.quick_cases = 5000;
  cfg.thorough_cases = 300000;
  return pbt::main_(cfg, argc, argv);
}
