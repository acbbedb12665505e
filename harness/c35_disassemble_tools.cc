// C35: quick_disassemble and disassemble_more, run as programs.
#include "disasm_gen.h"
#include "gen_addr.h"
#include "tool_run.h"

using namespace dis;
using namespace romfile;
using namespace tool;

struct Cart {
  ref::Map m;
  uint32_t size;
  Bytes d;
  std::string path;
  Image im;    // the generated code
  int at(uint32_t a) const {
    auto o = ref::RomOffset(a, m);
    return o && *o < size ? d[*o] : -1;
  }
};

static Cart MakeCart(Case& c, bool wild) {
  Cart k;
  k.m = c.coin() ? ref::LoRom : ref::HiRom;
  k.size = 0x1000 * c.range(0x10, 0x12);
  k.d = image(k.m, k.size, c.draw(100));
  if (c.coin(5, 6))  // mostly code that just returns
    for (uint32_t i = 0; i < k.size; ++i)
      if (!(i >= 0x7fb0 && i < 0x7fe0) && !(i >= 0xffb0 && i < 0xffe0)) k.d[i] = 0x60;
  Options o;
  o.per = false;
  o.wild = wild;
  o.routines = 5;
  if (k.m == ref::LoRom) o.bases = {0x008000, 0x00c000, 0x818000, 0x009000, 0x00ff00};
  else o.bases = {0xc08000, 0x008100, 0xc00000, 0x40c000, 0x00e000};
  if (c.coin(1, 4)) o.bases[0] = k.m == ref::LoRom ? 0x01ff80 : 0xc0ff80;
  if (c.coin(1, 30)) {
    o.tame = true, o.wild = false, o.routines = c.range(4, 20), o.body = c.range(10, 60), c.label("tame");
    o.bases = {k.m == ref::LoRom ? 0x008000u : 0xc08000u};
  }
  Gen g(c, o);
  k.im = g.Make();
  for (auto& e : k.im.bytes) {
    auto off = ref::RomOffset(e.first, k.m);
    if (off && *off < k.size && !(*off >= 0x7fb0 && *off < 0x7fe0) && !(*off >= 0xffb0 && *off < 0xffe0)) k.d[*off] = e.second;
  }
  k.path = c.scratch + "/cart.sfc";
  write_file(k.path, c.coin(1, 4) ? smc_header(3) : Bytes(), k.d);
  c.note(fmt("%s %x:", k.m == ref::LoRom ? "LoROM" : "HiROM", k.size) + dis::Show(k.im) + "\n");
  return k;
}

// What a listing says.
struct Listed { std::string label, text, entry, next; int size = 0; };

// Does the mode `wide` allow for the mode `narrow`?
static bool Covers(const std::string& wide, const std::string& narrow) {
  if (wide == "unk") return true;
  if (narrow == "unk" || wide == "emu" || narrow == "emu") return wide == narrow;
  auto part = [](const std::string& s, char f) {
    size_t at = s.find(f);
    return s == "native" || at == s.npos ? 0 : s[at + 1] == '8' ? 8 : 16;
  };
  for (char f : {'m', 'x'})
    if (part(wide, f) && part(wide, f) != part(narrow, f)) return false;
  return true;
}
static std::string ModeOnly(const std::string& s) { return s.substr(0, s.find(',')); }
struct Listing {
  std::map<uint32_t, Listed> at;
  std::set<uint32_t> errors;
  int count = -1;
  bool per = false, unk = false, overlap = false, wraps = false, mirrored = false;
  bool Assembles() const { return !per && !unk && !overlap && !wraps && !mirrored; }
};

static int LengthAt(const Cart& k, uint32_t pc, const std::string& text) {
  // add and sub are two instructions
  int extra = 0;
  std::string mn = text.substr(0, 3);
  if (mn == "add" || mn == "sub") extra = 1;
  int op = k.at(Wrap(pc, extra));
  if (op < 0) return -1;
  const ref::Op& o = ref::Matrix()[op];
  if (ref::Real(mn) != o.mn) return -1;
  bool word = text.size() > 4 && text[3] == '.' && text[4] == 'w';
  return extra + 1 + ref::OperandBytes(o.mode, !word, !word);
}

static Listing Read(Case& c, const Cart& k, const std::string& out) {
  Listing l;
  std::istringstream in(out);
  std::string line, label, entry;
  std::set<uint32_t> offs;
  uint32_t org = 0xffffffff;
  while (std::getline(in, line)) {
    unsigned v, w;
    if (sscanf(line.c_str(), "; ERROR branching to $%x", &v) == 1) { l.errors.insert(v); continue; }
    if (sscanf(line.c_str(), "; Disassembled %d instructions", &l.count) == 1) continue;
    if (line == "; Disassembled no instructions.") { l.count = 0; continue; }
    if (line.rfind(";", 0) == 0) continue;
    if (sscanf(line.c_str(), " .org $%x", &v) == 1) { org = v; continue; }
    size_t semi = line.find(" ; $");
    std::string text = line.substr(0, semi);
    size_t colon = text.find(':');
    if (colon != text.npos) { label = text.substr(0, colon); text = text.substr(colon + 1); }
    text.erase(0, text.find_first_not_of(' '));
    while (!text.empty() && text.back() == ' ') text.pop_back();
    if (text.rfind(".entry ", 0) == 0) { entry = text.substr(7); continue; }
    c.check_f(semi != line.npos && sscanf(line.c_str() + semi, " ; $%x", &w) == 1, [&] { return "cannot read the line: " + line; });
    c.check_f(w == org, [&] { return fmt("the statement is at $%06x by the .org lines: ", org) + line; });
    Listed e;
    e.label = label, e.text = text, e.entry = entry;
    size_t sp = line.find(' ', semi + 3);
    c.check_f(sp != line.npos, [&] { return "no mode is shown after: " + line; });
    e.next = ModeOnly(line.substr(sp + 1));
    label.clear(), entry.clear();
    e.size = LengthAt(k, w, text);
    c.check_f(e.size > 0, [&] { return "the ROM holds something else: " + line; });
    c.check_f(l.at.emplace(w, e).second, [&] { return "listed twice: " + line; });
    if (text.rfind("per", 0) == 0) l.per = true;
    if (e.entry == "unk") l.unk = true;   // may hide known widths, see KNOWN_FINDINGS.txt
    bool exit = IsExit(text.substr(0, 3)) || text.find("noreturn") != text.npos;
    if ((w & 0xffff) + e.size > 0x10000 || ((w & 0xffff) + e.size == 0x10000 && !exit)) l.wraps = true;
    for (int i = 0; i < e.size; ++i) {
      auto o = ref::RomOffset(Wrap(w, i), k.m);
      if (!o || !offs.insert(*o).second) l.mirrored = true;
    }
    org = Wrap(w, e.size);
  }
  uint32_t prev = 0;
  int prev_size = 0;
  for (auto& e : l.at) {
    if (prev_size && prev + prev_size > e.first) l.overlap = true;
    prev = e.first, prev_size = e.second.size;
  }
  c.check_f(l.count == (int)l.at.size(), [&] { return fmt("%zu statements listed, %d announced", l.at.size(), l.count); });
  return l;
}

static bool TargetOf(const Cart& k, uint32_t pc, const Listed& e, uint32_t* to) {
  if (e.text[0] != 'j') return false;
  uint32_t operand = 0;
  for (int b = 0; b < e.size - 1; ++b) operand |= k.at(Wrap(pc, 1 + b)) << (8 * b);
  return FarTarget(ref::Matrix()[k.at(pc)], pc, operand, to);
}
// Far targets of what is listed.
static std::set<uint32_t> FarTargets(const Cart& k, const Listing& l) {
  std::set<uint32_t> r;
  uint32_t to;
  for (auto& e : l.at) if (TargetOf(k, e.first, e.second, &to)) r.insert(to);
  return r;
}

// The mode listed at an entry point allows for every mode it is asked for in,
// or it is reported.
static void CheckEntry(Case& c, const Listing& l, uint32_t to, const std::string& mode, const std::string& who) {
  auto t = l.at.find(to);
  if (t == l.at.end() || t->second.entry.empty() || l.errors.count(to)) return;
  c.evals(1);
  c.check_f(Covers(ModeOnly(t->second.entry), mode), [&] { return fmt("$%06x is listed as code in mode ", to) + t->second.entry + ", " + who + " is in mode " + mode; });
}
static void CheckModes(Case& c, const Cart& k, const Listing& l) {
  std::map<uint32_t, std::set<std::string>> asked;
  for (auto& e : l.at) {
    uint32_t to;
    if (!TargetOf(k, e.first, e.second, &to)) continue;
    std::set<std::string> modes;
    if (!e.second.entry.empty()) modes.insert(ModeOnly(e.second.entry));
    auto p = l.at.lower_bound(e.first);
    if (p != l.at.begin()) {
      --p;
      if (p->first + p->second.size == e.first && !IsExit(p->second.text.substr(0, 3)) && p->second.text.find("noreturn") == std::string::npos) modes.insert(p->second.next);
    }
    for (auto& m : modes) {
      CheckEntry(c, l, to, m, fmt("the call at $%06x", e.first));
      asked[to].insert(m);
    }
  }
  for (auto& a : asked) if (a.second.size() > 1 && l.at.count(a.first)) { c.label("called in several modes"); break; }
}

static std::string SomeMode(Case& c) { return c.pick({"m8x8", "m16x16", "m8x16", "m16x8", "emu", "native", "unk", "m8x8", "m16x16"}); }

static bool Identity(Case& c, const Cart& k, const std::vector<std::string>& sources, std::string* out) {
  std::vector<std::string> args = {k.path, "-"};
  args.insert(args.end(), sources.begin(), sources.end());
  auto r = Run(c, "quick_assemble", args);
  CheckEnds(c, r, "quick_assemble");
  *out = r.out;
  return r.code() == 0;
}

static void JudgeQuick(Case& c, const Cart& k, const std::vector<std::string>& args, const std::set<uint32_t>& starts, const std::set<uint32_t>& all) {
  for (auto& a : args) c.note(" " + a);
  auto r = Run(c, "quick_disassemble", args);
  CheckEnds(c, r, "quick_disassemble");
  c.check_f(r.code() == 0, [&] { return "quick_disassemble fails: " + r.out.substr(0, 300); });
  c.note("\n" + r.out);
  Listing l = Read(c, k, r.out);
  std::set<uint32_t> want = starts;
  if (l.errors.empty()) want.insert(all.begin(), all.end());
  for (uint32_t t : FarTargets(k, l)) want.insert(t);
  for (uint32_t t : want) {
    c.check_f(l.at.count(t) || l.errors.count(t), [&] { return fmt("$%06x is neither listed nor reported", t); });
    // (an address that failed once may be reached, or succeed, later)
    if (l.at.count(t) && !l.errors.count(t)) c.check_f(!l.at[t].entry.empty() && l.at[t].label.rfind("entry", 0) == 0, [&] { return fmt("$%06x is not listed as an entry point", t); });
  }
  CheckModes(c, k, l);
  for (size_t i = 1; i + 1 < args.size(); i += 2)
    CheckEntry(c, l, args[i][0] == '@' ? k.at(0x8f00) | k.at(0x8f01) << 8 : std::stoul(args[i], nullptr, 16), args[i + 1], "the request");
  c.nontrivial(l.at.size() >= 8);
  c.label(l.at.empty() ? "empty" : l.at.size() < 8 ? "short" : "long");
  if (l.at.empty()) return;
  if (!l.Assembles()) { c.label(l.unk ? "not reassembled: state without a name" : l.overlap ? "not reassembled: overlap" : l.wraps ? "not reassembled: wraps" : l.mirrored ? "not reassembled: mirrored" : "not reassembled: per"); return; }
  std::string src = c.scratch + "/list.asm", msg;
  Spit(src, r.out);
  c.check_f(Identity(c, k, {src}, &msg), [&] { return "the listing does not assemble to the ROM: " + msg; });
  c.label("reassembled");
}

static void quick(Case& c) {
  Cart k = MakeCart(c, c.coin(1, 4));
  std::vector<std::string> args = {k.path};
  std::set<uint32_t> starts;
  for (int i = c.range(1, 3); i > 0; --i) {
    uint32_t a = k.im.routines[c.draw(k.im.routines.size())];
    if (c.coin(1, 8)) {  // through a vector
      uint32_t v = k.m == ref::LoRom ? 0x008f00 : 0x008f00;
      args.push_back(fmt("@%x", v));
      a = k.at(v) | k.at(v + 1) << 8;
    } else args.push_back(fmt(c.coin() ? "%x" : "%06X", a));
    args.push_back(SomeMode(c));
    starts.insert(a);
  }
  JudgeQuick(c, k, args, starts, {});
}

static void more(Case& c) {
  Cart k = MakeCart(c, c.coin(1, 5));
  // The known part: a listing of one routine, cut down to what one request gives.
  uint32_t start = k.im.routines[c.draw(k.im.routines.size())];
  auto r0 = Run(c, "quick_disassemble", {k.path, fmt("%x", start), SomeMode(c)});
  CheckEnds(c, r0, "quick_disassemble");
  Listing l0 = Read(c, k, r0.out);
  if (l0.at.empty() || !l0.Assembles()) { c.label("no known part"); return; }
  // Take the statements up to the second entry point.
  std::string known, line;
  std::istringstream in(r0.out);
  std::set<uint32_t> mine;
  {
    // the routine: from `start`, following fall-through and local labels
    std::map<std::string, uint32_t> where;
    for (auto& e : l0.at) if (!e.second.label.empty()) where[e.second.label] = e.first;
    std::vector<uint32_t> todo = {start};
    while (!todo.empty()) {
      uint32_t a = todo.back();
      todo.pop_back();
      if (!l0.at.count(a) || !mine.insert(a).second) continue;
      const Listed& e = l0.at[a];
      std::string mn = e.text.substr(0, 3);
      if (ref::IsBranch(mn)) {
        std::string t = e.text.substr(e.text.rfind(' ') + 1);
        if (where.count(t)) todo.push_back(where[t]);
      }
      if (!IsExit(mn)) todo.push_back(Wrap(a, e.size));
    }
  }
  if (mine.size() == l0.at.size() && c.coin()) { c.label("nothing beyond the known part"); return; }
  uint32_t pc = 0xffffffff;
  std::map<std::string, uint32_t> names;
  for (auto& e : l0.at) if (!e.second.label.empty()) names[e.second.label] = e.first;
  for (uint32_t a : mine) {
    const Listed& e = l0.at[a];
    if (pc != a) known += fmt(" .org $%06x\n", a);
    if (!e.label.empty()) known += e.label + ":";
    if (!e.entry.empty()) known += " .entry " + e.entry + "\n";
    std::string text = e.text;
    // names of routines that are not part of this file become numbers
    size_t sp = text.rfind(' ');
    if (text[0] == 'j' && sp != text.npos) {
      std::string n = text.substr(sp + 1), bare = n[0] == '@' ? n.substr(1) : n;
      if (names.count(bare) && !mine.count(names[bare])) {
        bool far = text.rfind("jsl", 0) == 0 || k.at(a) == 0x5c;
        text = text.substr(0, sp + 1) + (far ? fmt("$%06x", names[bare]) : fmt("$%04x", names[bare] & 0xffff));
      }
    }
    known += " " + text + "\n";
    pc = Wrap(a, e.size);
  }
  // Perhaps more starting points, with conventions.
  std::map<uint32_t, std::string> conv, remote_modes;
  std::set<uint32_t> targets;
  for (int i = c.draw(3); i > 0; --i) {
    uint32_t a = k.im.routines[c.draw(k.im.routines.size())];
    if (mine.count(a) || conv.count(a)) continue;
    std::string y = c.pick({"", "", " noreturn", " yields m8x8", " yields m16x16"});
    std::string mode = SomeMode(c);
    known += fmt(" .remote $%06x ", a) + mode + y + "\n";
    remote_modes[a] = mode;
    conv[a] = y;
    targets.insert(a);
  }
  std::string src = c.scratch + "/known.asm", msg;
  Spit(src, known);
  c.note("known:\n" + known);
  // The part on its own may lack what the rest said about states.
  bool good = Identity(c, k, {src}, &msg);
  bool damaged = false;
  if (good && c.coin(1, 12)) {
    known += fmt(" .org $%06x\n .db $%02x\n", k.m == ref::LoRom ? 0x00a123 : 0x00a123, 1 ^ k.at(0x00a123));
    Spit(src, known);
    good = false;
    damaged = true;
  }
  auto r = Run(c, "disassemble_more", {k.path, src});
  CheckEnds(c, r, "disassemble_more");
  c.note(r.out);
  c.check_f(r.code() == (good ? 0 : 1), [&] { return fmt("disassemble_more exits with %d when the sources %s the ROM: ", r.code(), good ? "match" : "do not match") + r.out.substr(0, 300); });
  if (!good) { c.label(damaged ? "does not match the ROM" : "known part refused"); return; }
  Listing l = Read(c, k, r.out);
  Listing part;
  for (uint32_t a : mine) part.at[a] = l0.at[a];
  // (a call of a noreturn routine ends the known flow; take targets from the bytes all the same)
  std::set<uint32_t> covered;
  for (uint32_t a : mine) for (int i = 0; i < l0.at[a].size; ++i) covered.insert(Wrap(a, i));
  std::set<uint32_t> want = FarTargets(k, part);
  want.insert(targets.begin(), targets.end());
  for (uint32_t t : FarTargets(k, l)) want.insert(t);
  bool clash = false;
  for (auto& e : l.at) for (int i = 0; i < e.second.size; ++i) clash = clash || covered.count(Wrap(e.first, i));
  int found = 0;
  for (uint32_t t : want) {
    if (covered.count(t)) {
      if (!clash) c.check_f(!l.at.count(t), [&] { return fmt("$%06x is in the sources, and listed again", t); });
      continue;
    }
    ++found;
    c.check_f(l.at.count(t) || l.errors.count(t), [&] { return fmt("$%06x is neither listed nor reported", t); });
  }
  CheckModes(c, k, l);
  for (auto& a : remote_modes) CheckEntry(c, l, a.first, a.second, "its .remote");
  // Calls carry the conventions that the sources give.
  for (auto& e : l.at) {
    if (e.second.text[0] != 'j' || e.second.text.rfind("jmp", 0) == 0) continue;
    const ref::Op& o = ref::Matrix()[k.at(e.first)];
    uint32_t operand = 0, to;
    for (int b = 0; b < e.second.size - 1; ++b) operand |= k.at(Wrap(e.first, 1 + b)) << (8 * b);
    if (!FarTarget(o, e.first, operand, &to)) continue;
    std::string y = conv.count(to) ? conv[to] : "";
    bool has = e.second.text.find("yields") != std::string::npos || e.second.text.find("noreturn") != std::string::npos;
    c.check_f(has == !y.empty() && (y.empty() || e.second.text.find(y) != std::string::npos), [&] { return fmt("call at $%06x reads `", e.first) + e.second.text + "`, want the convention '" + y + "'"; });
    if (has) c.label("call with a convention");
  }
  c.nontrivial(found >= 1 && l.at.size() >= 4);
  c.label(l.at.empty() ? "nothing more" : "more");
  if (l.at.empty() || clash || !l.Assembles()) return;
  std::string more_src = c.scratch + "/more.asm";
  Spit(more_src, r.out);
  c.check_f(Identity(c, k, {more_src}, &msg), [&] { return "the listing does not assemble to the ROM: " + msg; });
  c.label("reassembled");
}

// Many small routines, each reached only from the one before it.
static void chain(Case& c) {
  Cart k;
  k.m = c.coin() ? ref::LoRom : ref::HiRom;
  k.size = 0x10000;
  k.d = image(k.m, k.size, 7);
  for (uint32_t i = 0; i < k.size; ++i)
    if (!(i >= 0x7fb0 && i < 0x7fe0) && !(i >= 0xffb0 && i < 0xffe0)) k.d[i] = 0x60;
  int n = c.coin() ? c.range(2, 12) : c.coin(2, 3) ? c.range(13, 99) : c.range(100, 260);
  // Two banks of slots, 32 bytes each, taken in some order.
  const uint32_t lo = k.m == ref::LoRom ? 0x008000 : 0xc08000, hi = k.m == ref::LoRom ? 0x018000 : 0xc01000;
  bool two = c.coin(1, 3), shuffle = c.coin(2, 3);
  uint32_t mul = shuffle ? 2 * c.draw(200) + 1 : 1, add = shuffle ? c.draw(512) : 0;
  std::vector<uint32_t> at;
  for (int i = 0; i < n; ++i) {
    uint32_t slot = (mul * i + add) % 512;
    uint32_t a = (slot < 256 || !two ? lo : hi) + 32 * (two ? slot % 256 : slot);
    at.push_back(a);
  }
  int back = c.coin(1, 3) ? (int)c.draw(n) : -1;
  auto put = [&](uint32_t a, std::vector<int> b) {
    for (size_t i = 0; i < b.size(); ++i) k.d[*ref::RomOffset(a + i, k.m)] = b[i];
  };
  int plain = c.pick({0, 0, 1, 2});
  for (int i = 0; i < n; ++i) {
    std::vector<int> b;
    if (c.coin(1, 1 + 3 * plain)) {
      int f = c.pick({0x20, 0x10, 0x30});
      b.push_back(c.coin() ? 0xc2 : 0xe2), b.push_back(f);
    }
    if (c.coin(1, 4)) b.push_back(c.pick({0xea, 0x1a, 0xe8, 0x48}));
    auto call = [&](uint32_t t) {
      bool near = t >> 16 == at[i] >> 16;
      int op = near ? c.pick({0x20, 0x22, 0x22, 0x20}) : 0x22;
      b.push_back(op), b.push_back(t & 255), b.push_back(t >> 8 & 255);
      if (op == 0x22) b.push_back(t >> 16);
    };
    if (i == n - 1 && back >= 0) call(at[back]);
    if (i + 1 < n) {
      if (c.coin(1, 5)) {
        bool near = at[i + 1] >> 16 == at[i] >> 16;
        b.push_back(near && c.coin() ? 0x4c : 0x5c), b.push_back(at[i + 1] & 255), b.push_back(at[i + 1] >> 8 & 255);
        if (b[b.size() - 3] == 0x5c) b.push_back(at[i + 1] >> 16);
      } else call(at[i + 1]);
    }
    b.push_back(c.pick({0x60, 0x6b}));
    put(at[i], b);
  }
  k.path = c.scratch + "/cart.sfc";
  write_file(k.path, Bytes(), k.d);
  c.note(fmt("%s chain of %d: $%06x $%06x .. $%06x, back to %d;", k.m == ref::LoRom ? "LoROM" : "HiROM", n, at[0], at[1], at[n - 1], back));
  c.label(n < 13 ? "short chain" : n < 100 ? "chain" : "chain of 100 and more");
  c.evals(n);
  std::set<uint32_t> all(at.begin(), at.end());
  std::string mode = SomeMode(c);
  if (c.coin()) {
    JudgeQuick(c, k, {k.path, fmt("%06x", at[0]), mode}, {at[0]}, all);
    return;
  }
  std::string src = c.scratch + "/known.asm";
  Spit(src, fmt(" .remote $%06x ", at[0]) + mode + "\n");
  auto r = Run(c, "disassemble_more", {k.path, src});
  CheckEnds(c, r, "disassemble_more");
  c.note(r.out);
  c.check_f(r.code() == 0, [&] { return "disassemble_more fails: " + r.out.substr(0, 300); });
  Listing l = Read(c, k, r.out);
  std::set<uint32_t> want = FarTargets(k, l);
  want.insert(at[0]);
  if (l.errors.empty()) want = all;
  for (uint32_t t : want) c.check_f(l.at.count(t) || l.errors.count(t), [&] { return fmt("$%06x is neither listed nor reported", t); });
  CheckModes(c, k, l);
  CheckEntry(c, l, at[0], mode, "its .remote");
  c.nontrivial(l.at.size() >= 8);
}

static void misuse(Case& c) {
  bool which = c.coin();
  std::string rom = c.scratch + "/m.sfc", src = c.scratch + "/m.asm";
  write_file(rom, {}, c.coin(1, 8) ? Bytes(c.draw(0x900)) : image(ref::LoRom, 0x10000, c.draw(50)));
  std::string text = c.pick({"", ".org $8000\n.entry m8\n", " .remote $8000 m8x8\n", " .remote $ffffff unk\n.remote $7e0000 m8\n", "\xff\n", " .remote -1 m8\n", " .remote $808000 m16x16 yields m8x8\n.remote $80fff0 native\n"});
  Spit(src, text);
  const std::vector<std::string> words = {rom, src, "8000", "m8x8", "@8000", "@", "", "zz", "ffffffff", "1000000", "-1", "unk", "emu", "M16X16", "m", "@ffffff", "$8000", "0x8000", "7e0000", "fffe", c.scratch, "nothing.asm"};
  std::vector<std::string> args;
  int n = c.range(0, 6);
  for (int i = 0; i < n; ++i) {
    if (i == 0 && c.coin(5, 6)) args.push_back(rom);
    else if (which && c.coin()) args.push_back(src);
    else if (!which && c.coin(2, 3)) args.push_back(i % 2 ? words[c.pick({2, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 18, 19})] : SomeMode(c));
    else args.push_back(c.pick(words));
  }
  c.note(which ? "disassemble_more" : "quick_disassemble");
  for (auto& a : args) c.note(" '" + a + "'");
  c.note("\n" + text);
  auto r = Run(c, which ? "disassemble_more" : "quick_disassemble", args);
  c.nontrivial(n >= 2);
  CheckEnds(c, r, "the tool");
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C35";
  cfg.rule = "quick_disassemble and disassemble_more run on generated cartridges with up to five routines, or with chains of up to 260 that each lead to the next; listings parsed back against the ROM and assembled again with quick_assemble; non-trivial: eight statements listed (quick), or a new target and four statements (more), or a misuse with two or more arguments";
  cfg.tests = {{"quick", quick, 0, 4}, {"more", more, 0, 4}, {"chain", chain, 0, 2}, {"misuse", misuse, 0, 1}};
  cfg.quick_cases = 3500;
  cfg.thorough_cases = 300000;
  return pbt::main_(cfg, argc, argv);
}
