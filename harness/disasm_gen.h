// Machine code images for the disassembler, and what a disassembly of them must
// contain, worked out without the repository's analysis.
#ifndef VERIF_DISASM_GEN_H_
#define VERIF_DISASM_GEN_H_
#include "pbt.h"
#include "ref65816.h"
#include "ref_parse.h"

namespace dis {
using pbt::Case;
using pbt::fmt;
using ref::Mode3;

inline uint32_t Wrap(uint32_t a, int64_t d) { return (a & 0xff0000) | ((a + d) & 0xffff); }

struct Image {
  std::map<uint32_t, uint8_t> bytes;
  std::vector<uint32_t> routines;       // where routines start
  std::vector<uint32_t> code;           // where instructions start
  int at(uint32_t a) const {
    auto it = bytes.find(a);
    return it == bytes.end() ? -1 : it->second;
  }
};

struct Options {
  bool per = true;          // PER instructions
  bool wild = true;         // random opcodes, cut-off code, targets between instructions
  bool tame = false;        // code that can be followed wherever it goes, however much there is
  int routines = 4, body = 12;
  std::vector<uint32_t> bases;  // if not empty, each routine goes to one of these (64 bytes apart)
};

struct Ins { std::string mn, mode; uint32_t operand = 0; int width = 0; int target = -1; bool far = false; uint32_t addr = 0; int m = 0, x = 0; };

class Gen {
 public:
  Gen(Case& c, Options o) : c(c), o(o) {}
  Case& c;
  Options o;
  Image im;
  std::vector<std::vector<Ins>> rs;

  void Add(std::vector<Ins>* r, const std::string& mn, const std::string& mode, uint32_t operand = 0) {
    Ins i;
    i.mn = mn, i.mode = mode, i.operand = operand, i.m = m, i.x = x;
    i.width = ref::OperandBytes(mode, m == 1, x == 1);
    r->push_back(i);
  }
  int e = 0, m = 0, x = 0;  // nominal mode along the text
  void Xce(std::vector<Ins>* r, bool emu) {
    Add(r, emu ? "sec" : "clc", "i");
    Add(r, "xce", "i");
    e = emu;
    if (emu) m = x = 1;
  }
  void RepSep(std::vector<Ins>* r) {
    bool sep = c.coin();
    uint32_t v = c.pick({0x30, 0x20, 0x10, 0x30, 0x31, 0x01, 0x00, 0xc3});
    Add(r, sep ? "sep" : "rep", "#", v);
    if (e == 0 && (v & 0x20)) m = sep;
    if (e == 0 && (v & 0x10)) x = sep;
  }
  void Branch(std::vector<Ins>* r, const std::string& mn) {
    Add(r, mn, mn == "brl" || mn == "per" ? "rl" : "r");
    r->back().target = -2;
  }
  void Far(std::vector<Ins>* r, const std::string& mn) {
    Add(r, mn, mn == "jsl" || (mn == "jmp" && c.coin(1, 3)) ? "l" : "a");
    r->back().far = true;
  }
  void TameStep(std::vector<Ins>* r) {
    switch (c.weighted({6, 3, 6, 3, 4, 1})) {
      case 0: Add(r, c.pick({"lda", "adc", "sbc", "cmp", "and", "ora", "eor", "bit"}), "#m", c.draw(0x10000)); break;
      case 1: Add(r, c.pick({"ldx", "ldy", "cpx", "cpy"}), "#x", c.draw(0x10000)); break;
      case 2: Branch(r, c.pick({"bcc", "bcs", "beq", "bne", "bvs", "bpl", "bmi"})); break;
      case 3: Add(r, "jsr", "a"); r->back().far = true; break;
      case 4: Add(r, c.pick({"lda", "sta", "adc", "ldx", "inc", "stz"}), c.coin() ? "d" : "a", c.draw(0x10000)); break;
      default: { bool sub = c.coin(); Add(r, sub ? "sec" : "clc", "i"); Add(r, sub ? "sbc" : "adc", "#m", c.draw(0x10000)); }
    }
  }
  void Step(std::vector<Ins>* r) {
    if (o.tame) return TameStep(r);
    switch (c.weighted({8, 6, 6, 3, 4, 6, 3, 4, 5, 2, 4, 1, o.wild ? 1 : 0})) {
      case 0: Add(r, c.pick({"lda", "adc", "sbc", "cmp", "and", "ora", "eor", "bit"}), "#m", c.draw(0x10000)); break;
      case 1: Add(r, c.pick({"ldx", "ldy", "cpx", "cpy"}), "#x", c.draw(0x10000)); break;
      case 2: RepSep(r); break;
      case 3: Add(r, c.coin() ? "clc" : "sec", "i"); if (c.coin()) Add(r, c.coin() ? "adc" : "sbc", c.coin(1, 3) ? "d" : c.coin() ? "a" : "#m", c.draw(0x10000)); break;
      case 4: Xce(r, c.coin(1, 3)); if (c.coin(3, 4)) RepSep(r); break;
      case 5: Branch(r, c.pick({"bcc", "bcs", "beq", "bne", "bvs", "bpl", "bmi"})); break;
      case 6: Add(r, c.pick({"php", "pha", "phx", "phb", "phk", "phd"}), "i"); break;
      case 7: Add(r, c.pick({c.coin(1, 4) ? "plp" : "ply", "pla", "plx", "plb", "pld"}), "i"); break;
      case 8: Far(r, c.pick({"jsr", "jsr", "jsl"})); break;
      case 9: {
        int m0 = m, x0 = x;
        Add(r, "php", "i"); if (c.coin(1, 6)) Add(r, c.coin(3, 4) ? "sta" : "lda", "s", c.draw(4)); RepSep(r); if (c.coin()) Add(r, "lda", "#m", c.draw(0x10000)); Add(r, "plp", "i");
        m = m0, x = x0;
        break;
      }
      case 10: Operand(r); break;
      case 11: if (o.per) Branch(r, "per"); else Add(r, "pea", "#w", c.draw(0x10000)); break;
      default: {
        const ref::Op& op = ref::Matrix()[c.draw(256)];
        if (!o.per && op.mn == "per") { Add(r, "nop", "i"); break; }
        if (op.mode == "r" || op.mode == "rl") Branch(r, op.mn);
        else Add(r, op.mn, op.mode, c.draw(0x1000000));
      }
    }
  }
  void Operand(std::vector<Ins>* r) {
    static const std::vector<ref::Op> ops = [] {
      std::vector<ref::Op> v;
      for (auto& q : ref::Matrix())
        if (q.mode[0] != 'r' && q.mode[0] != '#' && q.mn[0] != 'j' && q.mn != "rts" && q.mn != "rti" && q.mn != "rtl" && q.mn != "stp" && q.mn != "txs" && q.mn != "tcs") v.push_back(q);
      return v;
    }();
    const ref::Op& op = c.pick(ops);
    if (op.mn == "per") return;
    Add(r, op.mn, op.mode, c.draw(0x1000000));
  }
  void Diamond(std::vector<Ins>* r) {
    int m0 = m, x0 = x, e0 = e;
    size_t head = r->size();
    Branch(r, c.pick({"bcc", "bcs", "beq", "bne"}));
    for (int i = c.draw(3); i > 0; --i) Step(r);
    Branch(r, "bra");
    size_t over = r->size() - 1;
    (*r)[head].target = r->size();
    m = m0, x = x0, e = e0;
    for (int i = c.draw(3); i > 0; --i) Step(r);
    (*r)[over].target = r->size();
    if (c.coin()) RepSep(r);
    Step(r);
    if (r->size() <= (size_t)(*r)[over].target) Add(r, "nop", "i");
  }
  void Routine(std::vector<Ins>* r) {
    e = 0, m = c.draw(2), x = c.draw(2);
    if (o.tame) {
      Xce(r, false);
      Add(r, c.coin() ? "rep" : "sep", "#", 0x30), m = x = r->back().mn == "sep";
      for (auto more = c.many(o.body, 4 * o.body); more.more();) TameStep(r);
      Add(r, "rts", "i");
      return;
    }
    if (c.coin(2, 3)) Xce(r, c.coin(1, 6));
    if (c.coin(5, 6)) { Add(r, c.coin() ? "rep" : "sep", "#", 0x30); if (!e) m = x = r->back().mn == "sep"; }
    for (auto more = c.many(o.body, 4 * o.body); more.more();) {
      if (c.coin(1, 8)) Diamond(r);
      else Step(r);
    }
    switch (c.weighted({6, 3, 2, o.wild ? 1 : 0})) {
      case 0: Add(r, c.pick({"rts", "rtl", "rti", "stp"}), "i"); break;
      case 1: Far(r, "jmp"); break;
      case 2: Branch(r, c.coin() ? "bra" : "brl"); break;
      default: break;
    }
    if (r->empty()) Add(r, "nop", "i");
  }
  Image Make() {
    int n = c.range(o.tame ? (o.routines + 1) / 2 : 1, o.routines);
    rs.resize(n);
    for (auto& r : rs) Routine(&r);
    // Addresses.
    static const int banks[] = {0x00, 0x01, 0x80, 0xc0, 0xff, 0x7e};
    uint32_t bank = c.pick(banks), other = c.pick(banks);
    // Or every routine runs over the end of a bank, with a pair that Cleanup
    // would fold if it were not for that.
    bool over = o.wild && o.bases.empty() && c.coin(1, 12);
    std::vector<size_t> pair;
    if (over) {
      bool sub = c.coin();
      for (auto& r : rs) {
        size_t at = c.draw(r.size());
        m = r[at].m, x = r[at].x;
        for (auto& i : r) if (i.target > (int)at) i.target += 2;
        std::vector<Ins> two;
        Add(&two, sub ? "sec" : "clc", "i");
        Add(&two, sub ? "sbc" : "adc", c.coin(3, 4) ? "d" : "#m", c.draw(256));
        r.insert(r.begin() + at, two.begin(), two.end());
        pair.push_back(at);
      }
    }
    uint32_t pc = (bank << 16) | (!o.tame && c.coin(1, 4) ? 0xffc0 + c.draw(64) : 0x8000);
    for (int k = 0; k < n; ++k) {
      if (!o.bases.empty()) pc = o.bases[k % o.bases.size()];
      else if (k && !o.tame) {
        switch (c.weighted({4, 2, 1})) {
          case 0: break;
          case 1: pc = Wrap(pc, c.range(1, 6)); break;
          default: pc = ((c.coin() ? other : bank) << 16) | (c.coin(1, 6) ? 0xfff0 + c.draw(16) : (uint32_t)c.range(1, 15) << 12);
        }
      }
      if (over) {
        pc = (uint32_t)(c.coin(3, 4) ? k : c.draw(3)) << 16 | 0xffff;
        for (size_t i = 0; i < pair[k]; ++i) pc = Wrap(pc, -1 - rs[k][i].width);
      }
      im.routines.push_back(pc);
      for (auto& i : rs[k]) {
        i.addr = pc;
        im.code.push_back(pc);
        pc = Wrap(pc, 1 + i.width);
      }
      if (!o.bases.empty()) o.bases[k % o.bases.size()] = pc;
    }
    // Operands, then bytes.
    for (auto& r : rs) {
      for (size_t k = 0; k < r.size(); ++k) {
        Ins& i = r[k];
        uint32_t next = Wrap(i.addr, 1 + i.width);
        if (i.mode == "r" || i.mode == "rl") {
          int t = i.target;
          if (t < 0) t = std::min<int64_t>(r.size() - 1, std::max<int64_t>(0, (int64_t)k + c.range(-5, 7)));
          if (i.target < 0 && c.coin(4, 5)) {  // to where the widths are planned to be the same
            std::vector<int> same;
            for (int q = std::max<int>(0, (int)k - 8); q < (int)std::min(r.size(), k + 9); ++q)
              if (r[q].m == i.m && r[q].x == i.x && q != (int)k) same.push_back(q);
            if (!same.empty()) t = same[c.draw(same.size())];
          }
          if (t >= (int)r.size()) t = r.size() - 1;
          uint32_t to = !o.tame && c.coin(1, 20) && !rs.empty() ? im.code[c.draw(im.code.size())] : r[t].addr;
          if (o.wild && c.coin(1, 40)) to = Wrap(to, 1);
          int d = (int16_t)(to - next);
          if ((to & 0xff0000) != (next & 0xff0000) || (i.mode == "r" && (d < -128 || d > 127))) d = i.mode == "r" ? c.range(0, 3) : 0;
          if ((!o.wild || o.tame) && d != (int16_t)(to - next)) d = -1 - i.width;
          i.operand = d & 0xffff;
        } else if (i.far) {
          uint32_t to = !o.tame && c.weighted({8, 1, 1}) ? (c.coin() ? im.code[c.draw(im.code.size())] : (uint32_t)c.draw(0x1000000)) : im.routines[c.draw(im.routines.size())];
          i.operand = to;
        }
        uint32_t a = i.addr;
        auto put = [&](int b) { im.bytes.emplace(a, b); a = Wrap(a, 1); };
        put(ref::Opcode(i.mn, i.mode));
        for (int b = 0; b < i.width; ++b) put(i.operand >> (8 * b) & 0xff);
      }
    }
    // Something to read past the ends, or nothing.
    if (c.coin(2, 3)) {
      std::vector<uint32_t> ends;
      for (auto& e : im.bytes) if (im.at(Wrap(e.first, 1)) < 0) ends.push_back(Wrap(e.first, 1));
      for (uint32_t e : ends)
        for (int i = c.draw(5); i > 0; --i, e = Wrap(e, 1)) im.bytes.emplace(e, c.pick({0xea, 0x60, 0xa9, 0x80, 0x22, 0x18}));
    }
    if (o.wild && c.coin(1, 6) && !im.bytes.empty()) {
      auto it = std::next(im.bytes.begin(), c.draw(im.bytes.size()));
      if (c.coin()) it->second = c.draw(256);
      else im.bytes.erase(it);
    }
    return im;
  }
};

inline std::string Show(const Image& im) {
  std::string s;
  uint32_t next = 0xffffffff;
  for (auto& e : im.bytes) {
    if (e.first != next) s += fmt(" %06x:", e.first);
    s += fmt(" %02x", e.second);
    next = e.first + 1;
  }
  return s;
}

// ------------------------------------------------------- a coarse analysis
// Flags only: what the stack holds is never known.
struct Flags {
  int e = -1, m = -1, x = -1, c = -1;
  static int J(int a, int b) { return a == b ? a : -1; }
  Flags operator|(const Flags& o) const { return {J(e, o.e), J(m, o.m), J(x, o.x), J(c, o.c)}; }
  bool operator==(const Flags& o) const { return e == o.e && m == o.m && x == o.x && c == o.c; }
};
struct Conv { bool noreturn = false, yields = false; Mode3 mode{-1, -1, -1}; };
using Convs = std::map<uint32_t, Conv>;
using CoarseMap = std::map<uint32_t, Flags>;

inline bool IsExit(const std::string& mn) { return mn == "jmp" || mn == "rts" || mn == "rtl" || mn == "rti" || mn == "stp" || mn == "bra" || mn == "brl"; }
inline bool FarTarget(const ref::Op& o, uint32_t pc, uint32_t operand, uint32_t* to) {
  if (o.mode == "l" && (o.mn == "jmp" || o.mn == "jsl")) *to = operand;
  else if (o.mode == "a" && (o.mn == "jmp" || o.mn == "jsr")) *to = (pc & 0xff0000) | operand;
  else return false;
  return true;
}

// Runs to a fixed point from `start`; false if some instruction reached cannot
// be decoded for sure.
inline bool Coarse(const Image& im, const Convs& convs, uint32_t start, Flags f, CoarseMap* out) {
  std::vector<std::pair<uint32_t, Flags>> todo = {{start, f}};
  CoarseMap& at = *out;
  std::map<uint32_t, bool> fresh;
  while (!todo.empty()) {
    auto [pc, in] = todo.back();
    todo.pop_back();
    auto it = at.find(pc);
    if (it != at.end()) {
      Flags j = it->second | in;
      if (j == it->second) continue;
      it->second = j;
    } else at[pc] = in;
    Flags s = at[pc];
    int op = im.at(pc);
    if (op < 0) return false;
    const ref::Op& o = ref::Matrix()[op];
    if (o.mode == "#m" && s.m < 0) return false;
    if (o.mode == "#x" && s.x < 0) return false;
    int width = ref::OperandBytes(o.mode, s.m == 1, s.x == 1);
    uint32_t operand = 0;
    for (int b = 0; b < width; ++b) {
      int v = im.at(Wrap(pc, 1 + b));
      if (v < 0) return false;
      operand |= (uint32_t)v << (8 * b);
    }
    uint32_t next = Wrap(pc, 1 + width);
    const std::string& mn = o.mn;
    Flags br = s;
    bool exit = IsExit(mn);
    if (mn == "clc") s.c = 0;
    else if (mn == "sec") s.c = 1;
    else if (mn == "rep" || mn == "sep") {
      int v = mn == "sep";
      if (operand & 1) s.c = v;
      if (operand & 0x20) s.m = v ? 1 : s.e == 0 ? 0 : s.e == 1 ? 1 : -1;
      if (operand & 0x10) s.x = v ? 1 : s.e == 0 ? 0 : s.e == 1 ? 1 : -1;
    } else if (mn == "xce") {
      std::swap(s.c, s.e);
      if (s.e == 1) s.m = s.x = 1;
      if (s.e < 0) { if (s.m != 1) s.m = -1; if (s.x != 1) s.x = -1; }
      if (s.e < 0 || s.c < 0) s.m = s.x = -1;   // be as weak as can be
    } else if (mn == "plp") s.m = s.x = s.e == 1 ? 1 : -1, s.c = -1;
    else if (mn == "adc" || mn == "sbc" || mn == "cmp" || mn == "cpx" || mn == "cpy" || mn == "asl" || mn == "lsr" || mn == "rol" || mn == "ror") s.c = -1;
    else if (mn == "jsr" || mn == "jsl" || mn == "brk" || mn == "cop") {
      s.c = -1;
      uint32_t to;
      if (FarTarget(o, pc, operand, &to) && convs.count(to)) {
        const Conv& k = convs.at(to);
        if (k.noreturn) exit = true;
        if (k.yields) s = {k.mode.e, k.mode.m, k.mode.x, -1};
      }
    }
    if (o.mode == "r" || mn == "brl") {
      if (mn == "bcc") br.c = 0, s.c = 1;
      if (mn == "bcs") br.c = 1, s.c = 0;
      int d = o.mode == "r" ? (int8_t)operand : (int16_t)operand;
      todo.push_back({Wrap(next, d), br});
    }
    if (!exit) todo.push_back({next, s});
  }
  return true;
}

}  // namespace dis
#endif
