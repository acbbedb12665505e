// Independent description of the 65816 instruction set, written from the
// published opcode matrix (WDC W65C816S data sheet), not from the repository.
//
// Mode codes (operand syntax as in the matrix):
//   i  implied          A  accumulator     #  immediate byte   #w immediate word
//   #m immediate (M)    #x immediate (X)   d  direct page      a  absolute    l long
//   d,x d,y a,x a,y l,x  (d) (a) (d,x) (d),y (a,x)  [d] [a] [d],y  s  (s),y
//   mv block move       r  8-bit relative  rl 16-bit relative
#ifndef VERIF_REF65816_H_
#define VERIF_REF65816_H_
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace ref {

struct Op { std::string mn, mode; };

inline const std::vector<Op>& Matrix() {
  static const std::vector<Op> ops = [] {
    const char* rows[16] = {
        "brk #|ora (d,x)|cop #|ora s|tsb d|ora d|asl d|ora [d]|php i|ora #m|asl A|phd i|tsb a|ora a|asl a|ora l",
        "bpl r|ora (d),y|ora (d)|ora (s),y|trb d|ora d,x|asl d,x|ora [d],y|clc i|ora a,y|inc A|tcs i|trb a|ora a,x|asl a,x|ora l,x",
        "jsr a|and (d,x)|jsl l|and s|bit d|and d|rol d|and [d]|plp i|and #m|rol A|pld i|bit a|and a|rol a|and l",
        "bmi r|and (d),y|and (d)|and (s),y|bit d,x|and d,x|rol d,x|and [d],y|sec i|and a,y|dec A|tsc i|bit a,x|and a,x|rol a,x|and l,x",
        "rti i|eor (d,x)|wdm #|eor s|mvp mv|eor d|lsr d|eor [d]|pha i|eor #m|lsr A|phk i|jmp a|eor a|lsr a|eor l",
        "bvc r|eor (d),y|eor (d)|eor (s),y|mvn mv|eor d,x|lsr d,x|eor [d],y|cli i|eor a,y|phy i|tcd i|jmp l|eor a,x|lsr a,x|eor l,x",
        "rts i|adc (d,x)|per rl|adc s|stz d|adc d|ror d|adc [d]|pla i|adc #m|ror A|rtl i|jmp (a)|adc a|ror a|adc l",
        "bvs r|adc (d),y|adc (d)|adc (s),y|stz d,x|adc d,x|ror d,x|adc [d],y|sei i|adc a,y|ply i|tdc i|jmp (a,x)|adc a,x|ror a,x|adc l,x",
        "bra r|sta (d,x)|brl rl|sta s|sty d|sta d|stx d|sta [d]|dey i|bit #m|txa i|phb i|sty a|sta a|stx a|sta l",
        "bcc r|sta (d),y|sta (d)|sta (s),y|sty d,x|sta d,x|stx d,y|sta [d],y|tya i|sta a,y|txs i|txy i|stz a|sta a,x|stz a,x|sta l,x",
        "ldy #x|lda (d,x)|ldx #x|lda s|ldy d|lda d|ldx d|lda [d]|tay i|lda #m|tax i|plb i|ldy a|lda a|ldx a|lda l",
        "bcs r|lda (d),y|lda (d)|lda (s),y|ldy d,x|lda d,x|ldx d,y|lda [d],y|clv i|lda a,y|tsx i|tyx i|ldy a,x|lda a,x|ldx a,y|lda l,x",
        "cpy #x|cmp (d,x)|rep #|cmp s|cpy d|cmp d|dec d|cmp [d]|iny i|cmp #m|dex i|wai i|cpy a|cmp a|dec a|cmp l",
        "bne r|cmp (d),y|cmp (d)|cmp (s),y|pei d|cmp d,x|dec d,x|cmp [d],y|cld i|cmp a,y|phx i|stp i|jmp [a]|cmp a,x|dec a,x|cmp l,x",
        "cpx #x|sbc (d,x)|sep #|sbc s|cpx d|sbc d|inc d|sbc [d]|inx i|sbc #m|nop i|xba i|cpx a|sbc a|inc a|sbc l",
        "beq r|sbc (d),y|sbc (d)|sbc (s),y|pea #w|sbc d,x|inc d,x|sbc [d],y|sed i|sbc a,y|plx i|xce i|jsr (a,x)|sbc a,x|inc a,x|sbc l,x"};
    std::vector<Op> v;
    for (auto* r : rows) {
      std::stringstream ss(r);
      std::string cell;
      while (std::getline(ss, cell, '|')) {
        size_t sp = cell.find(' ');
        v.push_back({cell.substr(0, sp), cell.substr(sp + 1)});
      }
    }
    return v;
  }();
  return ops;
}

// (mnemonic, mode) -> opcode, or -1.
inline int Opcode(const std::string& mn, const std::string& mode) {
  static const auto* m = [] {
    auto* r = new std::map<std::pair<std::string, std::string>, int>;
    for (int i = 0; i < 256; ++i) (*r)[{Matrix()[i].mn, Matrix()[i].mode}] = i;
    return r;
  }();
  auto it = m->find({mn, mode});
  return it == m->end() ? -1 : it->second;
}
inline bool Exists(const std::string& mn, const std::string& mode) { return Opcode(mn, mode) >= 0; }
inline bool KnownMnemonic(const std::string& mn) {
  for (auto& o : Matrix()) if (o.mn == mn) return true;
  return false;
}

// Operand bytes of a mode; m8/x8 give the width of flag-dependent immediates.
inline int OperandBytes(const std::string& mode, bool m8, bool x8) {
  if (mode == "i" || mode == "A") return 0;
  if (mode == "#m") return m8 ? 1 : 2;
  if (mode == "#x") return x8 ? 1 : 2;
  if (mode == "#w" || mode == "mv" || mode == "rl") return 2;
  for (char c : mode) {
    if (c == 'l' && mode[0] != 'r') return 3;
    if (c == 'a') return 2;
  }
  return 1;
}

// Mnemonics whose data width follows the M flag, respectively the X flag, so
// that a .b/.w suffix means something.
inline const std::set<std::string>& WidthM() {
  static const std::set<std::string> s = {"adc", "add", "and", "asl", "bit", "cmp", "dec", "eor", "inc", "lda", "lsr", "ora",
                                          "pha", "pla", "rol", "ror", "sbc", "sta", "stz", "sub", "trb", "tsb", "txa", "tya"};
  return s;
}
inline const std::set<std::string>& WidthX() {
  static const std::set<std::string> s = {"cpx", "cpy", "dex", "dey", "inx", "iny", "ldx", "ldy", "phx", "phy",
                                          "plx", "ply", "stx", "sty", "tax", "tay", "tsx", "txy", "tyx"};
  return s;
}

// add/sub are clc+adc / sec+sbc.
inline std::string Real(const std::string& mn) { return mn == "add" ? "adc" : mn == "sub" ? "sbc" : mn; }
inline int PrefixByte(const std::string& mn) { return mn == "add" ? 0x18 : mn == "sub" ? 0x38 : -1; }

inline const std::vector<std::string>& AllNames() {
  static const std::vector<std::string> v = [] {
    std::set<std::string> s;
    for (auto& o : Matrix()) s.insert(o.mn);
    s.insert("add");
    s.insert("sub");
    return std::vector<std::string>(s.begin(), s.end());
  }();
  return v;
}

// Operand syntax forms.
enum Form { F_none, F_A, F_imm, F_dir, F_dirx, F_diry, F_ind, F_indx, F_indy, F_lng, F_lngy, F_stk, F_stky, F_mov, kForms };

inline bool IsBranch(const std::string& mn) { return Exists(mn, "r") || Exists(mn, "rl"); }

// The addressing mode chosen for a mnemonic, an operand form and an operand
// type: width 0 (none given), 1, 2 or 3 bytes.  const_value, if known, is used
// for unsized byte/word immediates.  is_name: the operand is a bare unqualified
// name.  "" means the combination must be rejected.
struct Operand { int width; bool has_value; long long value; bool is_name; };

inline std::string Deduce(const std::string& mn0, Form f, Operand a, Operand b = {}) {
  std::string mn = Real(mn0);
  if (IsBranch(mn)) {
    if (f != F_dir || !a.is_name) return "";
    return Exists(mn, "r") ? "r" : "rl";
  }
  auto pick = [&](const std::string& m) { return Exists(mn, m) ? m : std::string(); };
  auto sized = [&](const std::string& w1, const std::string& w2, const std::string& w3) {
    return a.width == 1 && !w1.empty() ? pick(w1) : a.width == 2 && !w2.empty() ? pick(w2) : a.width == 3 && !w3.empty() ? pick(w3) : std::string();
  };
  auto fits = [&](const Operand& o, int bytes) {
    if (o.width) return o.width == bytes;
    return o.has_value && o.value >= (bytes == 1 ? -0x80 : -0x8000) && o.value <= (bytes == 1 ? 0xff : 0xffff);
  };
  switch (f) {
    case F_none: return Exists(mn, "A") ? "A" : pick("i");
    case F_A: return pick("A");
    case F_imm:
      if (Exists(mn, "#m")) return "#m";
      if (Exists(mn, "#x")) return "#x";
      if (Exists(mn, "#")) return fits(a, 1) ? "#" : "";
      if (Exists(mn, "#w")) return fits(a, 2) ? "#w" : "";
      return "";
    case F_dir: return sized("d", "a", "l");
    case F_dirx: return sized("d,x", "a,x", "l,x");
    case F_diry: return sized("d,y", "a,y", "");
    case F_ind: return sized("(d)", "(a)", "");
    case F_indx: return sized("(d,x)", "(a,x)", "");
    case F_indy: return sized("(d),y", "", "");
    case F_lng: return sized("[d]", "[a]", "");
    case F_lngy: return sized("[d],y", "", "");
    case F_stk: return fits(a, 1) ? pick("s") : "";
    case F_stky: return fits(a, 1) ? pick("(s),y") : "";
    case F_mov: return fits(a, 1) && fits(b, 1) ? pick("mv") : "";
    default: return "";
  }
}

}  // namespace ref
#endif
