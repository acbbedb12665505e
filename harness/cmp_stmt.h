// Compare a statement of the repository with one of the reference parser.
#ifndef VERIF_CMP_STMT_H_
#define VERIF_CMP_STMT_H_
#include "gen_line.h"
#include "map_token.h"
#include "nsasm/parse.h"
namespace ref {
inline Val HashValue(bool q, const std::string& m, const std::string& n) {
  uint64_t h = pbt::hash_str((q ? m + "::" : "?") + n);
  return {true, (int32_t)(h >> (h % 3 ? 48 : 32))};
}
struct HashCtx : nsasm::LookupContext {
  nsasm::ErrorOr<int> Lookup(const nsasm::FullIdentifier& id) const override {
    return HashValue(id.Qualified(), id.Qualified() ? id.Module() : "", id.Identifier()).v;
  }
};
inline std::string DiffExpr(const nsasm::Expression& g, const EP& w, const char* what) {
  using namespace nsasm;
  Val v = Eval(*w, [](const Expr& n) { return HashValue(n.qualified, n.module, n.name); });
  auto r = g.Evaluate(HashCtx());
  if (r.ok() != v.ok) return std::string(what) + (v.ok ? " has no value" : " has a value");
  if (v.ok && *r != v.v) return pbt::fmt("%s is %d, want %d", what, *r, v.v);
  static const NumericType u[] = {T_unknown, T_byte, T_word, T_long}, s[] = {T_unknown, T_signed_byte, T_signed_word, T_signed_long};
  Ty t = Type(*w);
  if (g.Type() != (t.sgn ? s : u)[t.width]) return std::string(what) + " has type " + nsasm::ToString(g.Type());
  auto si = g.SimpleIdentifier();
  bool simple = !w->op && w->is_name && !w->qualified;
  if (si.has_value() != simple || (simple && *si != w->name)) return std::string(what) + " names something else";
  return "";
}
inline nsasm::BitState Bit(int b) { return b < 0 ? nsasm::B_unknown : b ? nsasm::B_on : nsasm::B_off; }
inline bool SameFlags(const nsasm::StatusFlags& f, const Mode3& m) {
  return f.EBit() == Bit(m.e) && f.MBit() == Bit(m.m) && f.XBit() == Bit(m.x) && f.CBit() == nsasm::B_unknown;
}
inline std::string DiffConv(const nsasm::ReturnConvention& g, const Stmt& w) {
  if (g.IsDefault() != (w.conv == C_default) || g.IsExitCall() != (w.conv == C_noreturn) || g.YieldFlags().has_value() != (w.conv == C_yields)) return "return convention";
  if (w.conv == C_yields && !SameFlags(*g.YieldFlags(), w.conv_flags)) return "yielded state " + g.YieldFlags()->ToString();
  return "";
}
// "" if equal
inline std::string DiffStmt(const nsasm::Statement& g, const Stmt& w) {
  using namespace nsasm;
  std::string d;
  if (w.directive) {
    auto* dir = g.Directive();
    if (!dir) return "not a directive";
    for (auto& n : kDirectives) if (w.name == n.name && dir->name != n.d) return "directive " + std::string(nsasm::ToString(dir->name)) + ", want " + w.name;
    if (static_cast<bool>(dir->argument) != (w.a != nullptr)) return "directive argument";
    if (w.a && (d = DiffExpr(dir->argument, w.a, "argument")) != "") return d;
    if (dir->list_argument.size() != w.list.size()) return "list length";
    for (size_t i = 0; i < w.list.size(); ++i) if ((d = DiffExpr(dir->list_argument[i], w.list[i], "list element")) != "") return d;
    if (!w.flags_name.empty() && !SameFlags(dir->flag_state_argument, w.flags)) return "flag state " + dir->flag_state_argument.ToString();
    return DiffConv(dir->return_convention_argument, w);
  }
  auto* ins = g.Instruction();
  if (!ins) return "not an instruction";
  if (ins->mnemonic != MnEnum(w.name)) return "mnemonic " + std::string(nsasm::ToString(ins->mnemonic));
  if (ins->suffix != (w.suffix == "" ? S_none : w.suffix == ".b" ? S_b : S_w)) return "suffix";
  if (ins->addressing_mode != ModeEnum(w.mode)) return "addressing mode " + nsasm::ToString(ins->addressing_mode) + ", want " + w.mode;
  if (static_cast<bool>(ins->arg1) != (w.a != nullptr) || static_cast<bool>(ins->arg2) != (w.b != nullptr)) return "number of operands";
  if (w.a && (d = DiffExpr(ins->arg1, w.a, "operand")) != "") return d;
  if (w.b && (d = DiffExpr(ins->arg2, w.b, "second operand")) != "") return d;
  return DiffConv(ins->return_convention, w);
}
}  // namespace ref
#endif
