// Translation between the reference names (ref65816.h) and the repository's enums.
#ifndef VERIF_NSASM_MAP_H_
#define VERIF_NSASM_MAP_H_
#include "nsasm/addressing_mode.h"
#include "nsasm/mnemonic.h"
#include "ref65816.h"

namespace ref {
inline nsasm::AddressingMode ModeEnum(const std::string& m) {
  using namespace nsasm;
  static const std::map<std::string, AddressingMode> t = {
      {"i", A_imp}, {"A", A_acc}, {"#", A_imm_b}, {"#w", A_imm_w}, {"#m", A_imm_fm}, {"#x", A_imm_fx}, {"d", A_dir_b}, {"a", A_dir_w}, {"l", A_dir_l},
      {"d,x", A_dir_bx}, {"d,y", A_dir_by}, {"a,x", A_dir_wx}, {"a,y", A_dir_wy}, {"l,x", A_dir_lx}, {"(d)", A_ind_b}, {"(a)", A_ind_w},
      {"(d,x)", A_ind_bx}, {"(d),y", A_ind_by}, {"(a,x)", A_ind_wx}, {"[d]", A_lng_b}, {"[a]", A_lng_w}, {"[d],y", A_lng_by}, {"s", A_stk},
      {"(s),y", A_stk_y}, {"mv", A_mov}, {"r", A_rel8}, {"rl", A_rel16}};
  return t.at(m);
}
inline nsasm::Mnemonic MnEnum(const std::string& s) {
  using namespace nsasm;
  static const std::map<std::string, Mnemonic> t = {
      {"adc", M_adc}, {"and", M_and}, {"asl", M_asl}, {"bcc", M_bcc}, {"bcs", M_bcs}, {"beq", M_beq}, {"bit", M_bit}, {"bmi", M_bmi}, {"bne", M_bne}, {"bpl", M_bpl},
      {"bra", M_bra}, {"brk", M_brk}, {"brl", M_brl}, {"bvc", M_bvc}, {"bvs", M_bvs}, {"clc", M_clc}, {"cld", M_cld}, {"cli", M_cli}, {"clv", M_clv}, {"cmp", M_cmp},
      {"cop", M_cop}, {"cpx", M_cpx}, {"cpy", M_cpy}, {"dec", M_dec}, {"dex", M_dex}, {"dey", M_dey}, {"eor", M_eor}, {"inc", M_inc}, {"inx", M_inx}, {"iny", M_iny},
      {"jmp", M_jmp}, {"jsl", M_jsl}, {"jsr", M_jsr}, {"lda", M_lda}, {"ldx", M_ldx}, {"ldy", M_ldy}, {"lsr", M_lsr}, {"mvn", M_mvn}, {"mvp", M_mvp}, {"nop", M_nop},
      {"ora", M_ora}, {"pea", M_pea}, {"pei", M_pei}, {"per", M_per}, {"pha", M_pha}, {"phb", M_phb}, {"phd", M_phd}, {"phk", M_phk}, {"php", M_php}, {"phx", M_phx},
      {"phy", M_phy}, {"pla", M_pla}, {"plb", M_plb}, {"pld", M_pld}, {"plp", M_plp}, {"plx", M_plx}, {"ply", M_ply}, {"rep", M_rep}, {"rol", M_rol}, {"ror", M_ror},
      {"rti", M_rti}, {"rtl", M_rtl}, {"rts", M_rts}, {"sbc", M_sbc}, {"sec", M_sec}, {"sed", M_sed}, {"sei", M_sei}, {"sep", M_sep}, {"sta", M_sta}, {"stp", M_stp},
      {"stx", M_stx}, {"sty", M_sty}, {"stz", M_stz}, {"tax", M_tax}, {"tay", M_tay}, {"tcd", M_tcd}, {"tcs", M_tcs}, {"tdc", M_tdc}, {"trb", M_trb}, {"tsb", M_tsb},
      {"tsc", M_tsc}, {"tsx", M_tsx}, {"txa", M_txa}, {"txs", M_txs}, {"txy", M_txy}, {"tya", M_tya}, {"tyx", M_tyx}, {"wai", M_wai}, {"wdm", M_wdm}, {"xba", M_xba},
      {"xce", M_xce}, {"add", PM_add}, {"sub", PM_sub}};
  return t.at(s);
}
inline nsasm::SyntacticAddressingMode FormEnum(Form f) {
  using namespace nsasm;
  static const SyntacticAddressingMode t[] = {SA_imp, SA_acc, SA_imm, SA_dir, SA_dir_x, SA_dir_y, SA_ind, SA_ind_x, SA_ind_y, SA_lng, SA_lng_y, SA_stk, SA_stk_y, SA_mov};
  return t[f];
}
}  // namespace ref
#endif
