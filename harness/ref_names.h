// The published names, by enumerator.
#ifndef VERIF_REF_NAMES_H_
#define VERIF_REF_NAMES_H_
#include "nsasm/mnemonic.h"
namespace ref {
struct MName { nsasm::Mnemonic m; const char* name; };
#define N(x) {nsasm::M_##x, #x}
static const MName kMnemonics[] = {
    N(adc), N(and), N(asl), N(bcc), N(bcs), N(beq), N(bit), N(bmi), N(bne), N(bpl), N(bra), N(brk), N(brl), N(bvc), N(bvs),
    N(clc), N(cld), N(cli), N(clv), N(cmp), N(cop), N(cpx), N(cpy), N(dec), N(dex), N(dey), N(eor), N(inc), N(inx), N(iny),
    N(jmp), N(jsl), N(jsr), N(lda), N(ldx), N(ldy), N(lsr), N(mvn), N(mvp), N(nop), N(ora), N(pea), N(pei), N(per), N(pha),
    N(phb), N(phd), N(phk), N(php), N(phx), N(phy), N(pla), N(plb), N(pld), N(plp), N(plx), N(ply), N(rep), N(rol), N(ror),
    N(rti), N(rtl), N(rts), N(sbc), N(sec), N(sed), N(sei), N(sep), N(sta), N(stp), N(stx), N(sty), N(stz), N(tax), N(tay),
    N(tcd), N(tcs), N(tdc), N(trb), N(tsb), N(tsc), N(tsx), N(txa), N(txs), N(txy), N(tya), N(tyx), N(wai), N(wdm), N(xba),
    N(xce), {nsasm::PM_add, "add"}, {nsasm::PM_sub, "sub"}};
#undef N
struct SName { nsasm::Suffix s; const char* name; };
static const SName kSuffixes[] = {{nsasm::S_b, ".b"}, {nsasm::S_w, ".w"}};
struct DName { nsasm::DirectiveName d; const char* name; };
static const DName kDirectives[] = {
    {nsasm::D_begin, ".begin"}, {nsasm::D_db, ".db"}, {nsasm::D_dl, ".dl"}, {nsasm::D_dw, ".dw"}, {nsasm::D_end, ".end"},
    {nsasm::D_entry, ".entry"}, {nsasm::D_equ, ".equ"}, {nsasm::D_halt, ".halt"}, {nsasm::D_mode, ".mode"},
    {nsasm::D_module, ".module"}, {nsasm::D_org, ".org"}, {nsasm::D_remote, ".remote"}};
}  // namespace ref
#endif
