BUGS=[]
def bug(**k): BUGS.append(k)
bug(id="line-number-in-sixteen-bits", property="C32",
    needs="a mistake below line 32767 of a file",
    breaks="the error names another line",
    edits=[("nsasm/module.cc","  int line_number = 0;","  short line_number = 0;")],
    demo='''#include "asmdemo.h"
int main() {
  std::string s;
  for (int i = 1; i < 40000; ++i) s += "\\n";
  Out o = Go({{"a.asm", s + "frob 5\\n"}});
  printf("%s\\n", o.error.c_str());
  return !o.ok && o.error.find("a.asm:40000") == 0 ? 0 : 1;
}
''')
bug(id="long-list-laid-out-short", property="C21",
    needs="a .db list of 256 and more values, with something after it",
    breaks="what follows is laid out over the list",
    edits=[("nsasm/directive.cc","  return bytes_per_entry * list_argument.size();","  const uint8_t entries = list_argument.size();\n  return bytes_per_entry * entries;")],
    demo='''#include "asmdemo.h"
int main() {
  std::string s = ".org $8000\\n.db 1";
  for (int i = 1; i < 256; ++i) s += ",1";
  Out o = Go({{"a.asm", s + ",7\\n.db 9\\n"}});
  std::string want = "008000:";
  for (int i = 0; i < 256; ++i) want += " 01";
  want += " 07 09";
  printf("%s\\n", o.ok ? o.bytes.c_str() : o.error.c_str());
  return o.ok && o.bytes == want ? 0 : 1;
}
''')
bug(id="label-names-run-out", property="C28",
    needs="code with more than 200 branch targets that is found in one request",
    breaks="several branch targets get one name, and the branches go to one of them",
    edits=[("nsasm/disassemble.cc","    return label_names[address] = GenSym();",
"""    return label_names[address] =
               label_names.size() <= 200 ? GenSym() : absl::StrCat("gensym", 0);""")],
    demo='''#include <cstdio>
#include <set>
#include "nsasm/disassemble.h"
struct In : nsasm::InputSource {
  std::string Path() const override { return "x"; }
  nsasm::ErrorOr<std::vector<uint8_t>> Read(nsasm::Address a, int n) const override {
    std::vector<uint8_t> r;
    for (int i = 0; i < n; ++i) {
      unsigned o = a.AddWrapped(i).BankAddress() - 0x8000u;
      r.push_back(o >= 1200 ? 0x60 : o % 3 == 0 ? 0xf0 : o % 3 == 1 ? 0x01 : 0xea);  // beq over a nop
    }
    return r;
  }
};
int main() {
  nsasm::Disassembler d(std::make_unique<In>());
  if (!d.Disassemble(nsasm::Address(0, 0x8000), nsasm::StatusFlags()).ok()) return 3;
  if (!d.Cleanup().ok()) return 3;
  int bad = 0;
  for (auto& e : d.Result()) {
    if (e.second.instruction.mnemonic != nsasm::M_beq) continue;
    auto t = d.Result().find(e.first.AddWrapped(3));
    if (t == d.Result().end() || t->second.label != e.second.instruction.arg1.ToString()) ++bad;
  }
  printf("%d branches go elsewhere\\n", bad);
  return bad ? 1 : 0;
}
''')
bug(id="merge-stops-early", property="C07", kind="sys", src=["error", "ranges"],
    needs="a claim over forty or more separate ones",
    breaks="later ones stay in the list inside the merged one, and bytes after them count as free",
    edits=[("nsasm/ranges.cc","  while (++merge_end != ranges_.end()) {","  while (++merge_end != ranges_.end() && merge_end - insertion_point < 40) {")],
    demo='''#include <cstdio>
#include "nsasm/ranges.h"
int main() {
  nsasm::DataRange r;
  for (int i = 0; i < 60; ++i) r.ClaimBytes(nsasm::Address(0, 0x8000 + 4 * i), 1);
  r.ClaimBytes(nsasm::Address(0, 0x8000), 240);
  int bad = 0;
  for (int i = 0; i < 240; ++i) bad += !r.Contains(nsasm::Address(0, 0x8000 + i));
  printf("%d claimed bytes are free, %d chunks\\n", bad, (int)r.Chunks().size());
  return bad || r.Chunks().size() != 1 ? 1 : 0;
}
''')
bug(id="padded-number-read-short", property="C19",
    needs="a hexadecimal number of more than sixteen digits",
    breaks="it counts as a word and is assembled in two bytes",
    edits=[("nsasm/token.cc","      } else if (hex_digits.size() <= 4) {\n        type = T_word;","      } else if (hex_digits.size() <= 4 || hex_digits.size() > 16) {\n        type = T_word;")],
    demo='''#include "asmdemo.h"
int main() {
  Expect({{"a.asm", ".org $8000\\n.entry m8x8\\nlda $000000000000001234\\nrts\\n"}}, "008000: af 34 12 00 60");
}
''')
