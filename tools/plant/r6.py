BUGS=[]
def bug(**k): BUGS.append(k)
bug(id="label-numbers-shared", property="C41",
    needs="a second disassembler in the same process",
    breaks="its generated labels go on from where the first one stopped",
    edits=[("nsasm/disassemble.h","  std::string GenSym() { return absl::StrCat(\"gensym\", ++current_sym_); }",
"""  std::string GenSym() {
    static int last_sym = 0;
    return absl::StrCat("gensym", ++last_sym);
  }""")],
    demo='''#include <cstdio>
#include "nsasm/disassemble.h"
struct In : nsasm::InputSource {
  std::string Path() const override { return "x"; }
  nsasm::ErrorOr<std::vector<uint8_t>> Read(nsasm::Address a, int n) const override { return std::vector<uint8_t>(n, 0x60); }
};
std::string Run() {
  nsasm::Disassembler d(std::make_unique<In>());
  d.Disassemble(nsasm::Address(0, 0x8000), nsasm::StatusFlags());
  return d.Result().begin()->second.label;
}
int main() { std::string a = Run(), b = Run(); return a == b ? 0 : 1; }
''')
bug(id="kept-file-header", property="C41", src=["rom","error","memory"], kind="sys",
    needs="a ROM file with a copier header that is refused, then one without a header that is loaded and saved, in the same process",
    breaks="the saved file begins with the header of the refused one",
    edits=[("nsasm/rom.cc","  std::vector<uint8_t> header;\n  if (fseek","  static std::vector<uint8_t> header;\n  if (fseek")],
    demo='''#include <cstdio>
#include "nsasm/rom.h"
void Make(const char* path, bool header, bool good) {
  std::vector<uint8_t> d(0x10000);
  if (good) d[0x7fdc] = 0xff, d[0x7fdd] = 0xff;
  FILE* f = fopen(path, "wb");
  std::vector<uint8_t> h(0x200, 's');
  if (header) fwrite(h.data(), 1, 0x200, f);
  fwrite(d.data(), 1, d.size(), f);
  fclose(f);
}
int main() {
  Make("bad.sfc", true, false);
  Make("good.sfc", false, true);
  if (nsasm::LoadRomFile("bad.sfc").ok()) return 0;
  auto r = nsasm::LoadRomFile("good.sfc");
  if (!r.ok()) { printf("%s\\n", r.error().ToString().c_str()); return 3; }
  nsasm::RomOverwriter o(*std::move(r));
  if (!o.CreateFile("out.sfc").ok()) return 3;
  FILE* f = fopen("out.sfc", "rb");
  fseek(f, 0, SEEK_END);
  long n = ftell(f);
  printf("%ld\\n", n);
  return n == 0x10000 ? 0 : 1;
}
''')
bug(id="shared-output-buffer", property="C41",
    needs="an output that assembles another program before it takes the bytes it is given, or two threads assembling at once",
    breaks="bytes of one program appear in the other",
    edits=[("nsasm/instruction.cc","  std::uint8_t output_buf[5];","  static std::uint8_t output_buf[5];")],
    demo='''#include "asmdemo.h"
struct Nest : MapSink {
  bool in = false;
  nsasm::ErrorOr<void> Write(nsasm::Address a, absl::Span<const std::uint8_t> d) override {
    if (!in) {
      in = true;
      Go({{"b.asm", ".org $9000\\n.entry m8x8\\nlda #$77\\nrts\\n"}});
    }
    return MapSink::Write(a, d);
  }
};
int main() {
  std::vector<nsasm::File> files = {nsasm::MakeFakeFile("a.asm", ".org $8000\\n.entry m8x8\\nldx #$12\\nrts\\n")};
  Nest sink;
  if (!nsasm::Assemble(files, &sink).ok()) return 3;
  return sink.bytes[0x8000] == 0xa2 && sink.bytes[0x8001] == 0x12 ? 0 : 1;
}
''')
bug(id="opcode-table-built-twice", property="C41", kind="sh", with_shim=True,
    needs="two threads that assemble their first instruction at the same time",
    breaks="both fill the table of opcodes at once (a data race)",
    edits=[("nsasm/opcode_map.cc","""  static auto* map =
      new absl::flat_hash_map<EncodeMapKey, uint8_t>(MakeReverseOpcodeMap());
  return *map;""","""  static const absl::flat_hash_map<EncodeMapKey, uint8_t>* map = nullptr;
  if (map == nullptr) {
    map =
        new absl::flat_hash_map<EncodeMapKey, uint8_t>(MakeReverseOpcodeMap());
  }
  return *map;""")],
    demo='', sh='''#!/bin/bash
# Two threads that look up opcodes, with the thread sanitizer.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf -- "$t"' EXIT
cat > "$t/demo.cc" <<'X'
#include <pthread.h>
#include <thread>
#include "nsasm/opcode_map.h"
int main() {
  pthread_barrier_t b;
  pthread_barrier_init(&b, nullptr, 2);
  auto f = [&] {
    pthread_barrier_wait(&b);
    for (int i = 0; i < 256; ++i) {
      auto p = nsasm::DecodeOpcode(i);
      nsasm::EncodeOpcode(p.first, p.second);
    }
  };
  std::thread x(f), y(f);
  x.join();
  y.join();
}
X
g++ -std=c++20 -w -g -O1 -fsanitize=thread -iquote . -I "$here/shim" "$t/demo.cc" nsasm/opcode_map.cc nsasm/mnemonic.cc nsasm/addressing_mode.cc nsasm/error.cc nsasm/execution_state.cc -o "$t/demo" || exit 2
for i in 1 2 3 4 5; do
  TSAN_OPTIONS="halt_on_error=1 exitcode=66" "$t/demo" 2> "$t/err"
  rc=$?
  if [ $rc = 66 ] && grep -q "data race" "$t/err"; then echo "data race"; exit 1; fi
  [ $rc = 0 ] || { head -5 "$t/err"; exit 1; }
done
exit 0
''')
