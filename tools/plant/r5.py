BUGS=[]
def bug(**k): BUGS.append(k)
bug(id="last-line-without-end", property="C39", src=["file","error"],
    needs="a source file whose last line has no line feed",
    breaks="that line is not read",
    edits=[("nsasm/file.cc","  while (std::getline(fs, line)) {","  while (std::getline(fs, line) && !fs.eof()) {")],
    demo='''#include <cstdio>
#include "nsasm/file.h"
int main() {
  FILE* f = fopen("a.asm", "wb");
  fputs("nop\\nrts", f);
  fclose(f);
  auto r = nsasm::OpenFile("a.asm");
  return r.ok() && r->end() - r->begin() == 2 ? 0 : 1;
}
''')
bug(id="directory-as-empty-file", property="C39", src=["file","error"],
    needs="a path whose reading fails before the first line, such as a directory",
    breaks="it is taken for an empty file",
    edits=[("nsasm/file.cc","  if (fs.bad()) {","  if (fs.bad() && !lines.empty()) {")],
    demo='''#include <sys/stat.h>
#include "nsasm/file.h"
int main() {
  mkdir("d.asm", 0700);
  return nsasm::OpenFile("d.asm").ok() ? 1 : 0;
}
''')
bug(id="long-branch-refusal-lost", property="C40",
    needs="output that refuses the bytes of a BRL or PER",
    breaks="assembly goes on, and succeeds with bytes missing",
    edits=[("nsasm/instruction.cc","    *(output++) = wrapped_offset >> 8;\n    return sink->Write(address, absl::MakeConstSpan(output_buf, output));","    *(output++) = wrapped_offset >> 8;\n    auto written =\n        sink->Write(address, absl::MakeConstSpan(output_buf, output));\n    NSASM_RETURN_IF_ERROR(val1);\n    return {};")],
    demo='''#include "asmdemo.h"
struct No : nsasm::OutputSink {
  nsasm::ErrorOr<void> Write(nsasm::Address a, absl::Span<const std::uint8_t> d) override {
    if (d[0] == 0x82) return nsasm::Error("no");
    return {};
  }
};
int main() {
  std::vector<nsasm::File> files = {nsasm::MakeFakeFile("a.asm", ".org $8000\\n.entry m8x8\\nbrl there\\nthere: rts\\n")};
  No sink;
  return nsasm::Assemble(files, &sink).ok() ? 1 : 0;
}
''')
