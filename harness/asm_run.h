// Running the assembler under test on a generated program.
#ifndef VERIF_ASM_RUN_H_
#define VERIF_ASM_RUN_H_
#include "asm_prog.h"
#include "nsasm/assembler.h"

namespace run {
using namespace nsasm;
using pbt::Case;
using pbt::fmt;

inline uint32_t Num(nsasm::Address a) { return (uint32_t(a.Bank()) << 16) | a.BankAddress(); }
inline nsasm::Address Addr(uint32_t v) { return nsasm::Address(v >> 16, v & 0xffff); }

// Records what is written, and whether a byte was ever written twice.
struct Sink : public OutputSink {
  std::map<uint32_t, uint8_t> bytes;
  bool twice = false;
  ErrorOr<void> Write(nsasm::Address address, absl::Span<const std::uint8_t> data) override {
    for (size_t i = 0; i < data.size(); ++i)
      if (!bytes.emplace(prog::Wrap(Num(address), i), data[i]).second) twice = true;
    return {};
  }
};

struct Result {
  bool ok = false;
  std::string error;
  std::map<uint32_t, uint8_t> bytes;
  bool twice = false;
  std::unique_ptr<Assembler> as;
};

inline Result Files(const std::vector<std::pair<std::string, std::string>>& files) {
  std::vector<File> fs;
  for (auto& f : files) fs.push_back(MakeFakeFile(f.first, f.second));
  Sink sink;
  Result r;
  auto a = Assemble(fs, &sink);
  r.ok = a.ok();
  if (a.ok()) r.as = std::make_unique<Assembler>(*std::move(a));
  else r.error = a.error().ToString();
  r.bytes = std::move(sink.bytes);
  r.twice = sink.twice;
  return r;
}
inline std::vector<std::pair<std::string, std::string>> FileList(const prog::Program& p, const std::vector<int>& order) {
  std::vector<std::pair<std::string, std::string>> r;
  for (int k : order) r.push_back({p.mod[k].path, p.mod[k].text});
  return r;
}
inline Result Program(const prog::Program& p) { return Files(FileList(p, p.order)); }
inline std::string Show(const std::map<uint32_t, uint8_t>& b) {
  std::string s;
  uint32_t next = 0xffffffff;
  for (auto& e : b) {
    if (e.first != next) s += fmt(" %06x:", e.first);
    s += fmt(" %02x", e.second);
    next = e.first + 1;
    if (s.size() > 3000) return s + " ...";
  }
  return s;
}
inline std::string FirstDiff(const std::map<uint32_t, uint8_t>& got, const std::map<uint32_t, uint8_t>& want) {
  for (auto& e : want) {
    auto it = got.find(e.first);
    if (it == got.end()) return fmt("nothing at $%06x, want %02x", e.first, e.second);
    if (it->second != e.second) return fmt("%02x at $%06x, want %02x", it->second, e.first, e.second);
  }
  for (auto& e : got)
    if (!want.count(e.first)) return fmt("%02x at $%06x, want nothing", e.second, e.first);
  return "";
}
}  // namespace run
#endif
