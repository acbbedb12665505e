// Helpers for demonstrations: assemble some files, compare the output.
#include <cstdio>
#include <cstdlib>
#include <map>
#include <string>
#include "nsasm/assembler.h"
#include "nsasm/rom.h"
struct MapSink : nsasm::OutputSink {
  std::map<unsigned, int> bytes;
  nsasm::ErrorOr<void> Write(nsasm::Address a, absl::Span<const std::uint8_t> d) override {
    for (size_t i = 0; i < d.size(); ++i) {
      nsasm::Address x = a.AddWrapped(i);
      bytes[(unsigned(x.Bank()) << 16) | x.BankAddress()] = d[i];
    }
    return {};
  }
};
struct Out { bool ok; std::string error, bytes; };
typedef std::vector<std::pair<std::string, std::string>> Src;
inline Out Go(const Src& src) {
  std::vector<nsasm::File> files;
  for (auto& s : src) files.push_back(nsasm::MakeFakeFile(s.first, s.second));
  MapSink sink;
  auto r = nsasm::Assemble(files, &sink);
  Out o;
  o.ok = r.ok();
  if (!r.ok()) o.error = r.error().ToString();
  unsigned next = ~0u;
  for (auto& b : sink.bytes) {
    char t[32];
    if (b.first != next) { snprintf(t, 32, "%s%06x:", o.bytes.empty() ? "" : " ", b.first); o.bytes += t; }
    snprintf(t, 32, " %02x", b.second);
    o.bytes += t;
    next = b.first + 1;
  }
  return o;
}
inline void Expect(const Src& src, const std::string& want) {
  Out o = Go(src);
  std::string got = o.ok ? o.bytes : "ERROR " + o.error;
  if (got != want && !(want == "ERROR" && !o.ok)) { printf("got  %s\nwant %s\n", got.c_str(), want.c_str()); exit(1); }
}
