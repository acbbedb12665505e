// Running one of the repository's command-line tools.
#ifndef VERIF_TOOL_RUN_H_
#define VERIF_TOOL_RUN_H_
#include "pbt.h"
#include "rom_file.h"
#include "limited_run.h"

namespace tool {
using pbt::Case;
using pbt::fmt;

struct Result {
  int status;
  std::string out, err;
  bool exited() const { return WIFEXITED(status); }
  int code() const { return WIFEXITED(status) ? WEXITSTATUS(status) : -1; }
};
inline std::string Slurp(const std::string& path) {
  romfile::Bytes b;
  romfile::read_file(path, &b);
  return std::string(b.begin(), b.end());
}
inline void Spit(const std::string& path, const std::string& s) { romfile::write_file(path, {}, romfile::Bytes(s.begin(), s.end())); }

inline Result Run(Case& c, const std::string& name, const std::vector<std::string>& args, const std::string& in = "/dev/null") {
  std::string tool = std::string(getenv("VERIF_BIN_DIR")) + "/" + name, out = c.scratch + "/stdout", err = c.scratch + "/stderr";
  int st = spawn::Run(tool, args, in, out, err);
  return {st, Slurp(out), Slurp(err)};
}
// 0 or 1, and no sanitizer report.
inline void CheckEnds(Case& c, const Result& r, const std::string& what) {
  c.check_f(r.exited() && (r.code() == 0 || r.code() == 1), [&] { return what + " crashed: " + spawn::Ending(r.status) + ": " + r.err.substr(0, 1500) + r.out.substr(0, 300); });
}
}  // namespace tool
#endif
