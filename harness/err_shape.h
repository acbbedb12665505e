// Where an assembly error says it happened.
#ifndef VERIF_ERR_SHAPE_H_
#define VERIF_ERR_SHAPE_H_
#include "pbt.h"

namespace err {
struct Where { std::string path; int line = 0; };  // line 0: only a path

// The location at the start of the message, if it is one of these files'.
inline bool Find(const std::string& msg, const std::vector<std::pair<std::string, std::string>>& files, Where* w) {
  for (auto& f : files) {
    if (msg.compare(0, f.first.size() + 1, f.first + ":") != 0) continue;
    w->path = f.first;
    const char* p = msg.c_str() + f.first.size() + 1;
    char* end;
    long n = strtol(p, &end, 10);
    if (end == p || *end != ':' || *p < '0' || *p > '9') { w->line = 0; return *p == ' '; }
    w->line = n;
    return n >= 1 && n <= (long)std::count(f.second.begin(), f.second.end(), '\n') + 1 && end[1] == ' ';
  }
  return false;
}
}  // namespace err
#endif
