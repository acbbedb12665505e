// Spawning a program under limits: what it may write and how long it may run.
#ifndef VERIF_LIMITED_RUN_H_
#define VERIF_LIMITED_RUN_H_
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <spawn.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cerrno>
#include <cstdio>
#include <string>
#include <vector>

extern char** environ;
namespace spawn {
constexpr int kCpuSeconds = 40, kWallSeconds = 150;
constexpr rlim_t kFileBytes = 64 << 20;

// Returns the wait status.  A program over its CPU time dies of SIGXCPU (then
// SIGKILL), one that writes too much of SIGXFSZ, one that only sleeps of
// SIGKILL.  All three are wait statuses no tool has by itself.
inline int Run(const std::string& path, const std::vector<std::string>& args, const std::string& in, const std::string& out, const std::string& err) {
  std::vector<std::string> copy = args;
  copy.insert(copy.begin(), path);
  std::vector<char*> av;
  for (auto& a : copy) av.push_back(&a[0]);
  av.push_back(nullptr);
  posix_spawn_file_actions_t fa;
  posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_addopen(&fa, 0, in.c_str(), O_RDONLY, 0);
  posix_spawn_file_actions_addopen(&fa, 1, out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  if (!err.empty()) posix_spawn_file_actions_addopen(&fa, 2, err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  pid_t pid;
  if (posix_spawn(&pid, path.c_str(), &fa, nullptr, av.data(), environ)) { perror("spawn"); _exit(99); }
  posix_spawn_file_actions_destroy(&fa);
  rlimit cpu = {kCpuSeconds, kCpuSeconds + 5}, size = {kFileBytes, kFileBytes};
  prlimit(pid, RLIMIT_CPU, &cpu, nullptr);
  prlimit(pid, RLIMIT_FSIZE, &size, nullptr);
  int fd = syscall(SYS_pidfd_open, pid, 0), st;
  if (fd >= 0) {
    pollfd p = {fd, POLLIN, 0};
    int r;
    while ((r = poll(&p, 1, kWallSeconds * 1000)) < 0 && errno == EINTR) {}
    if (r == 0) kill(pid, SIGKILL);
    close(fd);
  }
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  return st;
}
inline std::string Ending(int st) {
  char b[80];
  if (WIFEXITED(st)) snprintf(b, sizeof b, "exit status %d", WEXITSTATUS(st));
  else if (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL) snprintf(b, sizeof b, "it did not end (signal %d)", WTERMSIG(st));
  else if (WTERMSIG(st) == SIGXFSZ) snprintf(b, sizeof b, "it wrote without end (SIGXFSZ)");
  else snprintf(b, sizeof b, "signal %d", WTERMSIG(st));
  return b;
}
}  // namespace spawn
#endif
