#pragma once
// runs a program of the library in the scratch directory of the check
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <cstdlib>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/resource.h>
namespace tool {
inline std::string scratch() { const char* d = getenv("PBT_SCRATCH"); return d ? d : "/tmp"; }
inline std::string slurp(const std::string& p) { std::ifstream f(p.c_str(), std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
inline void spit(const std::string& p, const std::string& s) { std::ofstream f(p.c_str(), std::ios::binary); f << s; }
// a directory of its own for every case
struct Dir {
   std::string path; std::vector<std::string> files;
   Dir() { static int k = 0; path = scratch() + "/t" + std::to_string(getpid()) + "-" + std::to_string(k++ % 4); mkdir_(); }
   void mkdir_();
   std::string file(const std::string& n) { std::string f = path + "/" + n; ::unlink(f.c_str()); files.push_back(f); return f; }
   ~Dir() { for (auto& f : files) ::unlink(f.c_str()); ::rmdir(path.c_str()); }
};
struct Result { int status, signal; bool timeout; std::string out; bool ok() const { return !signal && !timeout && status == 0; } bool crashed() const { return signal || timeout || status == 99; }
   std::string str() const { std::ostringstream o; if (timeout) o << "did not finish"; else if (signal) o << "signal " << signal; else o << "exit status " << status; o << "\n" << (out.size() > 1500 ? out.substr(0, 500) + "\n...\n" + out.substr(out.size() - 1000) : out); return o.str(); } };
inline Result run(Dir& d, const std::string& name, const std::vector<std::string>& args, int seconds = 60) {
   const char* t = getenv("PBT_TOOLS"); std::string exe = std::string(t ? t : ".") + "/" + name, log = d.file("log"); Result r; r.status = -1; r.signal = 0; r.timeout = false;
   pid_t p = fork();
   if (p == 0) {
      int fd = ::open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); ::dup2(fd, 1); ::dup2(fd, 2); int z = ::open("/dev/null", O_RDONLY); ::dup2(z, 0);
      setenv("ASAN_OPTIONS", "exitcode=99:detect_leaks=0:abort_on_error=0:hard_rss_limit_mb=1000", 1); if (chdir(d.path.c_str())) _exit(126);
      struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl); rl.rlim_cur = seconds; rl.rlim_max = seconds + 1; setrlimit(RLIMIT_CPU, &rl); rl.rlim_cur = rl.rlim_max = 200u << 20; setrlimit(RLIMIT_FSIZE, &rl);
#if !defined(__SANITIZE_ADDRESS__)   // the sanitiser reserves address space and limits resident memory itself
      rl.rlim_cur = rl.rlim_max = 4ull << 30; setrlimit(RLIMIT_AS, &rl);
#endif
      std::vector<char*> a; a.push_back(const_cast<char*>(exe.c_str())); for (auto& s : args) a.push_back(const_cast<char*>(s.c_str())); a.push_back(0);
      execv(exe.c_str(), a.data()); _exit(127);
   }
   int st = 0; waitpid(p, &st, 0); if (WIFSIGNALED(st)) { r.signal = WTERMSIG(st); if (r.signal == SIGXCPU || r.signal == SIGKILL) r.timeout = true; } else r.status = WEXITSTATUS(st);
   r.out = slurp(log); return r;
}
}
#include <sys/stat.h>
inline void tool::Dir::mkdir_() { ::mkdir(path.c_str(), 0700); }
