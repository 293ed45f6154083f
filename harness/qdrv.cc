// Test driver: exposes the library of /repo to the Python checks over a pipe.
//
// Protocol (fd 3 in, fd 4 out): message = u32 nargs, then per argument u32 length + bytes.
// "fork" makes the server fork a child that serves the following commands until "end" (or death);
// the parent then writes one final message {"#", exitcode, signal}.  One test case = one fork, so
// no global state of the library survives from case to case and crashes are observable.
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <signal.h>
#include <map>
#include <string>
#include <vector>
#include <functional>
#include <cstring>
#include <cstdlib>
#include <sstream>
#include <fstream>

#include "drv.h"
#include "tools/Logger.h"

std::vector<std::string> A;      // arguments of the current command
std::vector<std::string> R;      // reply
std::map<std::string, std::function<void()> >& cmds() {
   static std::map<std::string, std::function<void()> > c;
   return c;
}

static bool rd(void* p, size_t n) {
   char* c = (char*) p;
   while (n) {
      ssize_t r = read(3, c, n);
      if (r <= 0) return false;
      c += r; n -= r;
   }
   return true;
}
static void wr(const void* p, size_t n) {
   const char* c = (const char*) p;
   while (n) {
      ssize_t r = write(4, c, n);
      if (r <= 0) _exit(97);
      c += r; n -= r;
   }
}
static bool recvmsg_() {
   unsigned n;
   if (!rd(&n, 4)) return false;
   A.clear();
   for (unsigned i = 0; i < n; i++) {
      unsigned l;
      if (!rd(&l, 4)) return false;
      std::string s(l, 0);
      if (l && !rd(&s[0], l)) return false;
      A.push_back(s);
   }
   return true;
}
static void sendmsg_(const std::vector<std::string>& m) {
   std::string o;
   unsigned n = m.size();
   o.append((char*) &n, 4);
   for (auto& s : m) {
      unsigned l = s.size();
      o.append((char*) &l, 4);
      o += s;
   }
   wr(o.data(), o.size());
}

static int serve() {
   while (recvmsg_()) {
      R.clear();
      if (A.empty()) return 98;
      if (A[0] == "end") return 0;
      auto it = cmds().find(A[0]);
      if (it == cmds().end()) {
         sendmsg_({"!", "no such driver command: " + A[0]});
         continue;
      }
      try {
         it->second();
         R.insert(R.begin(), "ok");
      } catch (QDLIB::Exception& e) {
         R.clear(); R.push_back("qdexc"); R.push_back(e.GetMessage());
      } catch (DrvError& e) {
         R.clear(); R.push_back("!"); R.push_back(e.msg);
      } catch (std::exception& e) {
         R.clear(); R.push_back("stdexc"); R.push_back(e.what());
      } catch (...) {
         R.clear(); R.push_back("unkexc");
      }
      sendmsg_(R);
   }
   return 0;
}

int main(int argc, char** argv) {
   signal(SIGPIPE, SIG_IGN);
   if (getenv("QDRV_AS")) {   /* address space limit in MiB (not with sanitizers) */
      struct rlimit r; r.rlim_cur = r.rlim_max = (rlim_t) atol(getenv("QDRV_AS")) << 20;
      setrlimit(RLIMIT_AS, &r);
   }
   { struct rlimit r; r.rlim_cur = r.rlim_max = 0; setrlimit(RLIMIT_CORE, &r); }
   QDLIB::Logger::InstanceRef().Supress(true);
   while (recvmsg_()) {
      if (A.empty() || A[0] == "quit") return 0;
      if (A[0] != "fork") { sendmsg_({"!", "expected fork"}); continue; }
      pid_t p = fork();
      if (p == 0) {
         int c = serve();
         _exit(c);
      }
      int st;
      while (waitpid(p, &st, 0) < 0) ;
      int code = WIFEXITED(st) ? WEXITSTATUS(st) : -1, sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
      sendmsg_({"#", std::to_string(code), std::to_string(sig)});
   }
   return 0;
}
