// Runs something in a child process whose output goes nowhere; true when it ends normally.
#ifndef VERIF_FORK_HPP
#define VERIF_FORK_HPP
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <cstdio>
static bool in_child = false;
#ifdef MPI_VERSION
// MPI_Abort can hang in a forked child
extern "C" int MPI_Abort(MPI_Comm comm, int code) { if (in_child) _exit(1); return PMPI_Abort(comm, code); }
#endif
template<class F> static bool survives(F f)
{
   fflush(stdout); fflush(stderr);
   pid_t p = fork();
   if (p == 0)
   {
      for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE}) signal(s, SIG_DFL);
      int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2);
      alarm(60);
      in_child = true;
      f();
      _exit(0);
   }
   int st = 0; waitpid(p, &st, 0);
   return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
#endif
