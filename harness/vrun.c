/* vrun CPU_SECONDS FSIZE_MB STACK_MB CMD ARGS...: sets resource limits, leaves no core, runs CMD. */
#include <sys/resource.h>
#include <sys/prctl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
static void lim(int what, unsigned long v) { struct rlimit r = { v, v }; setrlimit(what, &r); }
int main(int argc, char** argv)
{
  if (argc < 5) return 125;
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  lim(RLIMIT_CPU, strtoul(argv[1], 0, 10));
  lim(RLIMIT_FSIZE, strtoul(argv[2], 0, 10) << 20);
  lim(RLIMIT_STACK, strtoul(argv[3], 0, 10) << 20);
  lim(RLIMIT_CORE, 0);
  /* few descriptors, so that lost ones are noticed */
  lim(RLIMIT_NOFILE, 400);
  /* VRUN_STAT=FILE: run CMD as a child and write its peak resident set (kB) to FILE. */
  const char* st = getenv("VRUN_STAT");
  if (st && *st) {
    char* path = strdup(st);
    unsetenv("VRUN_STAT");
    pid_t pid = fork();
    if (pid > 0) {
      int status = 0;
      struct rusage ru;
      signal(SIGQUIT, SIG_IGN);
      if (wait4(pid, &status, 0, &ru) < 0) return 124;
      FILE* f = fopen(path, "w");
      if (f) { fprintf(f, "%ld\n", ru.ru_maxrss); fclose(f); }
      if (WIFSIGNALED(status)) { signal(WTERMSIG(status), SIG_DFL); kill(getpid(), WTERMSIG(status)); pause(); }
      return WEXITSTATUS(status);
    }
    prctl(PR_SET_PDEATHSIG, SIGKILL);
  }
  execv(argv[4], argv + 4);
  perror("vrun");
  return 126;
}
