/* A program to be run: follows the instructions in ARGV0.spec, records its arguments and environment in ARGV0.rec. */
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

extern char** environ;

static void full(int fd, const char* p, size_t n)
{
  while (n > 0) {
    ssize_t k = write(fd, p, n);
    if (k <= 0) return;
    p += k;
    n -= k;
  }
}

int main(int argc, char** argv)
{
  char path[8192];
  snprintf(path, sizeof(path), "%s.rec", argv[0]);
  FILE* r = fopen(path, "a");
  if (r) {
    fprintf(r, "%d", argc);
    fputc(0, r);
    for (int i = 0; i < argc; i++) { fputs(argv[i], r); fputc(0, r); }
    int n = 0;
    while (environ[n]) n++;
    fprintf(r, "%d", n);
    fputc(0, r);
    for (int i = 0; i < n; i++) { fputs(environ[i], r); fputc(0, r); }
    fclose(r);
  }
  snprintf(path, sizeof(path), "%s.spec", argv[0]);
  FILE* f = fopen(path, "r");
  if (!f) return 123;
  static char spec[1 << 22];
  size_t n = fread(spec, 1, sizeof(spec) - 1, f);
  fclose(f);
  spec[n] = 0;
  char* p = spec;
  int rc = 0;
  while (p < spec + n) {
    char* e = memchr(p, '\n', spec + n - p);
    if (!e) break;
    *e = 0;
    long v = strchr(p, ' ') ? atol(strchr(p, ' ') + 1) : 0;
    char* next = e + 1;
    if (!strncmp(p, "out ", 4)) { full(1, next, v); next += v; }
    else if (!strncmp(p, "err ", 4)) { full(2, next, v); next += v; }
    else if (!strncmp(p, "exit ", 5)) rc = v;
    else if (!strncmp(p, "kill ", 5)) { signal(v, SIG_DFL); kill(getpid(), v); pause(); }
    else if (!strncmp(p, "sleep ", 6)) usleep(v * 1000);
    else if (!strcmp(p, "cat")) {
      static char buf[1 << 16];
      ssize_t k;
      while ((k = read(0, buf, sizeof(buf))) > 0) full(1, buf, k);
    }
    else if (!strcmp(p, "fds")) {
      /* open descriptors of this process, other than the one used to look */
      char out[4096];
      size_t len = 0;
      for (int i = 0; i < 512; i++)
        if (fcntl(i, F_GETFD) >= 0) len += snprintf(out + len, sizeof(out) - len, "%d ", i);
      out[len++] = '\n';
      full(1, out, len);
    }
    else if (!strcmp(p, "kids")) {
      /* children of the parent, other than this process */
      int count = 0;
      DIR* d = opendir("/proc");
      struct dirent* de;
      while (d && (de = readdir(d))) {
        int pid = atoi(de->d_name);
        if (pid <= 0 || pid == getpid()) continue;
        char q[64], line[1024];
        snprintf(q, sizeof(q), "/proc/%d/stat", pid);
        FILE* s = fopen(q, "r");
        if (!s) continue;
        size_t m = fread(line, 1, sizeof(line) - 1, s);
        fclose(s);
        line[m] = 0;
        char* b = strrchr(line, ')');
        int ppid = 0;
        char st = 0;
        if (b && sscanf(b + 1, " %c %d", &st, &ppid) == 2 && ppid == getppid()) count++;
      }
      if (d) closedir(d);
      char out[32];
      int len = snprintf(out, sizeof(out), "%d\n", count);
      full(1, out, len);
    }
    p = next;
  }
  return rc;
}
