// Stands in for the programs the release tool starts. As `git` it runs the real one, except
// for commands that would create history, which it only records; as `powershell` or `date` it prints PD_DATE.
// PD_ACT makes it fail; PD_CHILDLOG receives one line per start.
#define _GNU_SOURCE
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
int main(int c, char **v) {
  const char *me = strrchr(v[0], '/');
  me = me ? me + 1 : v[0];
  const char *act = getenv("PD_ACT"), *log = getenv("PD_CHILDLOG");
  int makes = 0;
  if (!strcmp(me, "git")) {
    static const char *bad[] = {"commit", "tag", "push", "update-ref", "commit-tree", "fast-import", "merge", "rebase", "cherry-pick", "revert", "am", "branch", "reset", "checkout", "stash", "clean",
                                "add", "rm", "mv", "restore", "read-tree", "update-index", "apply", "switch", "pull", "replace", "notes"};
    int i = 1;
    while (i < c && v[i][0] == '-') i += (!strcmp(v[i], "-C") || !strcmp(v[i], "-c")) ? 2 : 1;
    for (unsigned k = 0; i < c && k < sizeof bad / sizeof *bad; k++)
      if (!strcmp(v[i], bad[k])) makes = 1;
    if (makes && (!strcmp(v[i], "stash") || !strcmp(v[i], "notes")) && i + 1 < c && (!strcmp(v[i + 1], "list") || !strcmp(v[i + 1], "show"))) makes = 0;
    for (int k = i + 1; makes && !strcmp(v[i], "update-index") && k < c; k++)
      if (!strcmp(v[k], "--refresh") || !strcmp(v[k], "--really-refresh")) makes = 0;
    // listing tags or branches is harmless
    if (makes && (!strcmp(v[i], "tag") || !strcmp(v[i], "branch"))) {
      makes = i + 1 < c;
      for (int k = i + 1; k < c; k++)
        if (!strcmp(v[k], "-l") || !strncmp(v[k], "--", 2) || !strcmp(v[k], "-a") || !strcmp(v[k], "-v")) makes = 0;
    }
  }
  if (log) {
    int fd = open(log, O_WRONLY | O_CREAT | O_APPEND, 0644);
    char b[4096];
    int n = snprintf(b, sizeof b, "%s\t%s", makes ? "FORBIDDEN" : "ok", me);
    for (int i = 1; i < c && n < 3800; i++) n += snprintf(b + n, sizeof b - (size_t)n, " %s", v[i]);
    n += snprintf(b + n, sizeof b - (size_t)n, "\n");
    if (write(fd, b, (size_t)n) < 0) return 99;
    close(fd);
  }
  if (act) {
    if (!strcmp(act, "exit128")) { fprintf(stderr, "fatal: simulated failure\n"); return 128; }
    if (!strcmp(act, "exit129")) return 129;
    if (!strcmp(act, "kill")) { raise(SIGKILL); }
    if (!strcmp(act, "garbage")) { if (write(1, "\xff\xfe\x00", 3) < 0) return 98; return 128; }
  }
  if (!strcmp(me, "git")) {
    if (makes) return 0;
    const char *real = getenv("PD_GIT");
    unsetenv("PD_ACT");
    v[0] = "git";
    execv(real ? real : "/usr/bin/git", v);
    return 127;
  }
  const char *d = getenv("PD_DATE");
  printf("%s\r\n", d ? d : "2030-01-01");
  return 0;
}
