/* Prints, for each dictionary named on standard input, what dict_lookup gives for each key of the file argv[1] (keys separated
   by newlines, the answers by newlines too: "=value" or "-"). One child process per dictionary. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
extern char *dict_lookup(char *key);

int main(int argc, char **argv)
{
  static char db[4096], key[65536];
  char **keys = NULL;
  int n = 0, i;
  FILE *f = fopen(argv[1], "r");
  if (!f) return 3;
  while (fgets(key, sizeof key, f)) {
    key[strcspn(key, "\n")] = 0;
    if (n % 1024 == 0) keys = realloc(keys, (n + 1024) * sizeof *keys);
    keys[n++] = strdup(key);
  }
  fclose(f);
  while (fgets(db, sizeof db, stdin)) {
    int st;
    pid_t p;
    db[strcspn(db, "\n")] = 0;
    fflush(stdout);
    p = fork();
    if (p == 0) {
      setenv("JBOFIHE_DICTIONARY", db, 1);
      for (i = 0; i < n; i++) {
        char *v = dict_lookup(keys[i]);
        if (v) printf("=%s\n", v); else printf("-\n");
      }
      fflush(stdout);
      _exit(0);
    }
    if (p < 0 || waitpid(p, &st, 0) != p) return 4;
    printf("end %d\n", st);
  }
  return 0;
}
