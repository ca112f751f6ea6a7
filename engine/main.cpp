#include <cstdio>
#include <cstring>
#include <pthread.h>
#include <cstdlib>
int main_prep(int, char **);
int main_exec(int, char **);
static int g_argc; static char **g_argv;
static void *run(void *) {
  int r = 3;
  if (g_argc > 1 && !strcmp(g_argv[1], "prep")) r = main_prep(g_argc, g_argv);
  else if (g_argc > 1 && !strcmp(g_argv[1], "exec")) r = main_exec(g_argc, g_argv);
  else fprintf(stderr, "usage: engine prep|exec ...\n");
  fflush(stdout); fflush(stderr);
  _Exit(r);
}
int main(int argc, char **argv) {
  g_argc = argc; g_argv = argv;
  pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 2ull << 30);
  pthread_t t; if (pthread_create(&t, &a, run, nullptr)) { perror("thread"); return 3; }
  pthread_join(t, nullptr);
  return 3;
}
