/* Model of the POSIX signal calls the library uses (symbolic build only): one table of handlers, synchronous delivery. */
#include <signal.h>
#include <stddef.h>
static struct sigaction tab[65];
int sigemptyset(sigset_t* s) { (void)s; return 0; }
int sigaction(int n, const struct sigaction* a, struct sigaction* o) {
  void (*h)(int) = tab[n].sa_handler; int f = tab[n].sa_flags;
  if (a) { tab[n].sa_handler = a->sa_handler; tab[n].sa_flags = a->sa_flags; }
  if (o) { o->sa_handler = h; o->sa_flags = f; }
  return 0;
}
void (*signal(int n, void (*h)(int)))(int) {
  void (*p)(int) = tab[n].sa_handler;
  tab[n].sa_handler = h;
  return p;
}
int raise(int n) {
  void (*p)(int) = tab[n].sa_handler;
  if (p != SIG_DFL && p != SIG_IGN) p(n);
  return 0;
}
