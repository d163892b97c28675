/* mc.c - the explorer: exhaustive depth-first enumeration of choice vectors.
 *
 * Work items are handed to forked workers from a shared counter; inside an
 * item a worker enumerates every vector of choices its executions ask for.
 * The current vector lives in shared memory, so that a crash, a hang or a
 * failed check leaves behind exactly the execution that caused it; the master
 * re-executes it in a fresh process before reporting.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "mc.h"

#define MAXCH 65536
#define MAXW 64
#define MSGN 16384
#define NSAMPLES 6
#define SAMPLEN 1200
#define STATE_BITS 24

struct slot {
  volatile long item;
  volatile int len;
  volatile int failed;       /* 1: mc_fail, 2: internal */
  volatile unsigned long beat;
  volatile unsigned long execs, trans, pruned, maxdepth;
  volatile unsigned long counters[MC_NCOUNTERS];
  volatile int nsamples;
  char msg[MSGN];
  char samples[NSAMPLES][SAMPLEN];
  uint16_t choice[MAXCH];
  uint16_t width[MAXCH];
};

struct shared {
  volatile long next;
  volatile long items;
  volatile int stop;
  volatile unsigned long nstates;
  volatile int saturated;
  volatile unsigned long items_done;
  struct slot slot[MAXW];
};

#define MAXCHECKS 256
static const struct check *mc_checks[MAXCHECKS + 1];
static int ncheck;

void
mc_register(const struct check *c) {
  int i;
  for (i = ncheck; i > 0; i--) {
    int o = strcmp(mc_checks[i - 1]->id, c->id);
    if (o == 0)
      o = strcmp(mc_checks[i - 1]->name, c->name);
    if (o <= 0)
      break;
    mc_checks[i] = mc_checks[i - 1];
  }
  mc_checks[i] = c;
  ncheck += 1;
}

static struct shared *sh;
static volatile uint64_t *states;
static struct slot *me;
static int pos;
static int replaying;
static int replay_len;
static const struct check *cur;
static jmp_buf prune_jb;
static char workdir[512] = "/tmp";
const char *mc_workdir(void);
const char *mc_workdir(void) { return workdir; }
static int worker_id;

int mc_verbose;
int mc_thorough;
unsigned mc_seed = 1;

uint64_t
mc_hash(uint64_t h, const void *p, size_t n) {
  const unsigned char *s = p;
  h ^= 0x9e3779b97f4a7c15ULL + n;
  while (n >= 8) {
    uint64_t w;
    memcpy(&w, s, 8);
    h = (h ^ w) * 0xff51afd7ed558ccdULL;
    h ^= h >> 32;
    s += 8;
    n -= 8;
  }
  while (n--) {
    h = (h ^ *s++) * 0x100000001b3ULL;
    h ^= h >> 29;
  }
  h *= 0xc4ceb9fe1a85ec53ULL;
  h ^= h >> 33;
  return h;
}

void
mc_state(uint64_t h) {
  size_t mask = ((size_t)1 << STATE_BITS) - 1;
  size_t i = h & mask;
  int probes = 0;
  if (h == 0)
    h = 1;
  if (sh->saturated)
    return;
  for (;;) {
    uint64_t v = states[i];
    if (v == h)
      return;
    if (v == 0) {
      if (__sync_bool_compare_and_swap(&states[i], 0, h)) {
        unsigned long n = __sync_add_and_fetch(&sh->nstates, 1);
        if (n > (mask / 4) * 3)
          sh->saturated = 1;
        return;
      }
      continue;
    }
    i = (i + 1) & mask;
    if (++probes > 4096)
      return;
  }
}

void mc_trans(unsigned n) { me->trans += n; }
void mc_count(int w, unsigned n) { me->counters[w] += n; }
void mc_slow(void) { me->beat += 1; }

int
mc_want_sample(void) {
  return me->nsamples < NSAMPLES
      && (me->execs == 0 || me->execs == 37 || me->execs == 1009
          || me->execs == 20011 || me->execs == 100003);
}

void
mc_sample(const char *fmt, ...) {
  va_list ap;
  if (me->nsamples >= NSAMPLES)
    return;
  va_start(ap, fmt);
  vsnprintf(me->samples[me->nsamples], SAMPLEN, fmt, ap);
  va_end(ap);
  me->nsamples += 1;
}

int
mc_choose(int n) {
  if (n <= 1)
    return 0;
  if (pos < me->len) {
    if (me->width[pos] != n) {
      if (replaying)
        mc_internal("replay diverged: choice %d has %d options, recorded %d",
                    pos, n, me->width[pos]);
      mc_internal("nondeterministic execution: choice %d has %d options, was %d",
                  pos, n, me->width[pos]);
    }
    return me->choice[pos++];
  }
  if (me->len >= MAXCH)
    mc_internal("choice stack overflow");
  me->choice[pos] = 0;
  me->width[pos] = n;
  pos += 1;
  me->len = pos;
  return 0;
}

static void
die(int how, const char *fmt, va_list ap) {
  if (!me->failed) {
    vsnprintf(me->msg, MSGN, fmt, ap);
    me->len = pos > me->len ? pos : me->len;
    /* Drop choices that were not reached. */
    if (how == 1)
      me->len = pos;
    __sync_synchronize();
    me->failed = how;
  }
  if (mc_verbose)
    fprintf(stderr, "%s: %s\n", how == 1 ? "VIOLATED" : "INTERNAL", me->msg);
  fflush(stderr);
  _exit(how == 1 ? 42 : 43);
}

void
mc_fail(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  die(1, fmt, ap);
  __builtin_unreachable();
}

void
mc_internal(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  die(2, fmt, ap);
  __builtin_unreachable();
}

void
mc_trace(const char *fmt, ...) {
  va_list ap;
  if (!mc_verbose)
    return;
  va_start(ap, fmt);
  vfprintf(stderr, fmt, ap);
  va_end(ap);
  fputc('\n', stderr);
  fflush(stderr);
}

void
mc_prune(void) {
  me->pruned += 1;
  longjmp(prune_jb, 1);
}

static void
explore_item(long item) {
  int len;
  me->item = item;
  me->len = 0;
  for (;;) {
    pos = 0;
    env_statics_reset();
    if (setjmp(prune_jb) == 0)
      cur->run(item);
    if (pos < me->len)
      mc_internal("nondeterministic execution: used %d of %d choices",
                  pos, me->len);
    me->execs += 1;
    me->beat += 1;
    if ((unsigned long)pos > me->maxdepth)
      me->maxdepth = pos;
    len = me->len;
    while (len > 0 && me->choice[len - 1] + 1 >= me->width[len - 1])
      len -= 1;
    if (len == 0)
      break;
    me->choice[len - 1] += 1;
    me->len = len;
    if (sh->stop)
      _exit(0);
  }
  me->len = 0;
}

static void
redirect(int id) {
  char path[600];
  int fd;
  snprintf(path, sizeof(path), "%s/w%d.err", workdir, id);
  fd = open(path, O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0600);
  if (fd >= 0) {
    dup2(fd, 2);
    if (fd != 2)
      close(fd);
  }
}

static void
worker(int id) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  me = &sh->slot[id];
  worker_id = id;
  redirect(id);
  env_init();
  for (;;) {
    long item = __sync_fetch_and_add(&sh->next, 1);
    if (sh->stop || item >= sh->items)
      _exit(0);
    explore_item(item);
    __sync_fetch_and_add(&sh->items_done, 1);
  }
}

static double
now(void) {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec / 1e9;
}

static double
cpu_of(pid_t pid) {
  clockid_t c;
  struct timespec ts;
  if (clock_getcpuclockid(pid, &c) != 0 || clock_gettime(c, &ts) != 0)
    return 0;
  return ts.tv_sec + ts.tv_nsec / 1e9;
}

static void
jstr(FILE *f, const char *s) {
  fputc('"', f);
  for (; *s; s++) {
    unsigned char c = *s;
    if (c == '"' || c == '\\')
      fprintf(f, "\\%c", c);
    else if (c == '\n')
      fputs("\\n", f);
    else if (c < 32 || c > 126)
      fprintf(f, "\\u%04x", c);
    else
      fputc(c, f);
  }
  fputc('"', f);
}

static void
slurp(char *buf, size_t n, const char *path) {
  int fd = open(path, O_RDONLY);
  ssize_t r = 0;
  if (fd >= 0) {
    r = read(fd, buf, n - 1);
    close(fd);
  }
  if (r < 0)
    r = 0;
  buf[r] = 0;
}

static int
write_replay(const char *path, const struct slot *s, const char *msg) {
  FILE *f = fopen(path, "w");
  int i;
  if (f == NULL)
    return 0;
  fprintf(f, "property %s\npart %s\nthorough %d\nseed %u\nitem %ld\nchoices %d\n",
          cur->id, cur->name, mc_thorough, mc_seed, s->item, s->len);
  for (i = 0; i < s->len; i++)
    fprintf(f, "%d/%d ", s->choice[i], s->width[i]);
  fprintf(f, "\nmessage\n%s\n", msg);
  fclose(f);
  return 1;
}

/* Runs the execution in slot 0 of a private process. 1: failed again. */
static int
rerun(struct slot *s, int timeout, char *msg, size_t msgn, int verbose) {
  char path[600];
  pid_t pid;
  int st = 0;
  double t0 = now();
  static struct slot saved;
  struct slot *priv = &sh->slot[MAXW - 1];
  memcpy(&saved, s, sizeof(saved));
  memcpy(priv, &saved, sizeof(saved));
  priv->failed = 0;
  priv->msg[0] = 0;
  fflush(NULL);
  pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    me = priv;
    worker_id = MAXW - 1;
    if (!verbose)
      redirect(MAXW - 1);
    mc_verbose = verbose;
    replaying = 1;
    replay_len = priv->len;
    env_init();
    pos = 0;
    if (setjmp(prune_jb) == 0)
      cur->run(priv->item);
    _exit(0);
  }
  for (;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid)
      break;
    if (now() - t0 > timeout * 4 || cpu_of(pid) > timeout) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      snprintf(msg, msgn, "hang: a call does not return");
      return 1;
    }
    usleep(2000);
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
    return 0;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 42) {
    snprintf(msg, msgn, "%s", priv->msg);
    return 1;
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 43) {
    snprintf(msg, msgn, "%s", priv->msg);
    return 2;
  }
  snprintf(path, sizeof(path), "%s/w%d.err", workdir, MAXW - 1);
  {
    char err[6000] = "";
    if (!verbose)
      slurp(err, sizeof(err), path);
    if (WIFSIGNALED(st))
      snprintf(msg, msgn, "crash: signal %d\n%s", WTERMSIG(st), err);
    else
      snprintf(msg, msgn, "crash: exit %d\n%s", WEXITSTATUS(st), err);
  }
  return 1;
}

static const struct check *
find(const char *name, int prop) {
  int i;
  for (i = 0; mc_checks[i]; i++) {
    if (strcmp(prop ? mc_checks[i]->id : mc_checks[i]->name, name) == 0)
      return mc_checks[i];
  }
  return NULL;
}

static int
run_part(const char *json, const char *replaydir, int nworkers, double budget, long only) {
  pid_t pids[MAXW];
  unsigned long beat[MAXW];
  double beat_wall[MAXW], beat_cpu[MAXW];
  double t0 = now();
  int alive = 0, i, bad = -1, hang = 0, timeout_hit = 0;
  int wd = cur->watchdog ? cur->watchdog : 60;
  int result = 0;
  char msg[MSGN] = "";
  char rpath[700] = "";
  FILE *f;

  sh->items = cur->items();
  if (only >= 0) {
    sh->next = only;
    sh->items = only + 1;
  }
  if (nworkers > sh->items)
    nworkers = sh->items > 0 ? sh->items : 1;
  fflush(NULL);
  for (i = 0; i < nworkers; i++) {
    pids[i] = fork();
    if (pids[i] == 0)
      worker(i);
    beat[i] = 0;
    beat_wall[i] = now();
    beat_cpu[i] = 0;
    alive += 1;
  }
  while (alive > 0) {
    int st;
    pid_t r = waitpid(-1, &st, WNOHANG);
    if (r > 0) {
      for (i = 0; i < nworkers; i++)
        if (pids[i] == r)
          break;
      if (i == nworkers)
        continue;
      pids[i] = -1;
      alive -= 1;
      if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && bad < 0 && !(hang && WIFSIGNALED(st))
          && !sh->stop) {
        bad = i;
        if (!sh->slot[i].failed) {
          char path[600];
          char err[6000];
          snprintf(path, sizeof(path), "%s/w%d.err", workdir, i);
          slurp(err, sizeof(err), path);
          if (WIFSIGNALED(st))
            snprintf(sh->slot[i].msg, MSGN, "crash: signal %d\n%s", WTERMSIG(st), err);
          else
            snprintf(sh->slot[i].msg, MSGN, "crash: exit %d\n%s", WEXITSTATUS(st), err);
        }
        sh->stop = 1;
      }
      continue;
    }
    for (i = 0; i < nworkers; i++) {
      if (pids[i] < 0)
        continue;
      if (sh->slot[i].beat != beat[i]) {
        beat[i] = sh->slot[i].beat;
        beat_wall[i] = now();
        beat_cpu[i] = cpu_of(pids[i]);
      } else if (bad < 0 && !timeout_hit
                 && (cpu_of(pids[i]) - beat_cpu[i] > wd
                     || now() - beat_wall[i] > 4 * wd)) {
        hang = 1;
        bad = i;
        snprintf(sh->slot[i].msg, MSGN, "hang: a call does not return");
        sh->stop = 1;
      }
    }
    if (!sh->stop && now() - t0 > budget) {
      timeout_hit = 1;
      sh->stop = 1;
    }
    if (sh->stop) {
      /* Give the others a moment, then end them. */
      static double stop_t;
      if (stop_t == 0)
        stop_t = now();
      if (now() - stop_t > 1.0 || bad >= 0) {
        for (i = 0; i < nworkers; i++)
          if (pids[i] > 0)
            kill(pids[i], SIGKILL);
      }
    }
    usleep(alive ? 3000 : 0);
  }

  if (bad >= 0) {
    struct slot *s = &sh->slot[bad];
    char first[MSGN];
    snprintf(first, sizeof(first), "%s", s->msg);
    if (s->failed == 2) {
      fprintf(stderr, "INTERNAL ERROR part=%s item=%ld: %s\n", cur->name, s->item, first);
      result = 2;
      snprintf(msg, sizeof(msg), "%s", first);
    } else {
      int r = rerun(s, wd, msg, sizeof(msg), 0);
      if (r == 1) {
        result = 1;
      } else {
        fprintf(stderr, "INTERNAL ERROR part=%s item=%ld: not reproduced (%d): %s\n",
                cur->name, s->item, r, first);
        result = 2;
        snprintf(msg, sizeof(msg), "not reproduced: %s", first);
      }
      snprintf(rpath, sizeof(rpath), "%s/%s-%s.replay", replaydir, cur->id, cur->name);
      write_replay(rpath, s, result == 1 ? msg : first);
    }
  }

  f = fopen(json, "w");
  if (f != NULL) {
    unsigned long execs = 0, trans = 0, pruned = 0, depth = 0;
    unsigned long counters[MC_NCOUNTERS] = {0};
    int j, first = 1;
    for (i = 0; i < nworkers; i++) {
      execs += sh->slot[i].execs;
      trans += sh->slot[i].trans;
      pruned += sh->slot[i].pruned;
      if (sh->slot[i].maxdepth > depth)
        depth = sh->slot[i].maxdepth;
      for (j = 0; j < MC_NCOUNTERS; j++)
        counters[j] += sh->slot[i].counters[j];
    }
    fprintf(f, "{\"property\":\"%s\",\"part\":\"%s\",\"result\":%d,\"items\":%ld,"
               "\"items_done\":%lu,\"executions\":%lu,\"transitions\":%lu,"
               "\"states\":%lu,\"pruned\":%lu,\"max_choices\":%lu,\"complete\":%s,"
               "\"wall_s\":%.2f,\"workers\":%d,",
            cur->id, cur->name, result, (long)sh->items, sh->items_done, execs,
            trans, sh->nstates, pruned, depth,
            (!timeout_hit && bad < 0) ? "true" : "false", now() - t0, nworkers);
    fprintf(f, "\"space\":");
    jstr(f, cur->space);
    fprintf(f, ",\"counters\":{");
    for (j = 0; j < MC_NCOUNTERS; j++) {
      if (cur->counters[j] == NULL)
        continue;
      if (!first)
        fputc(',', f);
      first = 0;
      jstr(f, cur->counters[j]);
      fprintf(f, ":%lu", counters[j]);
    }
    fprintf(f, "},\"samples\":[");
    first = 1;
    for (i = 0; i < nworkers && i < 4; i++) {
      for (j = 0; j < sh->slot[i].nsamples; j++) {
        if (!first)
          fputc(',', f);
        first = 0;
        jstr(f, sh->slot[i].samples[j]);
      }
    }
    fprintf(f, "],\"message\":");
    jstr(f, msg);
    fprintf(f, ",\"replay\":");
    jstr(f, rpath);
    fprintf(f, "}\n");
    fclose(f);
  }
  return result;
}

static int
replay(const char *path) {
  FILE *f = fopen(path, "r");
  char word[64], name[128], id[32];
  int n, i, r;
  struct slot *s = &sh->slot[0];
  char msg[MSGN] = "";
  if (f == NULL) {
    fprintf(stderr, "cannot open %s\n", path);
    return 2;
  }
  if (fscanf(f, "property %31s part %127s thorough %d seed %u item %ld choices %d",
             id, name, &mc_thorough, &mc_seed, (long *)&s->item, &n) != 6) {
    fprintf(stderr, "bad replay file\n");
    return 2;
  }
  (void)word;
  for (i = 0; i < n; i++) {
    int a, b;
    if (fscanf(f, "%d/%d", &a, &b) != 2)
      return 2;
    s->choice[i] = a;
    s->width[i] = b;
  }
  s->len = n;
  fclose(f);
  cur = find(name, 0);
  if (cur == NULL) {
    fprintf(stderr, "no part %s in this flavour\n", name);
    return 2;
  }
  sh->items = cur->items();
  r = rerun(s, cur->watchdog ? cur->watchdog : 60, msg, sizeof(msg), 1);
  fprintf(stderr, "replay: %s %s\n", r == 1 ? "violation reproduced:" : r == 0 ? "no violation" : "internal:", msg);
  return r;
}

const char *__asan_default_options(void);
const char *
__asan_default_options(void) {
  return "detect_leaks=0:exitcode=99:detect_stack_use_after_return=0:"
         "allocator_may_return_null=1:print_summary=1:handle_abort=0:"
         "quarantine_size_mb=16:malloc_context_size=6:intercept_send=0";
}
const char *__ubsan_default_options(void);
const char *
__ubsan_default_options(void) {
  return "print_stacktrace=1:halt_on_error=1:exitcode=98";
}
const char *__msan_default_options(void);
const char *
__msan_default_options(void) {
  return "exitcode=97:halt_on_error=1";
}
const char *__tsan_default_options(void);
const char *
__tsan_default_options(void) {
  return "exitcode=96:halt_on_error=1:report_signal_unsafe=0:history_size=4:"
         "ignore_noninstrumented_modules=0:report_thread_leaks=0";
}

int
main(int argc, char **argv) {
  const char *part = NULL, *json = "/dev/null", *rdir = "/tmp", *rep = NULL;
  int nworkers = sysconf(_SC_NPROCESSORS_ONLN);
  double budget = 780;
  long only = -1;
  int i, list = 0;

  for (i = 1; i < argc; i++) {
    if (strcmp(argv[i], "--part") == 0) part = argv[++i];
    else if (strcmp(argv[i], "--json") == 0) json = argv[++i];
    else if (strcmp(argv[i], "--workdir") == 0) snprintf(workdir, sizeof(workdir), "%s", argv[++i]);
    else if (strcmp(argv[i], "--replaydir") == 0) rdir = argv[++i];
    else if (strcmp(argv[i], "--replay") == 0) rep = argv[++i];
    else if (strcmp(argv[i], "--thorough") == 0) mc_thorough = 1;
    else if (strcmp(argv[i], "--seed") == 0) mc_seed = atoi(argv[++i]);
    else if (strcmp(argv[i], "--workers") == 0) nworkers = atoi(argv[++i]);
    else if (strcmp(argv[i], "--budget") == 0) budget = atof(argv[++i]);
    else if (strcmp(argv[i], "--item") == 0) only = atol(argv[++i]);
    else if (strcmp(argv[i], "--list") == 0) list = 1;
    else { fprintf(stderr, "bad argument %s\n", argv[i]); return 2; }
  }
  if (nworkers > MAXW - 1)
    nworkers = MAXW - 1;
  if (list) {
    for (i = 0; mc_checks[i]; i++)
      printf("%s %s %d\n", mc_checks[i]->id, mc_checks[i]->name, mc_checks[i]->flavours);
    return 0;
  }
  sh = mmap(NULL, sizeof(*sh), PROT_READ | PROT_WRITE,
            MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  states = mmap(NULL, sizeof(uint64_t) << STATE_BITS, PROT_READ | PROT_WRITE,
                MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (sh == MAP_FAILED || states == MAP_FAILED) {
    perror("mmap");
    return 2;
  }
  if (rep)
    return replay(rep);
  if (part == NULL || (cur = find(part, 0)) == NULL) {
    fprintf(stderr, "no such part\n");
    return 2;
  }
  i = run_part(json, rdir, nworkers, budget, only);
  return i;
}
