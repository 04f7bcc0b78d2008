#include "engine.h"
#include "simmpi.h"
#include <fcntl.h>
#include <dirent.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>

#define MAXCHOICE (1 << 17)
#define NLABEL 192
#define NHASH (1 << 21)
#define NSAMPLE 6

enum { EX_OKAY = 0, EX_FAIL = 66, EX_INTERN = 67, EX_HANG = 68 };

struct Slot {                   /* one per child process at a time */
  volatile long idx;            /* case index in progress */
  volatile long done;           /* cases finished in this child */
  volatile int nchoice;
  volatile int overrun;
  int havemsg;
  char msg[6000];
  char desc[3000];
  uint64_t choice[MAXCHOICE];
};
struct Shared {
  std::atomic<long> evaluations, nontrivial, discarded, nhash, checks, nsample;
  std::atomic<int> lock;
  struct { char name[56]; long n; } label[NLABEL];
  uint64_t hash[NHASH];
  char sample[NSAMPLE][3000];
};
static Shared *G;
static Slot *slots;
static Slot *me;                /* this child's slot */

static struct {
  std::string prop, variant = "?", out, replaydir = ".", replay, scratch = "/tmp";
  uint64_t seed = 1;
  long cases = 100, first = 0;
  int workers = 8, batch = 48, percase = 25;
  double maxtime = 600, shrinktime = 25;
  bool thorough = false;
} O;

/* state of the case in progress */
static struct {
  bool replaying;
  std::vector<uint64_t> given;
  size_t pos;
  uint64_t rng;
  bool nontriv;
  std::vector<std::string> labels;
  std::string desc;
  uint64_t nchecks;
  char scratch[256];
} C;

struct Discard { };
static bool attempting;         /* in a child made by attempt: the exit status tells the outcome */
enum { AT_ABORT = 91, AT_CRASH, AT_FAIL, AT_HANG };

namespace eng {

uint64_t draw (uint64_t n) {
  if (n <= 1) return 0;
  uint64_t v;
  if (C.replaying) v = C.pos < C.given.size () ? C.given[C.pos] % n : 0;
  else {
    uint64_t z = (C.rng += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    z ^= z >> 31;
    v = (uint64_t) (((unsigned __int128) z * n) >> 64);
  }
  C.pos++;
  if (me->nchoice < MAXCHOICE) me->choice[me->nchoice++] = v; else me->overrun = 1;
  return v;
}
uint64_t draw64 () {
  int bits = (int) draw (65);
  if (bits == 0) return 0;
  if (bits <= 32) return draw (1ull << bits);
  uint64_t lo = draw (1ull << 32);
  uint64_t hi = bits == 64 ? draw (1ull << 32) : draw (1ull << (bits - 32));
  return lo | (hi << 32);
}
int weighted (std::initializer_list<int> w) {
  int tot = 0;
  for (int x : w) tot += x;
  int v = (int) draw (tot), i = 0;
  for (int x : w) { if (v < x) return i; v -= x; ++i; }
  return 0;
}
static void setmsg (const char *pre, const char *fmt, va_list ap) {
  if (me->havemsg) return;
  int n = snprintf (me->msg, sizeof me->msg, "%s", pre);
  vsnprintf (me->msg + n, sizeof me->msg - n, fmt, ap);
  snprintf (me->desc, sizeof me->desc, "%s", C.desc.c_str ());
  me->havemsg = 1;
}
void fail (const char *fmt, ...) {
  va_list ap; va_start (ap, fmt); setmsg ("", fmt, ap); va_end (ap);
  if (attempting) _exit (AT_FAIL);
  _exit (EX_FAIL);
}
void internal (const char *fmt, ...) {
  va_list ap; va_start (ap, fmt); setmsg ("internal: ", fmt, ap); va_end (ap);
  _exit (EX_INTERN);
}
void discard () { throw Discard (); }
void label (const char *fmt, ...) {
  char b[56]; va_list ap; va_start (ap, fmt); vsnprintf (b, sizeof b, fmt, ap); va_end (ap);
  for (auto & l : C.labels) if (l == b) return;
  C.labels.push_back (b);
}
void nontrivial () { C.nontriv = true; }
void describe (const char *fmt, ...) {
  char b[2000]; va_list ap; va_start (ap, fmt); vsnprintf (b, sizeof b, fmt, ap); va_end (ap);
  if (C.desc.size () < 2600) C.desc += b;
}
uint64_t checks (uint64_t n) { return C.nchecks += n; }
bool thorough () { return O.thorough; }
bool is_fuzz () { return false; }
const char *scratch () { return C.scratch; }
bool asan () { return O.variant == "asan"; }
}

extern "C" void sim_violation (const char *fmt, ...) {
  if (attempting && strstr (fmt, "aborts the program")) _exit (AT_ABORT);
  va_list ap; va_start (ap, fmt); eng::setmsg ("", fmt, ap); va_end (ap);
  if (attempting) _exit (AT_FAIL);
  _exit (EX_FAIL);
}
extern "C" void sim_internal (const char *fmt, ...) {
  va_list ap; va_start (ap, fmt); eng::setmsg ("internal: ", fmt, ap); va_end (ap);
  _exit (EX_INTERN);
}

/* messages logged by the library right before it aborts */
static char lastlog[1200];
extern "C" void engine_log (const char *s) {
  size_t n = strlen (lastlog), m = strlen (s);
  if (n + m + 2 > sizeof lastlog) return;
  memcpy (lastlog + n, s, m + 1);
  if (m && s[m - 1] == '\n') lastlog[n + m - 1] = ' ';
}

static void on_signal (int sig) {
  if (attempting) _exit (sig == SIGABRT ? AT_ABORT : sig == SIGPROF ? AT_HANG : AT_CRASH);
  if (sig == SIGPROF) {
    if (!me->havemsg) {
      snprintf (me->msg, sizeof me->msg, "no termination: the case used more than %d s of CPU time", O.percase);
      snprintf (me->desc, sizeof me->desc, "%s", C.desc.c_str ());
      me->havemsg = 1;
    }
    _exit (EX_HANG);
  }
  if (!me->havemsg) {
    snprintf (me->msg, sizeof me->msg, "crash: signal %d (%s) %s", sig, strsignal (sig), lastlog);
    snprintf (me->desc, sizeof me->desc, "%s", C.desc.c_str ());
    me->havemsg = 1;
  }
  _exit (EX_FAIL);
}
extern "C" void __asan_set_error_report_callback (void (*) (const char *)) __attribute__ ((weak));
extern "C" void __lsan_do_leak_check (void) __attribute__ ((weak));
static void on_asan (const char *rep) {
  if (attempting) _exit (AT_CRASH);
  if (me->havemsg) return;
  /* the headline and the first frames in p4est code */
  std::string t = "memory error: ";
  const char *e = strstr (rep, "ERROR: ");
  if (e) { const char *nl = strchr (e, '\n'); t.append (e + 7, nl ? nl - e - 7 : 80); }
  int k = 0;
  for (const char *p = rep; (p = strstr (p, " in ")) && k < 6; ++k) {
    p += 4;
    const char *nl = strchr (p, '\n');
    t += " | "; t.append (p, nl ? std::min<long> (nl - p, 160) : 80);
  }
  snprintf (me->msg, sizeof me->msg, "%s", t.c_str ());
  snprintf (me->desc, sizeof me->desc, "%s", C.desc.c_str ());
  me->havemsg = 1;
}

static void child_setup () {
  static char altstack[65536];
  stack_t ss; memset (&ss, 0, sizeof ss);
  ss.ss_sp = altstack; ss.ss_size = sizeof altstack;
  sigaltstack (&ss, nullptr);
  struct sigaction sa; memset (&sa, 0, sizeof sa);
  sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
  for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF, SIGTRAP }) sigaction (s, &sa, nullptr);
  if (__asan_set_error_report_callback) __asan_set_error_report_callback (on_asan);
  else {
    struct rlimit rl = { (rlim_t) 3 << 30, (rlim_t) 3 << 30 };
    setrlimit (RLIMIT_AS, &rl);
  }
  struct rlimit fs = { (rlim_t) 256 << 20, (rlim_t) 256 << 20 };
  setrlimit (RLIMIT_FSIZE, &fs);
  snprintf (C.scratch, sizeof C.scratch, "%s/w%d", O.scratch.c_str (), (int) getpid ());
  mkdir (C.scratch, 0700);
  if (chdir (C.scratch)) { }
  int dn = open ("/dev/null", O_RDWR);
  dup2 (dn, 0); dup2 (dn, 1); dup2 (dn, 2);
}
static void arm (int sec);
namespace eng {
Attempt attempt (const std::function<void ()> & fn) {
  fflush (nullptr);
  pid_t p = fork ();
  if (p < 0) internal ("fork");
  if (p == 0) { attempting = true; arm (O.percase); fn (); _exit (0); }
  int st;
  while (waitpid (p, &st, 0) < 0) if (errno != EINTR) internal ("waitpid");
  if (WIFEXITED (st) && WEXITSTATUS (st) == 0) return Attempt::RETURNED;
  if (WIFEXITED (st) && WEXITSTATUS (st) == AT_ABORT) return Attempt::ABORTED;
  if (WIFEXITED (st) && WEXITSTATUS (st) == AT_FAIL) _exit (EX_FAIL);   /* a violated check, its message is recorded */
  if (WIFEXITED (st) && WEXITSTATUS (st) == AT_HANG) return Attempt::HANGS;
  if (WIFSIGNALED (st) && WTERMSIG (st) == SIGKILL) internal ("a test process was killed (memory?)");
  return Attempt::CRASHED;
}
}
static void clean_at (int at, const char *d) { /* what is below a scratch directory; links are removed, not followed */
  int f = openat (at, d, O_RDONLY | O_DIRECTORY | O_NOFOLLOW);
  DIR *D = f >= 0 ? fdopendir (f) : nullptr;
  if (!D) { if (f >= 0) close (f); return; }
  while (struct dirent *e = readdir (D)) {
    if (!strcmp (e->d_name, ".") || !strcmp (e->d_name, "..")) continue;
    if (unlinkat (dirfd (D), e->d_name, 0) && (errno == EISDIR || errno == EPERM)) { clean_at (dirfd (D), e->d_name); unlinkat (dirfd (D), e->d_name, AT_REMOVEDIR); }
  }
  closedir (D);
}
static void clean_dir (const char *d) { clean_at (AT_FDCWD, d); }
void eng::fresh_scratch () { if (C.scratch[0] && chdir (C.scratch) == 0) clean_dir (C.scratch); }
static void arm (int sec) {
  struct itimerval it; memset (&it, 0, sizeof it);
  it.it_value.tv_sec = sec;
  setitimer (ITIMER_PROF, &it, nullptr);
}

static void run_case (long idx, const std::vector<uint64_t> *given) {
  me->idx = idx; me->nchoice = 0; me->overrun = 0;
  C.replaying = given != nullptr;
  if (given) C.given = *given;
  C.pos = 0;
  uint64_t h = eng::mix (O.seed, (uint64_t) idx);
  for (char c : O.prop) h = eng::mix (h, (uint64_t) c);
  C.rng = h;
  C.nontriv = false; C.labels.clear (); C.desc.clear (); C.nchecks = 0;
  lastlog[0] = 0;
  arm (O.percase);
  bool disc = false;
  try { prop_case (); }
  catch (Discard &) { disc = true; }
  arm (0);
  me->done++;
  if (given) return;
  G->evaluations++;
  G->checks += (long) C.nchecks;
  if (disc) { G->discarded++; return; }
  if (C.nontriv) {
    G->nontrivial++;
    uint64_t hh = 1;
    for (int i = 0; i < me->nchoice; ++i) hh = eng::mix (hh, me->choice[i]);
    long k = G->nhash++;
    if (k < NHASH) G->hash[k] = hh;
    if (G->nsample < NSAMPLE) {
      long s = G->nsample++;
      if (s < NSAMPLE) snprintf (G->sample[s], sizeof G->sample[s], "case %ld: %s", idx, C.desc.c_str ());
    }
  }
  for (auto & l : C.labels) {
    int e = 0;
    while (!G->lock.compare_exchange_weak (e, 1)) { e = 0; usleep (5); }
    for (int i = 0; i < NLABEL; ++i) {
      if (!G->label[i].name[0]) snprintf (G->label[i].name, sizeof G->label[i].name, "%s", l.c_str ());
      if (l == G->label[i].name) { G->label[i].n++; break; }
    }
    G->lock = 0;
  }
}

struct Outcome { int status = EX_OKAY; std::string msg, desc; std::vector<uint64_t> choice; long idx = -1; };

static double now () { struct timeval t; gettimeofday (&t, nullptr); return t.tv_sec + 1e-6 * t.tv_usec; }
static double T0;

static Outcome collect (int st, Slot *s) {
  Outcome o;
  if (WIFEXITED (st) && WEXITSTATUS (st) == 0) return o;
  o.idx = s->idx;
  o.choice.assign (s->choice, s->choice + s->nchoice);
  o.desc = s->desc;
  if (s->havemsg) o.msg = s->msg;
  if (WIFEXITED (st)) {
    int e = WEXITSTATUS (st);
    o.status = e == EX_INTERN ? EX_INTERN : e == EX_HANG ? EX_HANG : EX_FAIL;
    if (!s->havemsg) o.msg = "crash: process exited with status " + std::to_string (e);
  }
  else {
    o.status = EX_FAIL;
    if (!s->havemsg) o.msg = std::string ("crash: killed by signal ") + strsignal (WTERMSIG (st));
    if (WTERMSIG (st) == SIGKILL) { o.status = EX_INTERN; o.msg = "internal: a test process was killed (memory?)"; }
  }
  return o;
}
static void prep (Slot *s) { s->havemsg = 0; s->msg[0] = 0; s->desc[0] = 0; s->nchoice = 0; s->done = 0; s->idx = -1; }
static void reap_scratch (pid_t p) {
  char d[300]; snprintf (d, sizeof d, "%s/w%d", O.scratch.c_str (), (int) p);
  clean_dir (d); rmdir (d);
}
static pid_t spawn_batch (Slot *s, long from, long to) {
  prep (s);
  pid_t p = fork ();
  if (p) return p;
  me = s;
  child_setup ();
  if (prop_init) prop_init ();
  for (long i = from; i < to; ++i) { run_case (i, nullptr); }
  _exit (0);
}
static pid_t spawn_replay (Slot *s, const std::vector<uint64_t> & ch) {
  prep (s);
  pid_t p = fork ();
  if (p) return p;
  me = s;
  child_setup ();
  if (prop_init) prop_init ();
  run_case (-1, &ch);
  _exit (0);
}
/* run all candidates in parallel, stop at the first (lowest index) failing one */
static int try_many (const std::vector<std::vector<uint64_t>> & cand, Outcome & res) {
  size_t n = cand.size (), next = 0;
  std::vector<pid_t> pid (O.workers, 0);
  std::vector<size_t> which (O.workers, 0);
  int best = -1; size_t running = 0;
  while (running || (next < n && best < 0)) {
    for (int w = 0; w < O.workers && best < 0 && next < n; ++w)
      if (!pid[w]) { pid[w] = spawn_replay (&slots[w], cand[next]); which[w] = next++; running++; }
    int st; pid_t p = waitpid (-1, &st, 0);
    for (int w = 0; w < O.workers; ++w) if (pid[w] == p) {
      pid[w] = 0; running--;
      reap_scratch (p);
      Outcome o = collect (st, &slots[w]);
      if (o.status == EX_FAIL && (best < 0 || (int) which[w] < best)) { best = (int) which[w]; res = o; }
    }
  }
  return best;
}
static bool smaller (const std::vector<uint64_t> & a, const std::vector<uint64_t> & b) {
  if (a.size () != b.size ()) return a.size () < b.size ();
  return a < b;
}
static Outcome shrink (Outcome cur) {
  double end = now () + O.shrinktime;
  bool improved = true;
  auto attempt = [&] (std::vector<std::vector<uint64_t>> & cand) {
    std::vector<std::vector<uint64_t>> c2;
    for (auto & c : cand) if (smaller (c, cur.choice)) c2.push_back (c);
    cand.clear ();
    if (c2.empty ()) return false;
    Outcome o;
    int k = try_many (c2, o);
    if (k < 0) return false;
    if (!smaller (o.choice, cur.choice)) o.choice = c2[k];
    cur = o;
    return true;
  };
  while (improved && now () < end) {
    improved = false;
    /* delete chunks */
    for (size_t len = std::max<size_t> (1, cur.choice.size () / 2); len >= 1 && now () < end; len /= 2) {
      for (size_t at = 0; at < cur.choice.size () && now () < end;) {
        std::vector<std::vector<uint64_t>> cand;
        size_t a = at;
        for (int k = 0; k < O.workers && a < cur.choice.size (); ++k, a += len) {
          auto c = cur.choice; size_t e = std::min (c.size (), a + len);
          c.erase (c.begin () + a, c.begin () + e);
          cand.push_back (c);
        }
        if (attempt (cand)) improved = true; else at = a;
      }
      if (len == 1) break;
    }
    /* zero blocks and single values, then bisect values */
    for (size_t len : { (size_t) 8, (size_t) 1 })
      for (size_t at = 0; at < cur.choice.size () && now () < end;) {
        std::vector<std::vector<uint64_t>> cand;
        size_t a = at;
        for (int k = 0; k < O.workers && a < cur.choice.size (); ++k, a += len) {
          auto c = cur.choice;
          for (size_t i = a; i < std::min (c.size (), a + len); ++i) c[i] = 0;
          cand.push_back (c);
        }
        if (attempt (cand)) improved = true; else at = a;
      }
    for (size_t at = 0; at < cur.choice.size () && now () < end; ++at) {
      uint64_t v = cur.choice[at];
      if (v == 0) continue;
      std::vector<std::vector<uint64_t>> cand;
      for (uint64_t w : { v / 2, v - v / 4, v - 1 }) if (w < v) { auto c = cur.choice; c[at] = w; cand.push_back (c); }
      if (attempt (cand)) improved = true;
    }
  }
  return cur;
}

static std::string jstr (const std::string & s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf (b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char) c;
  }
  return o + "\"";
}

static std::string write_replay (const Outcome & o, const char *mode, long from, long to) {
  uint64_t h = 7;
  for (auto v : o.choice) h = eng::mix (h, v);
  char fn[512];
  mkdir (O.replaydir.c_str (), 0755);
  snprintf (fn, sizeof fn, "%s/%s-%s-%08lx.txt", O.replaydir.c_str (), O.prop.c_str (), O.variant.c_str (), (unsigned long) (h & 0xffffffff));
  FILE *f = fopen (fn, "w");
  if (!f) return fn;
  fprintf (f, "property %s\nvariant %s\nmode %s\nseed %llu\nfrom %ld\nto %ld\nchoices", O.prop.c_str (), O.variant.c_str (), mode,
           (unsigned long long) O.seed, from, to);
  for (auto v : o.choice) fprintf (f, " %llu", (unsigned long long) v);
  fprintf (f, "\n# %s\n", o.msg.c_str ());
  std::string d = o.desc;
  std::replace (d.begin (), d.end (), '\n', ' ');
  fprintf (f, "# case: %s\n", d.c_str ());
  fclose (f);
  return fn;
}

static void write_stats (const std::string & status, const std::string & replay, const Outcome *o) {
  if (O.out.empty ()) return;
  FILE *f = fopen (O.out.c_str (), "w");
  if (!f) return;
  std::set<uint64_t> d (G->hash, G->hash + std::min<long> (G->nhash, NHASH));
  fprintf (f, "{\"variant\": %s, \"status\": %s, \"evaluations\": %ld, \"nontrivial\": %ld, \"distinct_nontrivial\": %zu, \"discarded\": %ld, \"checks\": %ld, \"requested\": %ld, \"wall_s\": %.2f,\n",
           jstr (O.variant).c_str (), jstr (status).c_str (), G->evaluations.load (), G->nontrivial.load (), d.size (),
           G->discarded.load (), G->checks.load (), O.cases, now () - T0);
  fprintf (f, "\"labels\": {");
  std::map<std::string, long> lab;
  for (int i = 0; i < NLABEL && G->label[i].name[0]; ++i) lab[G->label[i].name] += G->label[i].n;
  bool c = false;
  for (auto & l : lab) { fprintf (f, "%s%s: %ld", c ? ", " : "", jstr (l.first).c_str (), l.second); c = true; }
  fprintf (f, "},\n\"samples\": [");
  for (int i = 0; i < std::min<long> (G->nsample, NSAMPLE); ++i) fprintf (f, "%s%s", i ? ",\n" : "", jstr (G->sample[i]).c_str ());
  fprintf (f, "]");
  if (o) fprintf (f, ",\n\"replay\": %s, \"message\": %s, \"case\": %s", jstr (replay).c_str (), jstr (o->msg).c_str (), jstr (o->desc).c_str ());
  fprintf (f, "}\n");
  fclose (f);
}

static int do_replay () {
  FILE *f = fopen (O.replay.c_str (), "r");
  if (!f) { fprintf (stderr, "cannot read %s\n", O.replay.c_str ()); return 2; }
  std::vector<uint64_t> ch;
  char key[64], mode[32] = "case";
  long from = 0, to = 0;
  while (fscanf (f, "%63s", key) == 1) {
    if (!strcmp (key, "mode")) { if (fscanf (f, "%31s", mode) != 1) break; }
    else if (!strcmp (key, "seed")) { unsigned long long s; if (fscanf (f, "%llu", &s) != 1) break; O.seed = s; }
    else if (!strcmp (key, "from")) { if (fscanf (f, "%ld", &from) != 1) break; }
    else if (!strcmp (key, "to")) { if (fscanf (f, "%ld", &to) != 1) break; }
    else if (!strcmp (key, "choices")) { unsigned long long v; while (fscanf (f, "%llu", &v) == 1) ch.push_back (v); break; }
    else if (fscanf (f, "%63s", key) != 1) break;
  }
  fclose (f);
  pid_t p = !strcmp (mode, "range") ? spawn_batch (&slots[0], from, to) : spawn_replay (&slots[0], ch);
  int st; waitpid (p, &st, 0);
  reap_scratch (p);
  Outcome o = collect (st, &slots[0]);
  if (o.status == EX_OKAY) { printf ("PASS\n"); return 0; }
  printf ("FAIL %s\ncase: %s\n", o.msg.c_str (), o.desc.c_str ());
  return o.status == EX_INTERN ? 2 : 1;
}

int main (int argc, char **argv) {
  T0 = now ();
  if (!getenv ("ENG_NOASLR")) {
    int pers = personality (0xffffffff);
    setenv ("ENG_NOASLR", "1", 1);
    if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && personality (pers | ADDR_NO_RANDOMIZE) >= 0) execv ("/proc/self/exe", argv);
  }
  O.prop = prop_id;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--seed") O.seed = strtoull (v.c_str (), nullptr, 10);
    else if (a == "--cases") O.cases = atol (v.c_str ());
    else if (a == "--first") O.first = atol (v.c_str ());
    else if (a == "--workers") O.workers = atoi (v.c_str ());
    else if (a == "--batch") O.batch = atoi (v.c_str ());
    else if (a == "--variant") O.variant = v;
    else if (a == "--out") O.out = v;
    else if (a == "--replaydir") O.replaydir = v;
    else if (a == "--replay") O.replay = v;
    else if (a == "--scratch") O.scratch = v;
    else if (a == "--maxtime") O.maxtime = atof (v.c_str ());
    else if (a == "--shrinktime") O.shrinktime = atof (v.c_str ());
    else if (a == "--percase") O.percase = atoi (v.c_str ());
    else if (a == "--tier") O.thorough = v == "thorough";
    else { fprintf (stderr, "unknown option %s\n", a.c_str ()); return 2; }
  }
  size_t sz = sizeof (Slot) * (O.workers + 1);
  slots = (Slot *) mmap (nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  G = (Shared *) mmap (nullptr, sizeof (Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (slots == MAP_FAILED || G == MAP_FAILED) { fprintf (stderr, "mmap failed\n"); return 2; }
  if (!O.replay.empty ()) return do_replay ();

  long next = O.first, end = O.first + O.cases;
  struct Run { pid_t pid = 0; long from = 0, to = 0; };
  std::vector<Run> run (O.workers);
  bool have = false, stopped = false; Outcome bad; long bfrom = 0, bto = 0;
  int running = 0;
  std::vector<std::string> notes;
  for (;;) {
    if (now () - T0 > O.maxtime) stopped = true;
    for (int w = 0; w < O.workers; ++w)
      if (!run[w].pid && !have && !stopped && next < end) {
        run[w].from = next; run[w].to = std::min (end, next + O.batch); next = run[w].to;
        run[w].pid = spawn_batch (&slots[w], run[w].from, run[w].to);
        running++;
      }
    if (!running) break;
    int st; pid_t p = waitpid (-1, &st, 0);
    if (p < 0) break;
    for (int w = 0; w < O.workers; ++w) if (run[w].pid == p) {
      run[w].pid = 0; running--;
      reap_scratch (p);
      Outcome o = collect (st, &slots[w]);
      if (o.status == EX_OKAY || have) continue;
      if (o.status == EX_INTERN) {
        fprintf (stderr, "%s: %s\ncase %ld: %s\n", O.prop.c_str (), o.msg.c_str (), o.idx, o.desc.c_str ());
        for (auto & r : run) if (r.pid) { kill (r.pid, SIGKILL); waitpid (r.pid, &st, 0); reap_scratch (r.pid); }
        write_stats ("internal", "", &o);
        return 2;
      }
      if (!have) {
        have = true; bad = o; bfrom = run[w].from; bto = o.idx + 1;
        for (auto & r : run) if (r.pid) kill (r.pid, SIGKILL);
      }
    }
  }
  if (!have) { write_stats (stopped && next < end ? "time limit" : "ok", "", nullptr); return 0; }

  /* confirm, shrink, confirm */
  fprintf (stderr, "%s/%s: case %ld failed: %s\n", O.prop.c_str (), O.variant.c_str (), bad.idx, bad.msg.c_str ());
  auto confirm = [&] (const std::vector<uint64_t> & ch) {
    int n = 0; Outcome last;
    std::vector<pid_t> pp;
    for (int i = 0; i < 3; ++i) {
      pid_t p = spawn_replay (&slots[0], ch);
      int st; waitpid (p, &st, 0); reap_scratch (p);
      Outcome o = collect (st, &slots[0]);
      if (o.status == EX_FAIL || o.status == EX_HANG) { n++; last = o; }
      else break;
    }
    return n == 3;
  };
  std::string rep;
  if (confirm (bad.choice)) {
    Outcome s = bad;
    if (bad.status == EX_FAIL) {
      s = shrink (bad);
      if (!confirm (s.choice)) s = bad;
    }
    rep = write_replay (s, "case", bfrom, bto);
    bad = s;
  }
  else {
    /* depends on earlier cases of the same process: replay the batch */
    int n = 0;
    for (int i = 0; i < 3; ++i) {
      pid_t p = spawn_batch (&slots[0], bfrom, bto);
      int st; waitpid (p, &st, 0); reap_scratch (p);
      Outcome o = collect (st, &slots[0]);
      if (o.status == EX_FAIL || o.status == EX_HANG) n++;
    }
    if (n == 3) rep = write_replay (bad, "range", bfrom, bto);
    else {
      fprintf (stderr, "%s/%s: the failure does not reproduce (%d of 3)\n", O.prop.c_str (), O.variant.c_str (), n);
      write_stats ("unreproducible", "", &bad);
      return 3;
    }
  }
  write_stats ("violation", rep, &bad);
  printf ("%s\n", rep.c_str ());
  return 1;
}
