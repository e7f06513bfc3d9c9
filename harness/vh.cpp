#include "vh.hpp"
#include <cstdarg>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
#include <cerrno>
#include <atomic>
#include <dirent.h>
#include <unordered_set>

// ---------------------------------------------------------------- allocation monitor
// Every block the case allocates has to be released when the case is over.
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VH_ASAN 1
#endif
#endif
#ifdef VH_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks (void (*m) (const volatile void *, size_t), void (*f) (const volatile void *));
#endif
static thread_local bool g_track = false;
thread_local bool t_quiet = false;        // threads of a case do not touch the statistics: that would order them
static const size_t TBL = 1u << 22;
static uintptr_t * g_tbl = nullptr;
static size_t g_live = 0;
static uint64_t g_allocs = 0;
static inline size_t slot (uintptr_t p) { return (size_t) ((p >> 4) * 0x9E3779B97F4A7C15ULL >> 42); }
static void on_malloc (const volatile void * p, size_t) {
  if (!g_track || !p || !g_tbl || g_live > TBL / 2) return;
  size_t i = slot ((uintptr_t) p);
  while (g_tbl[i]) { if (g_tbl[i] == (uintptr_t) p) return; i = (i + 1) & (TBL - 1); }
  g_tbl[i] = (uintptr_t) p; g_live++; g_allocs++;
}
static void on_free (const volatile void * p) {
  if (!p || !g_tbl || !g_live) return;
  size_t i = slot ((uintptr_t) p);
  while (g_tbl[i] && g_tbl[i] != (uintptr_t) p) i = (i + 1) & (TBL - 1);
  if (!g_tbl[i]) return;
  g_live--;
  // backward-shift deletion
  size_t j = i;
  for (;;) {
    j = (j + 1) & (TBL - 1);
    if (!g_tbl[j]) break;
    size_t k = slot (g_tbl[j]);
    bool move = (i <= j) ? (k <= i || k > j) : (k <= i && k > j);
    if (move) { g_tbl[i] = g_tbl[j]; i = j; }
  }
  g_tbl[i] = 0;
}
static void track_init () {
#ifdef VH_ASAN
  g_tbl = (uintptr_t *) mmap (nullptr, TBL * sizeof (uintptr_t), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  __sanitizer_install_malloc_and_free_hooks (on_malloc, on_free);
#endif
}
static void track_clear () {
  if (g_tbl && g_live) memset (g_tbl, 0, TBL * sizeof (uintptr_t));
  g_live = 0;
}
Untracked::Untracked () { prev = g_track; g_track = false; }
Untracked::~Untracked () { g_track = prev; }

// ---------------------------------------------------------------- read() faults
thread_local ReadPlan g_read;
extern "C" ssize_t __real_read (int fd, void * buf, size_t n);
extern "C" ssize_t __wrap_read (int fd, void * buf, size_t n);
extern "C" ssize_t __wrap_read (int fd, void * buf, size_t n) {
  if (g_read.active) {
    g_read.calls++;
    if (g_read.fail_at >= 0 && (int) g_read.calls > g_read.fail_at) { g_read.failed++; errno = EIO; return -1; }
    if (!g_read.sizes.empty ()) {
      size_t want = (size_t) g_read.sizes[g_read.at++ % g_read.sizes.size ()];
      if (want && want < n) { n = want; g_read.shortened++; }
    }
  }
  return __real_read (fd, buf, n);
}

// ---------------------------------------------------------------- descriptors
// the library closes each descriptor it opens, once
static std::atomic<int> g_badclose (0);
extern "C" int __real_close (int fd);
extern "C" int __wrap_close (int fd);
extern "C" int __wrap_close (int fd) { int rc = __real_close (fd); if (rc < 0 && errno == EBADF) g_badclose++; return rc; }
static int free_fd () { int fd = open ("/dev/null", O_RDONLY); if (fd >= 0) __real_close (fd); return fd; }
template <class F> static auto with_fd0 (Ctx & c, F f) {
  bool low = !t_quiet && c.rng.chance (1, 5), was = low && fcntl (0, F_GETFD) >= 0;
  if (was) __real_close (0);
  auto d = f ();
  if (was) { bool left = fcntl (0, F_GETFD) >= 0; if (!left && open ("/dev/null", O_RDONLY) != 0) _exit (9); c.count ("through_descriptor_0"); if (left) c.fail ("descriptor", "a file is left open after it was parsed"); }
  return d;
}
axlDoc * doc_from_file (Ctx & c, const char * p, axlError ** e) { return with_fd0 (c, [&] { return axl_doc_parse_from_file (p, e); }); }
axlDtd * dtd_from_file (Ctx & c, const char * p, axlError ** e) { return with_fd0 (c, [&] { return axl_dtd_parse_from_file (p, e); }); }

// ---------------------------------------------------------------- events and statistics
static std::map<Str, uint64_t> g_count, g_max;
static std::unordered_set<uint64_t> g_distinct;
static std::map<Str, std::unordered_set<uint64_t>> g_states;
static std::vector<Str> g_samples;
static std::map<Str, CaseFn> & modes () { static std::map<Str, CaseFn> m; return m; }
CaseFn vh_find (const char * n) { auto i = modes ().find (n); return i == modes ().end () ? nullptr : i->second; }
void vh_register (const char * n, CaseFn f) { modes ()[n] = f; }

Str fmt (const char * f, ...) { char * s = nullptr; va_list a; va_start (a, f); if (vasprintf (&s, f, a) < 0) s = nullptr; va_end (a); Str r (s ? s : ""); free (s); return r; }
uint64_t hash_str (const Str & s, uint64_t h) { for (unsigned char ch : s) { h ^= ch; h *= 1099511628211ULL; } return h; }
Str vis (const Str & s, size_t max) {
  Str r;
  for (unsigned char ch : s) {
    if (ch < 32 || ch > 126 || ch == '\\') { char b[8]; snprintf (b, sizeof b, "\\x%02x", ch); r += b; } else r += (char) ch;
    if (r.size () > max) { r += fmt ("...(%zu bytes)", s.size ()); break; }
  }
  return r;
}
void Ctx::note (const char * f, ...) {
  char * s = nullptr; va_list a; va_start (a, f); if (vasprintf (&s, f, a) < 0) s = nullptr; va_end (a);
  if (s) { if (trace.size () < 200000) { trace += s; trace += "\n"; } if (verbose) fprintf (stderr, "  | %s\n", s); free (s); }
}
void Ctx::noteData (const char * label, const Str & d) { note ("%s (%zu bytes): %s", label, d.size (), vis (d, 3000).c_str ()); }
void Ctx::count (const char * n, uint64_t k) { if (t_quiet) return; Untracked u; g_count[n] += k; }
void Ctx::maxi (const char * n, uint64_t v) { if (t_quiet) return; Untracked u; uint64_t & m = g_max[n]; if (v > m) m = v; }
void Ctx::distinct (uint64_t h) { if (t_quiet) return; Untracked u; g_distinct.insert (h); }
void Ctx::distinct (const Str & s) { distinct (hash_str (s)); }
void Ctx::state (const char * set, uint64_t h) { if (t_quiet) return; Untracked u; g_states[set].insert (h); }
void Ctx::sample (const Str & s) { if (t_quiet) return; Untracked u; if (g_samples.size () < 3) g_samples.push_back (vis (s, 600)); }
void Ctx::fail (const char * key, const char * f, ...) {
  char * s = nullptr; va_list a; va_start (a, f); if (vasprintf (&s, f, a) < 0) s = nullptr; va_end (a);
  Failure x; x.key = key; x.msg = s ? s : ""; free (s);
  throw x;
}

void write_file (const Str & p, const Str & d) {
  Untracked u;
  int fd = open (p.c_str (), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  size_t at = 0;
  while (fd >= 0 && at < d.size ()) { ssize_t k = write (fd, d.data () + at, d.size () - at); if (k <= 0) break; at += (size_t) k; }
  if (fd < 0 || at != d.size ()) { fprintf (stderr, "VHERROR cannot write %s\n", p.c_str ()); _exit (9); }
  close (fd);
}
Str read_file (const Str & p) {
  Str r; char b[65536]; int fd = open (p.c_str (), O_RDONLY);
  if (fd < 0) return r;
  ssize_t k; while ((k = __real_read (fd, b, sizeof b)) > 0) r.append (b, (size_t) k);
  close (fd); return r;
}

static Str jesc (const Str & s) { Str r; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += (char) ch; } else if (ch < 32 || ch > 126) r += fmt ("\\u%04x", ch); else r += (char) ch; } return r; }
static void write_stats (const Str & out, uint64_t cases, uint64_t digests) {
  if (out.empty ()) return;
  FILE * f = fopen (out.c_str (), "w"); if (!f) return;
  fprintf (f, "{\"cases\": %llu, \"distinct\": [", (unsigned long long) cases);
  bool first = true; for (uint64_t h : g_distinct) { fprintf (f, "%s%llu", first ? "" : ",", (unsigned long long) (h >> 11)); first = false; }
  fprintf (f, "], \"counts\": {"); first = true;
  for (auto & k : g_count) { fprintf (f, "%s\"%s\": %llu", first ? "" : ", ", k.first.c_str (), (unsigned long long) k.second); first = false; }
  fprintf (f, "}, \"max\": {"); first = true;
  for (auto & k : g_max) { fprintf (f, "%s\"%s\": %llu", first ? "" : ", ", k.first.c_str (), (unsigned long long) k.second); first = false; }
  fprintf (f, "}, \"states\": {"); first = true;
  for (auto & k : g_states) {
    fprintf (f, "%s\"%s\": [", first ? "" : ", ", k.first.c_str ()); first = false;
    bool f2 = true; for (uint64_t h : k.second) { fprintf (f, "%s%llu", f2 ? "" : ",", (unsigned long long) h); f2 = false; }
    fprintf (f, "]");
  }
  fprintf (f, "}, \"allocs\": %llu, \"samples\": [", (unsigned long long) digests); first = true;
  for (auto & s : g_samples) { fprintf (f, "%s\"%s\"", first ? "" : ", ", jesc (s).c_str ()); first = false; }
  fprintf (f, "]}\n"); fclose (f);
}

// ---------------------------------------------------------------- main loop
static volatile uint64_t * g_status = nullptr;   // [0] current case, [1] finished cases
static Ctx * g_ctx = nullptr;
static void on_vtalrm (int) {
  static const char m[] = "VHHANG cpu limit of the case exceeded\n";
  if (write (2, m, sizeof m - 1) < 0) {}
  if (getenv ("VH_HANG_ABORT")) abort ();
  _exit (4);
}
static int g_cpu_limit = 20;
static void arm (int secs) { struct itimerval t; memset (&t, 0, sizeof t); t.it_value.tv_sec = secs; setitimer (ITIMER_VIRTUAL, &t, nullptr); }

// true: fine
static bool run_case (CaseFn fn, Ctx & c, uint64_t seed, uint64_t idx, bool mem, bool & leaked) {
  bool ok = true; leaked = false;
  { Untracked u; Str ().swap (c.trace); }
  c.index = idx;
  c.rng = Rng (seed * 0x9E3779B97F4A7C15ULL + idx * 0xD1342543DE82EF95ULL + 12345); c.rng.u64 (); c.rng.s ^= (idx << 32) ^ seed; c.rng.u64 ();
  g_read = ReadPlan ();
  track_clear ();
  arm (g_cpu_limit);
  bool failed = false; Failure keep; int low = mem ? free_fd () : -1; g_badclose = 0;
  g_track = mem;
  try { fn (c); } catch (Failure & x) { Untracked u; failed = true; keep = x; }
  { Untracked u; if (g_samples.empty () && !failed) c.sample (c.trace); Str ().swap (c.trace); g_read = ReadPlan (); }
  g_track = false;
  arm (0);
  if (mem && free_fd () != low) { fprintf (stderr, "VHFAIL descriptor :: a descriptor opened in the case is never closed\n"); return false; }
  if (mem && g_badclose) { fprintf (stderr, "VHFAIL close :: close() was called %d times with a descriptor that is not open\n", (int) g_badclose); return false; }
  if (failed) {
    if (mem) { c.count ("oracle_failures_ignored_in_memory_mode"); track_clear (); return true; }
    fprintf (stderr, "VHFAIL %s :: %s\n", keep.key.c_str (), keep.msg.c_str ());
    ok = false;
  } else if (mem && g_live) { leaked = true; fprintf (stderr, "note: %zu blocks still live\n", g_live); }
  return ok;
}

int main (int ac, char ** av) {
  Str mode, out, status, scratch = "/tmp"; uint64_t seed = 1, start = 0, n = 1; bool mem = false, verbose = false; long long only = -1; bool thorough = false, lsan = false;
  for (int i = 1; i < ac; i++) {
    Str a = av[i]; auto val = [&] () -> const char * { return i + 1 < ac ? av[++i] : ""; };
    if (a == "--mode") mode = val (); else if (a == "--seed") seed = strtoull (val (), 0, 10); else if (a == "--start") start = strtoull (val (), 0, 10);
    else if (a == "--cases") n = strtoull (val (), 0, 10); else if (a == "--out") out = val (); else if (a == "--status") status = val ();
    else if (a == "--scratch") scratch = val (); else if (a == "--mem") mem = true; else if (a == "--verbose") verbose = true; else if (a == "--lsan") lsan = true;
    else if (a == "--only") only = strtoll (val (), 0, 10); else if (a == "--thorough") thorough = true; else if (a == "--cpu") g_cpu_limit = atoi (val ());
    else if (a == "--list") { for (auto & m : modes ()) puts (m.first.c_str ()); return 0; }
    else { fprintf (stderr, "VHERROR bad argument %s\n", av[i]); return 9; }
  }
  auto it = modes ().find (mode);
  if (it == modes ().end ()) { fprintf (stderr, "VHERROR no mode %s\n", mode.c_str ()); return 9; }
  if (!status.empty ()) {
    int fd = open (status.c_str (), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate (fd, 16) < 0) { perror ("VHERROR status"); return 9; }
    g_status = (volatile uint64_t *) mmap (nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close (fd);
  }
  signal (SIGVTALRM, on_vtalrm);
  signal (SIGPIPE, SIG_IGN);
  track_init ();
  Ctx c; c.scratch = scratch; c.thorough = thorough; c.verbose = verbose; g_ctx = &c;
  axl_init ();
  CaseFn fn = it->second;
  if (only >= 0) { start = (uint64_t) only; n = 1; }
  int rc = 0; uint64_t done = 0;
  for (uint64_t k = start; k < start + n; k++) {
    if (g_status) g_status[0] = k;
    bool leaked = false;
    if (!run_case (fn, c, seed, k, mem, leaked)) { rc = 3; break; }
    if (leaked && !lsan) {
      bool again = false;
      run_case (fn, c, seed, k, mem, again);      // one-time allocations do not repeat
      if (again) { fprintf (stderr, "VHFAIL leak :: blocks of the case are never released\n"); rc = 3; break; }
      c.count ("one_time_allocations");
    }
    done++;
    if (g_status) g_status[1] = done;
  }
  axl_end ();
  write_stats (out, done, g_allocs);
  if (rc == 0) printf ("VHDONE %llu\n", (unsigned long long) done);
  fflush (stdout);
  if (!lsan) _exit (rc);
  { Untracked u; c.trace = Str (); }
  return rc;
}
