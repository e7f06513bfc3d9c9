// Core of the runtime-monitoring harness: seeded cases, oracles, event counters, allocation monitor.
#pragma once
extern "C" {
#include <axl.h>
#include <axl_ns.h>
#include <axl_babel.h>
}
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <functional>
#include <algorithm>
#include <utility>

typedef std::string Str;

struct Rng {
  uint64_t s;
  explicit Rng (uint64_t seed = 1) : s (seed) {}
  uint64_t u64 () {
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  uint32_t below (uint32_t n) { return n ? (uint32_t) (u64 () % n) : 0; }
  int range (int a, int b) { return a + (int) below ((uint32_t) (b - a + 1)); }
  bool chance (int p, int q) { return (int) below ((uint32_t) q) < p; }
  template <class T> const T & pick (const std::vector<T> & v) { return v[below ((uint32_t) v.size ())]; }
};

struct Failure { Str key; Str msg; };

// Suspends the allocation monitor: for state of the harness that outlives a case.
struct Untracked { Untracked (); ~Untracked (); bool prev; };

struct Ctx {
  Rng rng;
  uint64_t index = 0;       // number of the case
  bool thorough = false;
  bool verbose = false;
  Str scratch;              // scratch directory of this process
  // what identifies the case in reports: the last input or history
  Str trace;
  void note (const char * fmt, ...) __attribute__ ((format (printf, 2, 3)));
  void noteData (const char * label, const Str & data);
  // observed events
  void count (const char * name, uint64_t n = 1);
  void maxi (const char * name, uint64_t v);
  void distinct (uint64_t h);            // non-trivial case digest
  void distinct (const Str & s);
  void state (const char * set, uint64_t h);  // distinct states seen, per set
  void sample (const Str & s);
  [[noreturn]] void fail (const char * key, const char * fmt, ...) __attribute__ ((format (printf, 3, 4)));
  Str path (const char * name) { return scratch + "/" + name; }
};

#define CHECK(c, cond, key, ...) do { if (!(cond)) (c).fail (key, __VA_ARGS__); } while (0)

typedef void (*CaseFn) (Ctx &);
struct Mode { const char * name; CaseFn fn; };
void vh_register (const char * name, CaseFn fn);
struct Reg { Reg (const char * n, CaseFn f) { vh_register (n, f); } };
#define MODE(name) static void mode_##name (Ctx & c); static Reg reg_##name (#name, mode_##name); static void mode_##name (Ctx & c)

uint64_t hash_str (const Str & s, uint64_t h = 1469598103934665603ULL);
Str vis (const Str & s, size_t max = 400);      // printable form
inline Str vis (const char * s) { return s ? vis (Str (s)) : Str ("(null)"); }
Str fmt (const char * f, ...) __attribute__ ((format (printf, 1, 2)));

// fault injection on read(): limits how many bytes each read() on a library fd gives
struct ReadPlan { bool active = false; std::vector<int> sizes; size_t at = 0; int fail_at = -1; uint64_t calls = 0, failed = 0; uint64_t shortened = 0; };
extern thread_local ReadPlan g_read;
extern thread_local bool t_quiet;      // set in the threads of a case
Str vh_gen_dtd_text (Rng & r);
CaseFn vh_find (const char * name);
void write_file (const Str & path, const Str & data);
Str read_file (const Str & path);
// parse a file, now and then with descriptor 0 free, as in a daemon; what the library opened has to be closed again
axlDoc * doc_from_file (Ctx & c, const char * path, axlError ** e);
axlDtd * dtd_from_file (Ctx & c, const char * path, axlError ** e);
