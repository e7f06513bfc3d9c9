// Diagnostics: what the library prints, and whether printing changes anything; errors built and read through the API.
#include "model.hpp"
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

namespace {
// everything written to standard output and standard error ends in a file
struct Capture {
  int out, err, fd; Str path;
  explicit Capture (const Str & p) : path (p) { fflush (stdout); fflush (stderr); out = dup (1); err = dup (2); fd = open (p.c_str (), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600); if (out < 0 || err < 0 || fd < 0) { fprintf (stderr, "VHERROR no capture\n"); _exit (9); } dup2 (fd, 1); }
  void errors () { dup2 (fd, 2); }
  size_t done () { if (fd < 0) return 0; fflush (stdout); fflush (stderr); dup2 (out, 1); dup2 (err, 2); close (out); close (err); struct stat s; fstat (fd, &s); close (fd); fd = -1; return (size_t) s.st_size; }
  ~Capture () { done (); unlink (path.c_str ()); }
};
static bool run (Ctx & c, CaseFn f, uint64_t seed, Failure & why) {
  Ctx k; k.rng = Rng (seed); k.index = c.index; k.scratch = c.scratch; g_read = ReadPlan (); t_quiet = true; bool ok = true;
  try { f (k); } catch (Failure & x) { why = x; ok = false; }
  t_quiet = false; g_read = ReadPlan (); c.trace = k.trace; return ok;
}
}

MODE (log) {
  static const std::vector<const char *> plain = { "parse", "parse", "xmlspace", "malformed", "malformed", "filemem", "fuzzdoc", "dump", "escape", "edit", "attrs", "query", "copyeq", "annot", "pis", "hash", "list", "stack", "strings", "tokens", "dtd", "dtdattr", "dtdinfo", "fuzzdtd", "ns", "pool" };
  static const std::vector<const char *> coded = { "babel", "babel", "babelother", "utf8gate", "utf8func", "fuzzbabel" };
  Rng & r = c.rng; bool on = r.chance (1, 3); const char * m = r.pick (on ? coded : plain); uint64_t seed = r.u64 (); bool colour = r.chance (1, 3); CaseFn f = vh_find (m); if (!f) { fprintf (stderr, "VHERROR no mode %s\n", m); _exit (9); }
  c.note ("workload %s%s%s", m, on ? ", extension on" : "", colour ? ", colours" : ""); if (on) axl_babel_init (NULL);
  axl_log_enable (axl_false); axl_log_color_enable (axl_false); Failure a, b; Str text; size_t n = 0; bool quiet, loud;
  { Capture cap (c.path ("off.txt")); cap.errors (); quiet = run (c, f, seed, a); n = cap.done (); if (n) text = read_file (cap.path); }
  if (n || !quiet) { if (on) axl_babel_finish (); }
  CHECK (c, !n, "printed", "workload %s with the log disabled: %zu bytes written to the standard output or error: %s", m, n, vis (text, 200).c_str ());
  if (!quiet) { c.count ("set_aside"); c.distinct (seed); return; }       // the workload itself fails: not a matter of the log
  axl_log_enable (axl_true); axl_log_color_enable (colour ? axl_true : axl_false); bool told = axl_log_is_enabled () && !axl_log_color_is_enabled () == !colour;
  { Capture cap (c.path ("on.txt")); loud = run (c, f, seed, b); n = cap.done (); }
  axl_log_enable (axl_false); axl_log_color_enable (axl_false); if (on) axl_babel_finish ();
  CHECK (c, told && !axl_log_is_enabled () && !axl_log_color_is_enabled (), "state", "the log does not report how it was set");
  CHECK (c, loud, "log", "workload %s holds with the log disabled and fails with it enabled: %s: %s", m, b.key.c_str (), b.msg.c_str ());
  c.count (m); c.count ("log_bytes", n); if (n) c.count ("cases_logged"); c.distinct (seed); c.state ("workloads", hash_str (m)); if (c.index < 40) c.sample (fmt ("%s: %zu bytes of log", m, n));
}

MODE (errors) {
  Rng & r = c.rng; int code = r.chance (1, 8) ? 0 : r.chance (1, 2) ? r.range (-10, 10) : (int) r.u64 (); size_t len = r.chance (1, 6) ? (size_t) r.range (0, 20000) : (size_t) r.range (0, 60); Str msg; for (size_t i = 0; i < len; i++) { static const Str odd = "%sdn%\n<>&\"'\\\xc3\xa1 "; msg += r.chance (1, 3) ? odd[r.below ((uint32_t) odd.size ())] : (char) r.range ('a', 'z'); }
  std::unique_ptr<char[]> exact (new char[msg.size () + 1]); memcpy (exact.get (), msg.c_str (), msg.size () + 1); axlError * e = nullptr; unsigned how = r.below (4); c.note ("how %u code %d message %s", how, code, vis (msg, 100).c_str ());
  CHECK (c, axl_error_was_ok (NULL), "error", "no error reported as one"); CHECK (c, axl_error_get (NULL) && *axl_error_get (NULL), "error", "no text for no error");
  switch (how) {
  case 0: axl_error_new (code, exact.get (), NULL, &e); break;
  case 1: axl_error_report (&e, code, (char *) "%s", exact.get ()); break;
  case 2: axl_error_report (&e, code, (char *) "<%d|%s|%c|%s>", r.s & 1 ? 7 : 7, exact.get (), 'x', "tail"); msg = "<7|" + msg + "|x|tail>"; break;
  default: { Str doc = "<r>" + Str (r.below (60), 'y') + "</r>"; axlError * se = nullptr; axlStream * s = axl_stream_new (doc.c_str (), (int) doc.size (), NULL, -1, &se); CHECK (c, s, "setup", "no stream"); axl_stream_inspect (s, "<r", 2); axl_error_new (code, exact.get (), s, &e); axl_stream_free (s); } }
  CHECK (c, e && !axl_error_was_ok (e), "error", "an error reported as none"); CHECK (c, axl_error_get_code (e) == code, "error", "code %d, was created with %d", axl_error_get_code (e), code);
  const char * t = axl_error_get (e); CHECK (c, t, "error", "no text"); if (how < 3) CHECK (c, msg == t, "error", "text '%s', was created with '%s'", vis (t).c_str (), vis (msg).c_str ()); else CHECK (c, strstr (t, exact.get ()), "error", "text '%s' without the message '%s'", vis (t).c_str (), vis (msg).c_str ());
  axl_error_free (e); axl_error_free (NULL); axl_error_new (code, exact.get (), NULL, NULL); axl_error_report (NULL, code, (char *) "%s", exact.get ());
  c.count ("errors"); c.distinct (msg); if (c.index < 4) c.sample (vis (msg, 80));
}
