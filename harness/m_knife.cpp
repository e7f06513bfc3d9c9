// The command line tool, run as a process: exit status, messages, output and the files it leaves, compared with
// what the library and the model say about the same file. The tool is built with the sanitizers.
#include "model.hpp"
#include <fcntl.h>
#include <signal.h>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace {
struct Run { int rc = -1; bool signalled = false; Str out, err; };
static Str cmdline (const std::vector<Str> & a) { Str s = "axl-knife"; for (auto & x : a) s += " " + vis (x, 120); return s; }
static Run knife (Ctx & c, const std::vector<Str> & args, const char * out_to = nullptr) {
  const char * exe = getenv ("VH_KNIFE"); if (!exe) { fprintf (stderr, "VHERROR VH_KNIFE is not set\n"); _exit (9); }
  const char * asan = getenv ("VH_KNIFE_ASAN"); Str aenv = Str ("ASAN_OPTIONS=") + (asan ? asan : "detect_leaks=0:exitcode=97");
  Str po = c.path ("knife.out"), pe = c.path ("knife.err"); unlink (po.c_str ()); unlink (pe.c_str ());
  c.note ("run: %s%s%s", cmdline (args).c_str (), out_to ? " > " : "", out_to ? out_to : "");
  std::vector<char *> av; av.push_back ((char *) "axl-knife"); for (auto & a : args) av.push_back ((char *) a.c_str ()); av.push_back (nullptr);
  char * env[] = { (char *) aenv.c_str (), (char *) "UBSAN_OPTIONS=print_stacktrace=1:halt_on_error=1:exitcode=97", (char *) "LC_ALL=C", nullptr };
  posix_spawn_file_actions_t fa; posix_spawn_file_actions_init (&fa);
  posix_spawn_file_actions_addopen (&fa, 0, "/dev/null", O_RDONLY, 0); posix_spawn_file_actions_addopen (&fa, 1, out_to ? out_to : po.c_str (), O_WRONLY | O_CREAT | O_TRUNC, 0600); posix_spawn_file_actions_addopen (&fa, 2, pe.c_str (), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  posix_spawn_file_actions_addchdir_np (&fa, c.scratch.c_str ());
  pid_t pid = 0; int e = posix_spawn (&pid, exe, &fa, nullptr, av.data (), env); posix_spawn_file_actions_destroy (&fa);
  if (e) { fprintf (stderr, "VHERROR spawn: %s\n", strerror (e)); _exit (9); }
  int st = 0; struct timespec nap = { 0, 500000 }; int turns = 0;
  // a tool that does not end is a failure of its own; the limit is far above what any case takes
  while (waitpid (pid, &st, WNOHANG) == 0) { nanosleep (&nap, nullptr); if (++turns > 80000) { kill (pid, SIGKILL); waitpid (pid, &st, 0); c.fail ("hang", "the tool does not end: %s", cmdline (args).c_str ()); } }
  Run r; r.signalled = WIFSIGNALED (st); r.rc = WIFEXITED (st) ? WEXITSTATUS (st) : -WTERMSIG (st); r.out = out_to ? "" : read_file (po); r.err = read_file (pe); c.count ("runs"); c.count (r.rc == 0 ? "exit_success" : "exit_failure");
  unlink (po.c_str ()); unlink (pe.c_str ());
  c.note ("-> %d, %zu bytes of output, messages: %s", r.rc, r.out.size (), vis (r.err, 300).c_str ());
  if (r.signalled || r.rc == 97 || r.err.find ("Sanitizer") != Str::npos || r.err.find ("runtime error") != Str::npos) { size_t p = r.err.find ("ERROR: "); if (p == Str::npos) p = r.err.find ("runtime error"); c.fail ("crash", "the tool crashes (%d): %s: %s", r.rc, cmdline (args).c_str (), vis (p == Str::npos ? r.err : r.err.substr (p), 900).c_str ()); }
  return r;
}
static bool failed_with_message (const Run & r) { return r.rc != 0 && (!r.err.empty () || !r.out.empty ()); }
static Str decode (Str s) {
  for (auto t : { "<span class=\"node\">", "<span class=\"attrvalue\">", "<span class=\"comment\">", "<span class=\"cdata\">", "</span>" }) { size_t p = 0, n = strlen (t); while ((p = s.find (t, p)) != Str::npos) s.erase (p, n); }
  return s;
}
static Str plain (const Str & s0) { Str s, o; for (size_t i = 0; i < s0.size (); i++) if (s0.compare (i, 4, "&lt;") == 0) { s += '<'; i += 3; } else if (s0.compare (i, 4, "&gt;") == 0) { s += '>'; i += 3; } else s += s0[i]; for (char ch : s) if (!is_ws (ch)) o += ch; return o; }
// what the page shows: all of the document but the instructions; white space is layout
static void shown (const MNode & m, axlNode * n, Str & o) {
  o += "<" + m.name;
  std::map<Str, Str> at (m.attrs.begin (), m.attrs.end ()); axlAttrCursor * cu = axl_node_attr_cursor_new (n); for (axl_node_attr_cursor_first (cu); axl_node_attr_cursor_has_item (cu); axl_node_attr_cursor_next (cu)) { Str k = axl_node_attr_cursor_get_key (cu); o += " " + k + "=\"" + at[k] + "\""; } axl_node_attr_cursor_free (cu);
  if (m.items.empty ()) { o += "/>"; return; }
  o += ">"; axlNode * k = axl_node_get_first_child (n);
  for (auto & i : m.items) switch (i.k) {
    case K_ELEM: shown (*i.node, k, o); k = axl_node_get_next (k); break; case K_TEXT: o += i.text; break; case K_CDATA: o += "<![CDATA[" + i.text + "]]>"; break; case K_COMMENT: o += "<!--" + i.text + "-->"; break; case K_PI: break; }
  o += "</" + m.name + ">";
}
static void set_mtime (const Str & p, long sec, long nsec) { struct timespec t[2]; t[0].tv_sec = t[1].tv_sec = sec; t[0].tv_nsec = t[1].tv_nsec = nsec; utimensat (AT_FDCWD, p.c_str (), t, 0); }
// the value of the macro the header defines
static bool c_macro (const Str & h, const Str & name, Str & v) {
  Str t; for (size_t i = 0; i < h.size (); i++) if (h[i] == '\\' && i + 1 < h.size () && h[i + 1] == '\n') i++; else t += h[i];
  Str d = "\n#define " + name + " \""; size_t p = t.find (d); if (p == Str::npos) return false; v.clear ();
  for (p += d.size (); p < t.size () && t[p] != '"' && t[p] != '\n'; p++) if (t[p] == '\\') { p++; switch (t[p]) { case 'n': v += '\n'; break; case '\\': case '"': case '\'': case '?': v += t[p]; break; case 't': v += '\t'; break; default: return false; } } else v += t[p];
  return p < t.size () && t[p] == '"';
}
static void opt (Rng & r, std::vector<Str> & a, const char * l, const char * s) { a.push_back (s && r.chance (1, 2) ? Str ("-") + s : Str ("--") + l); }
static void with_input (Rng & r, std::vector<Str> & a, const Str & f) { opt (r, a, "input", "i"); a.push_back (f); }
static void shuffle (Rng & r, std::vector<std::vector<Str>> & g, std::vector<Str> & a) { for (size_t i = g.size (); i > 1; i--) std::swap (g[i - 1], g[r.below ((uint32_t) i)]); for (auto & x : g) a.insert (a.end (), x.begin (), x.end ()); }
static std::vector<Str> one (Rng & r, const char * l, const char * s) { std::vector<Str> a; opt (r, a, l, s); return a; }
static std::vector<Str> two (Rng & r, const char * l, const char * s, const Str & v) { std::vector<Str> a; opt (r, a, l, s); a.push_back (v); return a; }
static const std::vector<Str> DICT = { "<", ">", "</", "/>", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "&", "\"", "'", "=", "<a>", "</a>", "<!DOCTYPE ", "%s", "%n" };
}

MODE (knife) {
  Rng & r = c.rng; GenCfg g; g.bigText = r.chance (1, 10); g.maxNodes = 25; g.unicode = r.chance (1, 2); unsigned kind = r.below (16);
  static const char * names[] = { "in.xml", "sub-dir.d/doc.one.xml", "a-b.c", "file%s", "x" }; Str file = names[r.below (5)]; mkdir (c.path ("sub-dir.d").c_str (), 0700); Str path = c.path (file.c_str ()); Str arg = r.chance (1, 3) ? path : file;
  Str outn = r.chance (1, 2) ? "out.html" : c.path ("out.html"), outp = c.path ("out.html"); unlink (outp.c_str ());
  struct Clean { Str a, b; ~Clean () { unlink (a.c_str ()); unlink (b.c_str ()); } } clean { path, outp };
  std::vector<std::vector<Str>> gr; std::vector<Str> a;
  if (kind < 4) {   // check a document
    MP m = gen_tree (r, g); SerCfg s; Str text = serialize_doc (r, *m, s).text; bool wf = true; const char * what = "well_formed";
    if (kind >= 2) { wf = false; switch (r.below (5)) { case 0: text.resize (r.below ((uint32_t) text.size ())); what = "truncated"; break; case 1: text = mutate_bytes (r, text, DICT); what = "mutated"; break; case 2: { text = "<a>" + text + "</b>"; what = "malformed"; break; } case 3: text = ""; for (int i = r.range (0, 50); i > 0; i--) text += r.chance (1, 2) ? Str (1, (char) r.below (256)) : r.pick (DICT); what = "bytes"; break; default: { static const char * bad[] = { "<a", "<a><b></a></b>", "<a b='1' b='2'/>", "text", "", " ", "<a>", "<?xml version='1.0'?>", "<a x=1/>" }; text = bad[r.below (9)]; what = "malformed"; } } }
    write_file (path, text); c.noteData ("file", text); gr = { one (r, "check-xml", "c"), two (r, "input", "i", arg) }; if (r.chance (1, 8)) gr.push_back (one (r, "enable-log", "l")); if (r.chance (1, 12)) gr.push_back (one (r, "enable-log-color", "g")); shuffle (r, gr, a);
    axlError * e = nullptr; bool lib; { DocHold d (axl_doc_parse_from_file (path.c_str (), &e)); lib = d.d != nullptr; } Str le = err_take (e); Run x = knife (c, a);
    if (wf) CHECK (c, lib, "setup", "the library rejects it: %s", le.c_str ()); if (!strcmp (what, "malformed")) CHECK (c, !lib, "setup", "the library accepts %s", vis (text).c_str ());
    CHECK (c, (x.rc == 0) == lib, "verdict", "the tool %s a document the library %s: %s", x.rc ? "rejects" : "accepts", lib ? "accepts" : "rejects", vis (text).c_str ()); CHECK (c, x.err.find ("document is OK") != Str::npos ? lib : !lib, "message", "the tool says %s about a document the library %s", vis (x.err).c_str (), lib ? "accepts" : "rejects"); CHECK (c, lib || failed_with_message (x), "message", "rejected without a message");
    CHECK (c, read_file (path) == text, "input", "checking changed the file"); c.count (what); c.count (lib ? "accepted" : "rejected"); c.distinct (text); if (c.index < 40) c.sample (cmdline (a) + fmt (" -> %d for ", x.rc) + vis (text, 200)); return;
  }
  if (kind < 10) {   // show it in a page
    MP m = gen_tree (r, g); SerCfg s; Str text = serialize_doc (r, *m, s).text; bool cut = r.chance (1, 6); if (cut) text.resize (text.size () > 3 ? r.below ((uint32_t) text.size () - 2) : 0); write_file (path, text); c.noteData ("file", text); gr = { one (r, "htmlize", "e"), two (r, "input", "i", arg) }; bool skip = r.chance (1, 3), toFile = r.chance (1, 2); Str cls; if (skip) gr.push_back (one (r, "htmlize-skip-first-enter-for-content", "r")); if (toFile) gr.push_back (two (r, "output", "o", outn)); if (r.chance (1, 3)) { cls = r.chance (1, 2) ? "xml-doc" : "a b%d"; gr.push_back (two (r, "pre-class", "p", cls)); }
    Str old = "old contents"; if (toFile && r.chance (1, 2)) write_file (outp, old); shuffle (r, gr, a); axlError * e = nullptr; DocHold d (axl_doc_parse_from_file (path.c_str (), &e)); err_take (e); Run x = knife (c, a); CHECK (c, read_file (path) == text, "input", "showing changed the file");
    if (!d.d) { CHECK (c, failed_with_message (x), "verdict", "success (%d) for a file the library rejects: %s", x.rc, vis (text).c_str ()); c.count ("html_rejected"); return; }
    CHECK (c, x.rc == 0, "verdict", "exit status %d for a document the library accepts: %s", x.rc, vis (x.err).c_str ()); Str page = toFile ? read_file (outp) : x.out; if (toFile) CHECK (c, x.out.empty (), "output", "output besides the file: %s", vis (x.out).c_str ());
    Str open = cls.empty () ? Str ("<pre>") : "<pre class='" + cls + "'>"; Str q = page; while (!q.empty () && is_ws (q.back ())) q.pop_back (); size_t at = 0; while (at < q.size () && is_ws (q[at])) at++;
    CHECK (c, q.compare (at, open.size (), open) == 0 && q.size () >= at + open.size () + 6 && q.compare (q.size () - 6, 6, "</pre>") == 0, "page", "the page is not inside of %s: %s", open.c_str (), vis (page, 200).c_str ()); q = q.substr (at + open.size (), q.size () - at - open.size () - 6);
    // nothing but the tags of the page may be there as tags: what comes from the document is escaped
    Str body = decode (q); CHECK (c, body.find ('<') == Str::npos, "page", "the page has a tag of the document: %s", vis (body.substr (body.find ('<'), 80)).c_str ());
    if (!cut) { Str want; shown (*m, axl_doc_get_root (d.d), want); Str w = plain (want), b = plain (body); if (w != b) { size_t i = 0; while (i < w.size () && i < b.size () && w[i] == b[i]) i++; size_t f = i > 40 ? i - 40 : 0; c.fail ("page", "the page does not show the document, at %zu: expected ...%s, found ...%s", i, vis (w.substr (f, 120)).c_str (), vis (b.substr (f, 120)).c_str ()); } c.count ("pages_compared"); }
    if (toFile) c.count ("to_file"); if (skip) c.count ("skip_enter"); c.distinct (text); return;
  }
  if (kind < 13) {   // a DTD as a C header
    Str t = vh_gen_dtd_text (r); bool bad = r.chance (1, 4); if (bad) t = r.chance (1, 2) ? t.substr (0, r.below ((uint32_t) t.size ())) : mutate_bytes (r, t, DICT); else { char q = 0; for (auto & ch : t) { if (q) { if (ch == q) q = 0; } else if (ch == '"' || ch == '\'') q = ch; if (ch == '\t' || ch == '\r') ch = ' '; if (q && ch == '\n') ch = ' '; } }
    write_file (path, t); c.noteData ("dtd", t); bool toFile = r.chance (1, 2); gr = { { "--dtd-to-c" }, two (r, "input", "i", arg) }; if (toFile) gr.push_back (two (r, "output", "o", outn)); shuffle (r, gr, a);
    axlError * e = nullptr; axlDtd * lib = axl_dtd_parse_from_file (path.c_str (), &e); err_take (e); struct H { axlDtd * d; ~H () { if (d) axl_dtd_free (d); } } h { lib }; Run x = knife (c, a); CHECK (c, read_file (path) == t, "input", "converting changed the file");
    if (!lib) { CHECK (c, failed_with_message (x), "verdict", "success (%d) for a DTD the library rejects: %s", x.rc, vis (t).c_str ()); c.count ("dtd_rejected"); return; }
    CHECK (c, x.rc == 0, "verdict", "exit status %d for a DTD the library accepts: %s", x.rc, vis (x.err).c_str ()); if (bad) { c.count ("dtd_odd"); return; }
    Str head = toFile ? read_file (outp) : x.out, mac = file.find ('/') == Str::npos ? file : file.substr (file.rfind ('/') + 1), v; for (auto & ch : mac) ch = ch == '.' || ch == '-' ? '_' : (char) toupper (ch); if (mac.find ('%') != Str::npos) { c.count ("odd_name"); return; }
    CHECK (c, c_macro (head, mac, v), "header", "the header does not define %s: %s", mac.c_str (), vis (head).c_str ()); H h2 { axl_dtd_parse (v.c_str (), -1, &e) }; if (!h2.d) c.fail ("header", "the DTD of the header is rejected: %s: %s", err_take (e).c_str (), vis (v).c_str ()); CHECK (c, axl_dtd_are_equal (h.d, h2.d), "header", "the DTD of the header is another: %s", vis (v).c_str ());
    c.count ("headers_compared"); c.distinct (t); return;
  }
  if (kind == 13) {  // misuse and help
    Str doc = "<a><b/>text</a>"; write_file (path, doc); std::vector<Str> i = two (r, "input", "i", arg), o = two (r, "output", "o", outn); bool fail = true; const char * what = "";
    switch (r.below (12)) {
      case 0: what = "operation_without_input"; gr = { r.chance (1, 3) ? one (r, "htmlize", "e") : r.chance (1, 2) ? one (r, "check-xml", "c") : std::vector<Str> { "--dtd-to-c" } }; break;
      case 1: what = "excluded"; gr = { { "--dtd-to-c" }, one (r, "htmlize", "e"), i, o }; break;
      case 2: what = "unknown_option"; gr = { { r.pick (std::vector<Str> { "--whatever", "-z", "--inpu", "--inputs", "--check-xml-now" }) }, one (r, "check-xml", "c"), i }; break;
      case 3: what = "given_twice"; gr = { one (r, "check-xml", "c"), one (r, "check-xml", "c"), i }; break;
      case 4: what = "value_missing"; gr = { one (r, "check-xml", "c") }; shuffle (r, gr, a); a.push_back (r.chance (1, 2) ? "-i" : "--input"); gr.clear (); break;
      case 5: what = "value_missing"; a = { "-i", "-c" }; break;
      case 6: what = "ifnewer_without_output"; gr = { one (r, "ifnewer", "n"), one (r, "htmlize", "e"), i }; break;
      case 7: what = "class_without_page"; gr = { two (r, "pre-class", "p", "x"), one (r, "check-xml", "c"), i }; break;
      case 8: fail = false; what = "help"; a = { r.pick (std::vector<Str> { "--help", "-?", "--usage" }) }; break;
      case 9: fail = false; what = "version"; gr = { one (r, "version", "v") }; if (r.chance (1, 3)) gr.push_back (i); break;
      case 10: what = "missing_input"; gr = { r.chance (1, 3) ? one (r, "htmlize", "e") : r.chance (1, 2) ? one (r, "check-xml", "c") : std::vector<Str> { "--dtd-to-c" }, two (r, "input", "i", r.chance (1, 2) ? "nothing/here.xml" : r.chance (1, 2) ? "." : "no-such-file") }; break;
      default: { what = "random"; static const std::vector<Str> pool = { "-i", "-o", "-e", "-c", "-n", "-r", "-p", "-l", "-g", "-v", "--input", "--output", "--htmlize", "--check-xml", "--dtd-to-c", "--ifnewer", "-", "--", "---", "", "x", "out.html", "-x", "--h", "-h", "--pre-class", "%s%n", "--htmlize=", "-ic" }; for (int k = r.range (0, 6); k > 0; k--) { a.push_back (r.chance (1, 5) ? arg : r.pick (pool)); if (a.back () == "-o" || a.back () == "--output") a.push_back (outn); } Run x = knife (c, a); CHECK (c, x.rc == 0 || failed_with_message (x), "message", "exit status %d without a message: %s", x.rc, cmdline (a).c_str ()); CHECK (c, read_file (path) == doc, "input", "the input changed: %s", cmdline (a).c_str ()); c.count (what); return; } }
    shuffle (r, gr, a); Run x = knife (c, a); if (fail) { CHECK (c, failed_with_message (x), "misuse", "%s: exit status %d, messages %s", cmdline (a).c_str (), x.rc, vis (x.err + x.out, 200).c_str ()); CHECK (c, access (outp.c_str (), F_OK) != 0, "misuse", "%s: an output was written", cmdline (a).c_str ()); } else { CHECK (c, x.rc == 0 && !x.out.empty (), "success", "%s: exit status %d, output %s", cmdline (a).c_str (), x.rc, vis (x.out, 200).c_str ()); }
    CHECK (c, read_file (path) == doc, "input", "the input changed: %s", cmdline (a).c_str ()); c.count (what); return;
  }
  if (kind == 14) {  // only when the output is older
    bool dtd = r.chance (1, 3); Str doc = dtd ? vh_gen_dtd_text (r) : Str ("<a><b/>text</a>"), old = "old contents"; write_file (path, doc); bool have = r.chance (5, 6); if (have) { write_file (outp, old); } long t = 1500000000 + (long) r.below (1000000), dt = r.chance (1, 3) ? 0 : r.range (-100000, 100000); set_mtime (path, t, 0); if (have) set_mtime (outp, t + dt, 0);
    gr = { one (r, "ifnewer", "n"), two (r, "input", "i", arg), two (r, "output", "o", outn), dtd ? std::vector<Str> { "--dtd-to-c" } : one (r, "htmlize", "e") }; shuffle (r, gr, a); Run x = knife (c, a); CHECK (c, x.rc == 0, "ifnewer", "exit status %d", x.rc); Str now = read_file (outp);
    if (have && dt > 0) { CHECK (c, now == old, "ifnewer", "an output newer than the input was written again"); c.count ("newer_kept"); } else if (!have || dt < 0) { CHECK (c, now != old && now.find (dtd ? "#define " : "<pre") != Str::npos, "ifnewer", "the output is %s than the input and was not written", have ? "older" : "missing, not younger"); c.count ("older_written"); } else { CHECK (c, now == old || now.find (dtd ? "#define " : "<pre") != Str::npos, "ifnewer", "the output is broken"); c.count ("same_age"); }
    CHECK (c, read_file (path) == doc, "input", "the input changed"); return;
  }
  // output that cannot be written
  { bool dtd = r.chance (1, 2); MP m = gen_tree (r, g); SerCfg s; Str doc = dtd ? vh_gen_dtd_text (r) : serialize_doc (r, *m, s).text; write_file (path, doc); c.noteData ("file", doc); gr = { two (r, "input", "i", arg), dtd ? std::vector<Str> { "--dtd-to-c" } : one (r, "htmlize", "e") }; unsigned k = r.below (4); const char * to = nullptr; if (k == 0) gr.push_back (two (r, "output", "o", "not/there/out.html")); else if (k == 1) gr.push_back (two (r, "output", "o", "/dev/full")); else if (k == 2) gr.push_back (two (r, "output", "o", ".")); else to = "/dev/full";
    shuffle (r, gr, a); Run x = knife (c, a, to); CHECK (c, x.rc != 0 && !x.err.empty (), "unwritable", "exit status %d and messages %s for an output that cannot be written: %s", x.rc, vis (x.err, 200).c_str (), cmdline (a).c_str ()); CHECK (c, read_file (path) == doc, "input", "the input changed"); c.count ("unwritable"); }
}
