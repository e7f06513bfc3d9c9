// String helpers and the tokenizer against plain string models.
#include "model.hpp"
#include <unistd.h>
#include <fcntl.h>
#include <cstdarg>

namespace {
// a copy in memory of exactly the size needed, so that any read past it is seen
struct Z { char * p; explicit Z (const Str & s) : p ((char *) malloc (s.size () + 1)) { memcpy (p, s.c_str (), s.size () + 1); } ~Z () { free (p); } operator char * () { return p; } };
static Str rnd (Rng & r, const char * alpha, int max) { Str s; int n = r.range (0, max), k = (int) strlen (alpha); for (int i = 0; i < n; i++) s += alpha[r.below ((uint32_t) k)]; return s; }
static Str any (Rng & r) { switch (r.below (6)) { case 0: return rnd (r, "ab", 8); case 1: return rnd (r, "ab,;: \t\n\r", 20); case 2: { Str s; int n = r.range (0, 20); for (int i = 0; i < n; i++) s += (char) r.range (1, 255); return s; } case 3: return ""; case 4: return rnd (r, "aAbBzZ09_-", 12); default: { Str s = rnd (r, "abc ", 6); int k = r.range (1, 60); Str o; while (k--) o += s; return o; } } }
static Str lower (Str s) { for (auto & x : s) if (x >= 'A' && x <= 'Z') x += 32; return s; }
static Str upper (Str s) { for (auto & x : s) if (x >= 'a' && x <= 'z') x -= 32; return s; }
static bool ws (char x) { return x == ' ' || x == '\t' || x == '\n' || x == '\r'; }
static Str trimmed (const Str & s) { size_t a = 0, b = s.size (); while (a < b && ws (s[a])) a++; while (b > a && ws (s[b - 1])) b--; return s.substr (a, b - a); }
static char * vp (const char * f, ...) { va_list a; va_start (a, f); char * r = axl_stream_strdup_printfv (f, a); va_end (a); return r; }
static int vl (const char * f, ...) { va_list a; va_start (a, f); int r = axl_stream_vprintf_len (f, a); va_end (a); return r; }
#define SAME(got, want, key, ...) do { Str w__ = (want); const char * g__ = (got); CHECK (c, g__ && w__ == g__, key, "%s: expected %s, found %s", fmt (__VA_ARGS__).c_str (), vis (w__).c_str (), vis (g__).c_str ()); } while (0)
}

MODE (strings) {
  Rng & r = c.rng; Str a = any (r); if (r.chance (1, 1000)) { Str u = a.empty () ? "x" : a; size_t n = (size_t) r.range (200, r.chance (1, 3) ? 70000 : 3000); while (a.size () < n) a += u; c.count ("long"); } Str b = r.chance (1, 2) ? any (r) : a; if (r.chance (1, 3)) { b = a; if (!b.empty ()) { size_t i = r.below ((uint32_t) b.size ()); b[i] = (char) (b[i] ^ 32); if (!b[i]) b[i] = 'x'; } }
  c.noteData ("a", a); c.noteData ("b", b); Z za (a), zb (b);
  // comparison
  CHECK (c, !!axl_cmp (za, zb) == (a == b) && !!axl_cmp (zb, za) == (a == b), "cmp", "comparison of %s and %s", vis (a).c_str (), vis (b).c_str ());
  CHECK (c, axl_cmp (za, za) && !axl_cmp (za, NULL) && !axl_cmp (NULL, za), "cmp", "comparison with itself or nothing");
  CHECK (c, !!axl_casecmp (za, zb) == (lower (a) == lower (b)), "casecmp", "comparison without case of %s and %s", vis (a).c_str (), vis (b).c_str ());
  { int n = r.range (0, (int) std::min (a.size (), b.size ())); CHECK (c, !!axl_stream_cmp (za, zb, n) == (a.substr (0, (size_t) n) == b.substr (0, (size_t) n)), "ncmp", "comparison of the first %d bytes", n); CHECK (c, !!axl_stream_casecmp (za, zb, n) == (lower (a.substr (0, (size_t) n)) == lower (b.substr (0, (size_t) n))), "ncasecmp", "comparison of the first %d bytes without case", n); if (n > 0) CHECK (c, !!axl_memcmp (za, zb, n) == (a.substr (0, (size_t) n) == b.substr (0, (size_t) n)), "memcmp", "comparison of the first %d bytes", n); }
  CHECK (c, (axl_list_equal_string ((char *) za, (char *) zb) == 0) == (a == b), "equal-string", "list comparison of strings");
  { int o = axl_list_order_string ((char *) za, (char *) zb), q = axl_list_order_string ((char *) zb, (char *) za); CHECK (c, (o == 0) == (a == b) && o == -q, "order-string", "list order of strings: %d and %d", o, q); }
  // duplication
  { char * x = axl_strdup (za); SAME (x, a, "strdup", "copy"); axl_free (x); x = axl_stream_strdup (zb); SAME (x, b, "strdup", "copy"); axl_free (x); }
  if (!a.empty ()) { int n = r.range (1, (int) a.size ()); char * e = (char *) malloc ((size_t) n); memcpy (e, a.data (), (size_t) n); char * x = axl_stream_strdup_n (e, n); free (e); SAME (x, a.substr (0, (size_t) n), "strdup_n", "copy of %d bytes", n); axl_free (x); }
  { char * x = axl_stream_concat (za, zb); SAME (x, a + b, "concat", "concatenation"); axl_free (x); x = axl_stream_concat (NULL, zb); SAME (x, b, "concat", "concatenation"); axl_free (x); x = axl_stream_concat (za, NULL); SAME (x, a, "concat", "concatenation"); axl_free (x); }
  // white space
  for (int i = 1; i < 256; i++) { char t[2] = { (char) i, 0 }; CHECK (c, !!axl_stream_is_white_space (t) == ws ((char) i), "white", "character %d", i); }
  { Str s = rnd (r, " \t\n\r", 6) + a + rnd (r, " \t\n\r", 6); Z z (s); int n = -1; Str w = trimmed (s); if (r.chance (1, 2)) { axl_stream_trim_with_size (z, &n); CHECK (c, n == (int) (s.size () - w.size ()), "trim-size", "trimming %s reported %d", vis (s).c_str (), n); } else axl_stream_trim (z); SAME (z.p, w, "trim", "trimming %s", vis (s).c_str ()); }
  // case
  { Z z (a); SAME (axl_stream_to_lower (z), lower (a), "lower", "lower case"); SAME (axl_stream_to_upper (z), upper (lower (a)), "upper", "upper case"); char * x = axl_stream_to_upper_copy (zb); SAME (x, upper (b), "upper", "upper case copy"); axl_free (x); x = axl_stream_to_lower_copy (zb); SAME (x, lower (b), "lower", "lower case copy"); axl_free (x); SAME (zb.p, b, "lower", "original of a copy"); }
  // removing and replacing
  { Str v = r.chance (1, 3) ? rnd (r, "ab", 3) : a.empty () ? "a" : a.substr (r.below ((uint32_t) a.size ()), (size_t) r.range (1, 3)); bool first = r.chance (1, 2); Str w; size_t i = 0; bool done = false;
    while (i < a.size ()) { if (!v.empty () && !done && a.compare (i, v.size (), v) == 0) { i += v.size (); if (first) done = true; } else w += a[i++]; }
    if (!v.empty ()) { Z z (a); Z zv (v); axl_stream_remove (z, zv, first); SAME (z.p, w, "remove", "removing %s%s from %s", vis (v).c_str (), first ? " once" : "", vis (a).c_str ()); c.count ("removals"); } }
  { Str s = a; if (r.chance (1, 3)) for (auto & x : s) if (r.chance (1, 4)) x = 0; Str v = r.chance (1, 3) || s.empty () ? rnd (r, "ab", 3) : s.substr (r.below ((uint32_t) s.size ()), (size_t) r.range (1, 3)); Str t = r.chance (1, 4) ? Str () : rnd (r, "abXYZ", 5); if (r.chance (1, 4)) t = v + t; Str w; size_t i = 0;
    while (i < s.size ()) { if (!v.empty () && s.compare (i, v.size (), v) == 0) { w += t; i += v.size (); } else w += s[i++]; }
    bool bin = s.find ('\0') != Str::npos || v.find ('\0') != Str::npos; char * x = (char *) axl_new (char, s.size () + 1); memcpy (x, s.data (), s.size ()); Z zv (v), zt (t);
    int n = axl_stream_replace (&x, bin || r.chance (1, 2) ? (int) s.size () : -1, zv, bin || r.chance (1, 2) ? (int) v.size () : -1, zt, t.find ('\0') != Str::npos || r.chance (1, 2) ? (int) t.size () : -1);
    bool ok = n == (int) w.size () && memcmp (x, w.data (), w.size ()) == 0 && x[w.size ()] == 0; Str got (x, (size_t) (n > 0 && n < 100000 ? std::min ((size_t) n, w.size ()) : 0)); axl_free (x);
    CHECK (c, ok, "replace", "replacing %s by %s in %s: size %d, expected %zu: %s", vis (v).c_str (), vis (t).c_str (), vis (s).c_str (), n, w.size (), vis (got).c_str ()); c.count ("replacements"); }
  // splitting and joining
  { static const char * seps[] = { ",", ";", ":", " ", "==", "<>", "\xc3\xa1" }; int k = r.range (1, 3); const char * sp[3]; for (int i = 0; i < 3; i++) sp[i] = seps[(c.index + (uint64_t) i * 2) % 7];
    Str s; int pieces = r.range (1, 8); for (int i = 0; i < pieces; i++) { if (i) s += sp[r.below ((uint32_t) k)]; if (r.chance (3, 4)) s += rnd (r, "abc=<", 4); } if (r.chance (1, 8)) s = a;
    if (!s.empty ()) {
      std::vector<Str> w { "" }; for (size_t i = 0; i < s.size ();) { bool hit = false; for (int j = 0; j < k && !hit; j++) if (s.compare (i, strlen (sp[j]), sp[j]) == 0) { w.push_back (""); i += strlen (sp[j]); hit = true; } if (!hit) w.back () += s[i++]; }
      Z z (s); char ** l = k == 1 ? axl_stream_split (z, 1, sp[0]) : k == 2 ? axl_stream_split (z, 2, sp[0], sp[1]) : axl_stream_split (z, 3, sp[0], sp[1], sp[2]);
      CHECK (c, l && axl_stream_strv_num (l) == (int) w.size (), "split", "splitting %s gives %d pieces, %zu expected", vis (s).c_str (), l ? axl_stream_strv_num (l) : -1, w.size ());
      for (size_t i = 0; i < w.size (); i++) SAME (l[i], w[i], "split", "piece %zu of %s", i, vis (s).c_str ());
      Str jw; for (size_t i = 0; i < w.size (); i++) { if (i) jw += sp[0]; jw += w[i]; } char * j = axl_stream_join (l, sp[0]); SAME (j, jw, "join", "joining"); if (k == 1) SAME (j, s, "join", "splitting and joining"); axl_free (j);
      if (r.chance (1, 2)) { axl_stream_clean_split (l); std::vector<Str> q; for (auto & x : w) if (!x.empty ()) q.push_back (x); CHECK (c, axl_stream_strv_num (l) == (int) q.size (), "clean", "cleaning the pieces of %s leaves %d", vis (s).c_str (), axl_stream_strv_num (l)); for (size_t i = 0; i < q.size (); i++) SAME (l[i], q[i], "clean", "piece %zu of %s", i, vis (s).c_str ()); }
      axl_stream_freev (l); c.count ("splits"); } }
  // formatted allocation
  { int v = (int) r.u64 (); double d = r.range (-100000, 100000) / 64.0; char want[2048]; int n = snprintf (want, sizeof want, "[%s|%d|%5.2f|%.3s|%c|%%|%08x]", a.c_str (), v, d, b.c_str (), 'q', v);
    if (n < (int) sizeof want) { Str w = want; char * x = axl_stream_strdup_printf ("[%s|%d|%5.2f|%.3s|%c|%%|%08x]", za.p, v, d, zb.p, 'q', v); SAME (x, w, "printf", "formatted copy"); axl_free (x);
      x = vp ("[%s|%d|%5.2f|%.3s|%c|%%|%08x]", za.p, v, d, zb.p, 'q', v); SAME (x, w, "printf", "formatted copy"); axl_free (x);
      int len = -1; x = axl_stream_strdup_printf_len ("[%s|%d|%5.2f|%.3s|%c|%%|%08x]", &len, za.p, v, d, zb.p, 'q', v); CHECK (c, len == n, "printf-len", "length %d, %d expected", len, n); SAME (x, w, "printf", "formatted copy"); axl_free (x);
      CHECK (c, axl_stream_printf_len ("[%s|%d|%5.2f|%.3s|%c|%%|%08x]", za.p, v, d, zb.p, 'q', v) == n + 1 && vl ("%s", za.p) == (int) a.size () + 1, "printf-len", "length with terminator");
      int size = r.range (1, n + 3), real = -1; char * buf = (char *) malloc ((size_t) size); int g = axl_stream_printf_buffer (buf, size, r.chance (1, 2) ? &real : NULL, "[%s|%d|%5.2f|%.3s|%c|%%|%08x]", za.p, v, d, zb.p, 'q', v); Str got = buf; free (buf);
      CHECK (c, g == std::min (n, size - 1) && got == w.substr (0, (size_t) g) && (real == -1 || real == n), "printf-buffer", "buffer of %d: %d written, %d needed", size, g, real); } }
  c.count ("cases"); c.distinct (c.trace); if (c.index < 2) c.sample (c.trace);
}

// --- the tokenizer
namespace {
// terminators: the earliest position where one matches, the first given among those that match there
static const char * terms[] = { ">", "<", "/>", "-->", "]]>", "?>", "=", "\"", "'", " ", "ab", "abc", "aab", "<!--", "<![CDATA[", "x" };
}
#define TERMS k[0], k[1], k[2], k[3], k[4], k[5], k[6], k[7], k[8], k[9], k[10], k[11], k[12], k[13], k[14], k[15], k[16], k[17], k[18], k[19], k[20], k[21], k[22], k[23], k[24], k[25], k[26], k[27], k[28], k[29], k[30]
MODE (tokens) {
  Rng & r = c.rng; Str text; int want = r.chance (1, 250) ? r.range (30000, 70000) : r.chance (1, 6) ? r.range (8000, 20000) : r.chance (1, 3) ? r.range (200, 3000) : r.range (0, 200);
  while ((int) text.size () < want) switch (r.below (5)) { case 0: text += rnd (r, "ab<>/-]?=\"' xz", 8); break; case 1: text += terms[r.below (16)]; break; case 2: text += rnd (r, " \t\n\r", 5); break; case 3: text += Str ((size_t) r.range (1, want > 4000 ? 3000 : 40), "abz]-? "[r.below (7)]); break; default: text += rnd (r, "abc\xc3\xa9", 12); }
  if (want >= 8000 && r.chance (1, 2)) { Str t = terms[r.below (16)]; size_t at = 8192 - r.below ((uint32_t) t.size () + 1); if (at + t.size () < text.size ()) text.replace (at, t.size (), t); }
  bool file = r.chance (1, 2); c.noteData ("text", text); c.note ("from %s", file ? "file" : "memory"); axlStream * s; axlError * e = nullptr; Str path;
  if (file) { path = c.path ("t.txt"); write_file (path, text); g_read = ReadPlan (); g_read.active = true; if (r.chance (2, 3)) { int n = r.range (1, 8); for (int i = 0; i < n; i++) g_read.sizes.push_back (r.chance (1, 3) ? 1 : r.range (1, 600)); } s = axl_stream_new (NULL, -1, path.c_str (), -1, &e); }
  else { char * z = (char *) malloc (text.size () + 1); memcpy (z, text.data (), text.size ()); z[text.size ()] = 0; s = axl_stream_new (z, r.chance (1, 2) ? (int) text.size () : -1, NULL, -1, &e); free (z); }
  if (!s) { err_take (e); c.fail ("new", "no stream created"); }
  size_t pos = 0; long global = 0; int ops = r.range (1, want > 4000 ? 300 : 80); Str cur = text; bool pushed = false, marked = false;
  auto rest = [&] { return cur.size () - pos; };
  try {
    for (int i = 0; i < ops; i++) {
      unsigned o = r.below (12);
      if (o < 3) { // inspect
        Str k = r.chance (1, 2) && rest () ? cur.substr (pos, (size_t) r.range (1, 9)) : Str (terms[r.below (16)]); if (r.chance (1, 4)) k += "z"; Z z (k); int sz = r.chance (1, 2) ? -1 : (int) k.size (); bool m = cur.compare (pos, k.size (), k) == 0; int x = axl_stream_inspect (s, z, sz); c.note ("inspect %s: %d", vis (k).c_str (), x);
        CHECK (c, (x > 0) == m, "inspect", "inspecting %s at %zu gives %d", vis (k).c_str (), pos, x); if (!m) CHECK (c, x == (k.size () > rest () ? -1 : 0), "inspect", "inspecting %s at %zu, %zu left, gives %d", vis (k).c_str (), pos, rest (), x); if (m) { pos += k.size (); global += (long) k.size (); } c.count (m ? "inspected" : "not_matched");
      } else if (o == 3) { Str k = r.chance (1, 2) && rest () ? cur.substr (pos, (size_t) r.range (1, 5)) : Str (terms[r.below (16)]); Z z (k); bool m = cur.compare (pos, k.size (), k) == 0; int x = axl_stream_peek (s, z, r.chance (1, 2) ? -1 : (int) k.size ()); c.note ("peek %s: %d", vis (k).c_str (), x); CHECK (c, (x > 0) == m, "peek", "peeking %s at %zu gives %d", vis (k).c_str (), pos, x); if (m && r.chance (1, 2)) { axl_stream_accept (s); pos += k.size (); global += (long) k.size (); c.note ("accept"); c.count ("accepted"); } else if (m) { // forget the peek by looking again
            Str q = cur.substr (pos, 1); x = axl_stream_inspect (s, q.c_str (), 1); CHECK (c, x == 1, "peek", "after a peek the same character is not there"); pos++; global++; } c.count ("peeked");
      } else if (o == 4) { const char * k[3]; int w = 0; for (int j = 0; j < 3; j++) k[j] = terms[r.below (16)]; for (int j = 0; j < 3 && !w; j++) if (cur.compare (pos, strlen (k[j]), k[j]) == 0) w = j + 1; int x = axl_stream_inspect_several (s, 3, k[0], r.chance (1, 2) ? -1 : (int) strlen (k[0]), k[1], -1, k[2], (int) strlen (k[2])); c.note ("several %s %s %s: %d", k[0], k[1], k[2], x); CHECK (c, w ? x == w : x <= 0, "several", "inspecting several at %zu gives %d, %d expected", pos, x, w); if (w) { pos += strlen (k[w - 1]); global += (long) strlen (k[w - 1]); } c.count ("several");
      } else if (o == 5) { axl_stream_consume_white_spaces (s); c.note ("spaces"); while (pos < cur.size () && ws (cur[pos])) pos++, global++; c.count ("white_space");
      } else if (o == 6) { axl_bool x = axl_stream_remains (s); CHECK (c, !!x == (rest () > 0), "remains", "%zu bytes left but reported %d", rest (), (int) x);
      } else if (o == 7 && rest ()) { int n = r.range (1, 20); const char * f = axl_stream_get_following (s, n); if (!file) SAME (f, cur.substr (pos, (size_t) n), "following", "next %d bytes", n); else if (f) CHECK (c, cur.compare (pos, strlen (f), f) == 0 && strlen (f) <= (size_t) n, "following", "next %d bytes of the file", n); const char * q = axl_stream_get_near_to (s, n); CHECK (c, q && (rest () == 0 || cur.find (q) != Str::npos), "near", "the text around is not in the text"); if (q && !file && !pushed && !marked) { size_t from = pos > (size_t) n ? pos - (size_t) n : 0, z = std::min (text.size (), pos + (size_t) n); Str g (q); CHECK (c, text.compare (from, g.size (), g) == 0 && from + g.size () >= z && from + g.size () <= z + 1, "near", "the text around %zu, up to %d bytes at each side, is reported as %s", pos, n, vis (g).c_str ()); c.count ("near"); }
      } else if (o == 8 && r.chance (1, 6) && !file) { Str k = rnd (r, "ab<> =", r.chance (1, 3) ? 400 : 12); if (k.empty ()) k = "q"; Z z (k); axl_stream_push (s, z, (int) k.size ()); cur = k + cur.substr (pos); pos = 0; pushed = true; c.note ("push %s", vis (k).c_str ()); c.count ("pushed");
      } else { // read up to a terminator
        int n = r.chance (1, 12) ? r.range (5, 30) : r.chance (1, 40) ? 31 : r.range (1, 4); const char * k[31]; for (int j = 0; j < 31; j++) k[j] = terms[r.below (16)]; bool zero = r.chance (1, 4), ref = r.chance (1, 2), acc = ref || r.chance (1, 2); size_t at = Str::npos; int who = -1; size_t klen = 0;
        // blanks: the term " " stands for any white space, and goes first
        for (size_t q = pos; q < cur.size () && who < 0; q++) { for (int j = n - 1; j >= 0; j--) if (!strcmp (k[j], " ") && ws (cur[q]) && who < 0) { at = q; who = j; klen = 1; } for (int j = 0; j < n && who < 0; j++) if (strcmp (k[j], " ") && cur.compare (q, strlen (k[j]), k[j]) == 0) { at = q; who = j; klen = strlen (k[j]); } }
        int m = -77, size = -77; char * x;
        marked |= ref; // these may write the end of what they return on the text
        if (ref) x = zero ? axl_stream_get_until_ref_zero (s, NULL, &m, acc, &size, n, TERMS) : axl_stream_get_until_ref (s, NULL, &m, acc, &size, n, TERMS);
        else x = zero ? axl_stream_get_until_zero (s, NULL, &m, acc, n, TERMS) : axl_stream_get_until (s, NULL, &m, acc, n, TERMS);
        { Str ks; for (int j = 0; j < n; j++) ks += Str (" ") + k[j]; c.note ("until %d of%s%s%s%s: %d", n, vis (ks).c_str (), zero ? ", or the end" : "", ref ? ", by reference" : "", acc ? ", taken" : "", m); }
        if (n > 30) { CHECK (c, !x, "until-many", "more terminators than supported are accepted"); c.count ("too_many"); continue; } if (n > 4) c.count ("many_terminators");
        if (who >= 0) { Str w = cur.substr (pos, at - pos); CHECK (c, x && m == who, "until", "terminator %d expected at %zu, %d reported", who, at, x ? m : -1); SAME (x, w, "until", "content before the terminator"); if (ref) CHECK (c, size == (int) w.size (), "until", "size %d, %zu expected", size, w.size ()); pos = at + (acc ? klen : 0); global += (long) w.size () + (acc ? (long) klen : 0); c.count ("terminators_found"); }
        else if (zero) { Str w = cur.substr (pos); CHECK (c, x && m == -2, "until-end", "the end of the text is not reported (%d)", m); SAME (x, w, "until-end", "content up to the end"); if (ref) CHECK (c, size == (int) w.size (), "until", "size %d, %zu expected", size, w.size ()); pos = cur.size (); global += (long) w.size (); c.count ("ends_found"); }
        else { CHECK (c, !x, "until", "a terminator that is not there was found: %s", vis (x).c_str ()); c.count ("terminators_missing"); }
      }
      CHECK (c, axl_stream_get_global_index (s) == (int) global, "position", "position %d, %ld consumed", axl_stream_get_global_index (s), global);
      if (!file && !pushed) CHECK (c, axl_stream_get_index (s) == (int) pos && axl_stream_get_size (s) == (int) text.size (), "position", "index %d, %zu expected", axl_stream_get_index (s), pos);
      c.count ("operations");
    }
  } catch (Failure &) { axl_stream_free (s); g_read.active = false; if (file) unlink (path.c_str ()); throw; }
  axl_stream_free (s); c.count ("short_reads", g_read.shortened); g_read.active = false; if (file) { unlink (path.c_str ()); c.count ("files"); }
  c.count ("texts"); c.maxi ("text_bytes", text.size ()); c.distinct (c.trace); if (c.index < 2) c.sample (c.trace);
}
