// Encoding extension: 8-bit documents against the Unicode mapping tables, and the UTF-8 gate against an independent validator.
#include "model.hpp"
#include <unistd.h>

namespace {
struct Part { int n; unsigned cp[96]; };
static const Part PARTS[] = {
#include "iso8859.inc"
};
static const Part & part (Rng & r) { return PARTS[r.below (sizeof (PARTS) / sizeof (PARTS[0]))]; }
static Str utf8 (unsigned cp) {
  Str s; if (cp < 0x80) s += (char) cp; else if (cp < 0x800) { s += (char) (0xC0 | cp >> 6); s += (char) (0x80 | (cp & 63)); }
  else if (cp < 0x10000) { s += (char) (0xE0 | cp >> 12); s += (char) (0x80 | (cp >> 6 & 63)); s += (char) (0x80 | (cp & 63)); }
  else { s += (char) (0xF0 | cp >> 18); s += (char) (0x80 | (cp >> 12 & 63)); s += (char) (0x80 | (cp >> 6 & 63)); s += (char) (0x80 | (cp & 63)); } return s;
}
static bool defined (const Part & p, unsigned char b) { return b < 0xA0 || p.cp[b - 0xA0]; }
static Str conv (const Part & p, const Str & s) { Str o; for (unsigned char b : s) o += utf8 (b < 0xA0 ? b : p.cp[b - 0xA0]); return o; }
static Str hi (Rng & r, const Part & p) { unsigned char b; do b = (unsigned char) r.range (0x80, 0xFF); while (!defined (p, b)); return Str (1, (char) b); }
// any place outside of a reference
static size_t place (Rng & r, const Str & s) { size_t at = r.below ((uint32_t) s.size () + 1), amp = at ? s.rfind ('&', at - 1) : Str::npos; if (amp != Str::npos) { size_t semi = s.find (';', amp); if (semi != Str::npos && semi >= at) at = amp; } return at; }
static size_t whole (Rng & r, const Str & s) { size_t at = place (r, s); while (at > 0 && at < s.size () && ((unsigned char) s[at] & 0xC0) == 0x80) at--; return at; }
static void sow (Rng & r, MNode & n, const std::function<Str ()> & piece, bool multi = true) {
  auto some = [&] (Str & s, int k) { for (int i = r.range (1, k); i > 0; i--) s.insert (multi ? whole (r, s) : place (r, s), piece ()); };
  if (r.chance (1, 4)) { Str p; for (int i = r.range (1, 3); i > 0; i--) p += piece (); n.name += p; }
  std::set<Str> used; for (auto & a : n.attrs) used.insert (a.first);
  for (auto & a : n.attrs) { bool x = !a.first.compare (0, 4, "xml:"); if (!x && r.chance (1, 2)) some (a.second, 6); if (r.chance (1, 6) && !x) { Str k = a.first + piece (); if (used.insert (k).second) a.first = k; } }
  for (auto & i : n.items) {
    if (i.k == K_ELEM) sow (r, *i.node, piece, multi);
    else if (i.k == K_TEXT) { if (r.chance (2, 3)) some (i.text, r.chance (1, 20) ? 400 : 8); }
    else if (i.k == K_PI) { if (i.hasContent && !i.text.empty () && r.chance (1, 2)) i.text += piece () + piece (); }
    else if (!i.text.empty () && r.chance (1, 2)) i.text.insert (r.below (2) ? 0 : i.text.size (), piece () + (i.k == K_COMMENT ? "" : piece ()));
  }
}
template <class F> static void map_strings (MNode & n, const F & f) { n.name = f (n.name); for (auto & a : n.attrs) { a.first = f (a.first); a.second = f (a.second); } for (auto & i : n.items) { i.text = f (i.text); i.target = f (i.target); if (i.node) map_strings (*i.node, f); } }
struct Babel { Babel () { if (!t_quiet && !axl_babel_init (NULL)) { throw Failure { "init", "the extension does not start" }; } } ~Babel () { if (!t_quiet) axl_babel_finish (); } };     // among threads it is on already
static void fill (Rng & r, MNode & n, const Str & unit, size_t len) { Str s; while (s.size () < len) s += unit; for (auto & i : n.items) if (i.k == K_TEXT) { i.text += s; return; } if (n.items.empty ()) { MItem t; t.k = K_TEXT; t.text = "t" + s; n.items.push_back (t); } }
static Str case_mix (Rng & r, Str s) { if (r.chance (1, 2)) for (auto & ch : s) if (r.chance (1, 2)) ch = (char) toupper (ch); return s; }
static Str header (Rng & r, const Str & enc) { Str q = r.chance (1, 2) ? "\"" : "'"; Str s = "<?xml version=" + q + "1.0" + q; if (!enc.empty ()) s += " encoding=" + q + enc + q; if (r.chance (1, 4)) s += " standalone=" + q + (r.chance (1, 2) ? "yes" : "no") + q; s += r.chance (1, 2) ? " ?>" : "?>"; if (r.chance (1, 2)) s += "\n"; return s; }
// parses by a random way; the reads of a file are cut at random
static axlDoc * load (Ctx & c, const Str & x, axlError ** e) {
  Rng & r = c.rng; int how = (int) r.below (3); if (how == 0) { c.count ("from_memory"); return parse_mem (x, e); }
  Str path = c.path ("b.xml"); write_file (path, x); g_read = ReadPlan (); g_read.active = true; if (how == 2) { int kind = (int) r.below (4), n = r.range (1, 12); for (int i = 0; i < n; i++) g_read.sizes.push_back (kind == 0 && x.size () < 20000 ? 1 : kind == 1 ? r.range (1, 5) : kind == 2 ? r.range (1, 300) : r.range (4000, 8192)); }
  axlDoc * d = doc_from_file (c, path.c_str (), e); c.count ("from_file"); c.count ("short_reads", g_read.shortened); g_read.active = false; unlink (path.c_str ()); return d;
}
// length of the well-formed UTF-8 character at s[i] by RFC 3629, 0 when there is none
static int seq (const Str & s, size_t i) {
  auto b = [&] (size_t k) -> int { return i + k < s.size () ? (unsigned char) s[i + k] : -1; }; auto cont = [&] (size_t k) { return b (k) >= 0x80 && b (k) <= 0xBF; };
  int x = b (0); if (x < 0) return 0; if (x < 0x80) return 1; if (x < 0xC2) return 0; if (x < 0xE0) return cont (1) ? 2 : 0;
  if (x < 0xF0) { if (!cont (1) || !cont (2)) return 0; int cp = (x & 15) << 12 | (b (1) & 63) << 6 | (b (2) & 63); return cp >= 0x800 && (cp < 0xD800 || cp > 0xDFFF) ? 3 : 0; }
  if (x < 0xF5) { if (!cont (1) || !cont (2) || !cont (3)) return 0; int cp = (x & 7) << 18 | (b (1) & 63) << 12 | (b (2) & 63) << 6 | (b (3) & 63); return cp >= 0x10000 && cp <= 0x10FFFF ? 4 : 0; }
  return 0;
}
static long bad_at (const Str & s) { for (size_t i = 0; i < s.size ();) { int n = seq (s, i); if (!n) return (long) i; i += (size_t) n; } return -1; }
static Str good (Rng & r) { static const std::vector<unsigned> edge = { 0x80, 0x7FF, 0x800, 0xFFF, 0x1000, 0xCFFF, 0xD000, 0xD7FF, 0xE000, 0xFFFD, 0x10000, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFF, 0xC0, 0x20AC }; if (r.chance (1, 3)) return utf8 (r.pick (edge)); unsigned cp; do cp = (unsigned) (r.chance (1, 3) ? r.range (0x80, 0x7FF) : r.chance (1, 2) ? r.range (0x800, 0xFFFD) : r.range (0x10000, 0x10FFFF)); while (cp >= 0xD800 && cp <= 0xDFFF); return utf8 (cp); }
static Str raw (std::initializer_list<int> l) { Str s; for (int x : l) s += (char) x; return s; }
static Str wrong (Rng & r) {
  switch (r.below (10)) {
  case 0: return Str (1, (char) r.range (0x80, 0xBF));
  case 1: return Str (1, (char) r.range (0xF8, 0xFF));
  case 2: { Str s = good (r); s.erase (s.size () - 1); return s; }
  case 3: { Str s = good (r); s[1 + r.below ((uint32_t) s.size () - 1)] = r.chance (1, 2) ? 'x' : (char) r.range (0xC0, 0xFF); return s; }
  case 4: return raw ({ 0xC0 + (int) r.below (2), r.range (0x80, 0xBF) });
  case 5: return raw ({ 0xE0, r.range (0x80, 0x9F), r.range (0x80, 0xBF) });
  case 6: return raw ({ 0xED, r.range (0xA0, 0xBF), r.range (0x80, 0xBF) });
  case 7: return raw ({ 0xF0, r.range (0x80, 0x8F), r.range (0x80, 0xBF), r.range (0x80, 0xBF) });
  case 8: return r.chance (1, 2) ? raw ({ 0xF4, r.range (0x90, 0xBF), r.range (0x80, 0xBF), r.range (0x80, 0xBF) }) : raw ({ r.range (0xF5, 0xF7), r.range (0x80, 0xBF), r.range (0x80, 0xBF), r.range (0x80, 0xBF) });
  default: return Str (1, (char) r.range (0xC2, 0xF4));
  }
}
}

MODE (babel) {
  Rng & r = c.rng; const Part & p = part (r); GenCfg g; g.unicode = false; g.maxNodes = r.chance (1, 10) ? 80 : 15; g.xmlspace = r.chance (1, 6); MP m = gen_tree (r, g);
  sow (r, *m, [&] { return hi (r, p); }, false); if (r.chance (1, 3)) fill (r, *m, hi (r, p) + (r.chance (1, 2) ? "a" : "") + hi (r, p), (size_t) (r.chance (1, 4) ? r.range (20000, 90000) : r.range (2000, 9000)));
  static const std::vector<Str> forms = { "iso-8859-", "iso8859-", "iso_8859-", "iso-8859_", "iso8859" }; Str enc = case_mix (r, r.pick (forms)) + fmt ("%d", p.n); if (r.chance (1, 20)) enc = " " + enc + " ";
  SerCfg s; s.header = false; s.doctype = false; Str body = serialize_doc (r, *m, s).text, head = header (r, enc); if (r.chance (1, 3)) head += "<!-- " + Str ((size_t) r.range (1, 9000), 'p') + " -->"; Str x = head + body; c.note ("encoding %s", enc.c_str ()); c.noteData ("document", x);
  Babel on; bool undef = false; MP want = clone_model (*m); map_strings (*want, [&] (const Str & t) { return conv (p, t); });
  if (r.chance (1, 8)) { unsigned char b = 0; for (int i = 0; i < 40 && defined (p, b); i++) b = (unsigned char) r.range (0xA0, 0xFF); if (!defined (p, b)) { undef = true; std::vector<MNode *> v; collect (*m, v); MNode * n = v[r.below ((uint32_t) v.size ())]; std::vector<Str *> spots; for (auto & a : n->attrs) if (a.first.compare (0, 4, "xml:")) spots.push_back (&a.second); for (auto & i : n->items) if (i.k != K_ELEM && !i.text.empty ()) spots.push_back (&i.text); if (spots.empty ()) spots.push_back (&n->name); Str * t = r.pick (spots); if (t == &n->name) *t += (char) b; else t->insert (place (r, *t), 1, (char) b); x = head + serialize_doc (r, *m, s).text; c.note ("undefined byte 0x%x", b); c.noteData ("document", x); } }
  axlError * e = nullptr; axlDoc * d = load (c, x, r.chance (1, 10) ? NULL : &e); Str em = err_take (e); DocHold h (d); c.count ("documents"); c.maxi ("bytes_max", x.size ()); c.state ("encodings", (uint64_t) p.n);
  if (undef) { c.count ("undefined_bytes"); CHECK (c, !d, "undefined-accepted", "a document holding a byte its encoding does not define is accepted"); return; }
  CHECK (c, d, "rejected", "a document in %s is rejected: %s", enc.c_str (), em.c_str ());
  Str a = canon (*want), b = canon_axl (axl_doc_get_root (d)); if (a != b) { size_t i = 0; while (i < a.size () && i < b.size () && a[i] == b[i]) i++; c.fail ("decoded", "part %d: content differs at %d: expected ...%s, found ...%s", p.n, (int) i, vis (a.substr (i > 20 ? i - 20 : 0), 80).c_str (), vis (b.substr (i > 20 ? i - 20 : 0), 80).c_str ()); }
  for (unsigned char ch : x) if (ch >= 0x80) { c.state ("bytes", (uint64_t) p.n << 8 | ch); c.count ("high_bytes"); }
  check_links (c, axl_doc_get_root (d), NULL, "decoded"); CHECK (c, bad_at (b) < 0, "decoded", "content that is not UTF-8");
  CHECK (c, !strcmp (axl_doc_get_encoding (d), "utf-8"), "encoding", "encoding reported %s", axl_doc_get_encoding (d));
  if (r.chance (1, 2)) { char * t = NULL; int n = 0; CHECK (c, axl_doc_dump (d, &t, &n), "dump", "cannot be dumped"); Str out (t, (size_t) n); axl_free (t); axlDoc * d2 = load (c, out, &e); em = err_take (e); DocHold h2 (d2); CHECK (c, d2, "dump", "its dump is rejected: %s", em.c_str ()); CHECK (c, canon_axl_com (axl_doc_get_root (d2)) == canon_axl_com (axl_doc_get_root (d)), "dump", "its dump reads as another document"); c.count ("dumped"); }
  c.distinct (x);
}

// the same documents, extension on and off, in UTF-8 or under a name the extension does not know
MODE (babelother) {
  Rng & r = c.rng; GenCfg g; g.maxNodes = r.chance (1, 10) ? 80 : 15; MP m = gen_tree (r, g); sow (r, *m, [&] { return good (r); }); if (r.chance (1, 4)) fill (r, *m, good (r) + (r.chance (1, 2) ? "a" : "") + good (r), (size_t) (r.chance (1, 4) ? r.range (20000, 90000) : r.range (2000, 9000)));
  static const std::vector<Str> other = { "ascii", "us-ascii", "windows-1252", "koi8-r", "iso-8859-10", "iso-8859-16", "x", "iso-8859", "utf-7", "utf-81" }; bool known = r.chance (1, 2), on = r.chance (1, 2); Str enc = known ? r.pick (std::vector<Str> { "utf-8", "UTF-8", "utf8", "Utf_8", "" }) : r.pick (other); if (!on && r.chance (1, 4)) enc = "iso-8859-1";
  SerCfg s; s.header = false; s.doctype = false; Str x = (enc.empty () && r.chance (1, 2) ? Str () : header (r, enc)) + serialize_doc (r, *m, s).text; if (x[0] == '<' ? x.size () < 4 : true) x = header (r, enc) + x; if (x.compare (0, 5, "<?xml") && r.chance (1, 3)) x = ws (r, 1, 3) + x; c.note ("encoding '%s' extension %s", enc.c_str (), on ? "on" : "off"); c.noteData ("document", x);
  axlError * e = nullptr; axlDoc * d; if (r.chance (1, 12)) { // what stands before the first '<' is only skipped when it is the whole mark
    bool mark = !on && r.chance (1, 2); Str p = mark ? Str ("\xEF\xBB\xBF") : r.pick (std::vector<Str> { "\xEF\xBB", "\xEF", "\xEF\xBF\xBF", "\xEF\xBB\xBB", "\xEF\xBBx", "\xEFx\xBF", "\xBB\xBF\xEF", "\xBF", "x\xBB\xBF", "\xFE\xFF", "\xFF", "xyz", "\xEF\xBB\xBF." }); bool was = on || r.chance (1, 2); if (was) { Babel b; if (on) d = load (c, p + x, &e); } if (!on) d = load (c, p + x, &e);
    c.noteData ("before the document", p); err_take (e); DocHold h (d); if (mark) CHECK (c, d && canon (*m) == canon_axl (axl_doc_get_root (d)), "mark", "a document that starts with the mark of UTF-8 is not read, extension off"); else CHECK (c, !d, "mark", "a document that starts with %s is accepted, extension %s", vis (p).c_str (), on ? "on" : was ? "off again" : "off"); c.count (mark ? "mark_off" : "mark_wrong"); c.distinct (p + x); return; }
  if (on) { Babel b; d = load (c, x, &e); } else { if (r.chance (1, 2)) { Babel b; } d = load (c, x, &e); } Str em = err_take (e); DocHold h (d);
  CHECK (c, d, "rejected", "encoding %s, extension %s: rejected: %s", enc.c_str (), on ? "on" : "off", em.c_str ()); CHECK (c, canon (*m) == canon_axl (axl_doc_get_root (d)), "altered", "encoding %s, extension %s: content altered", enc.c_str (), on ? "on" : "off"); c.count (on ? "on" : "off"); c.count (known ? "utf8" : "unknown_encoding"); if (x.compare (0, 5, "<?xml")) c.count ("undeclared"); c.distinct (x);
}

MODE (utf8gate) {
  Rng & r = c.rng; GenCfg g; g.maxNodes = r.chance (1, 10) ? 60 : 12; MP m = gen_tree (r, g); sow (r, *m, [&] { return good (r); });
  if (r.chance (1, 3)) fill (r, *m, good (r) + Str (r.below (3), 'a') + good (r), (size_t) (r.chance (1, 4) ? r.range (20000, 90000) : r.range (2000, 9000)));
  SerCfg s; s.header = false; s.doctype = false; bool bom = r.chance (1, 5); Str enc = r.pick (std::vector<Str> { "utf-8", "UTF-8", "utf8", "Utf_8", "UTF8" }); if (bom && r.chance (1, 3)) enc = "";
  Str head = header (r, enc); if (r.chance (1, 3)) head += "<!-- " + Str ((size_t) r.range (1, 9000), 'p') + " -->"; Str body = serialize_doc (r, *m, s).text; bool bad = r.chance (1, 2); long at = -1; Str x;
  if (bad && r.chance (1, 8)) head += "<!-- " + good (r) + wrong (r) + " -->"; else if (bad) { // inside of character data of the root element: the document stays well formed otherwise
    MP k = clone_model (*m); std::vector<Str *> spots; std::function<void (MNode &)> walk = [&] (MNode & n) { for (auto & a : n.attrs) spots.push_back (&a.second); for (auto & i : n.items) { if (i.k == K_TEXT || i.k == K_COMMENT || i.k == K_CDATA) spots.push_back (&i.text); if (i.node) walk (*i.node); } }; walk (*k); if (spots.empty ()) { MItem t; t.k = K_TEXT; t.text = "t"; if (k->items.empty ()) { k->items.push_back (t); spots.push_back (&k->items[0].text); } else { k->attrs.push_back ({ "zz", "v" }); spots.push_back (&k->attrs.back ().second); } }
    Str * t = spots[r.below ((uint32_t) spots.size ())]; t->insert (whole (r, *t), wrong (r)); body = serialize_doc (r, *k, s).text;
  }
  x = head + body; at = bad_at (x); bad = at >= 0; if (bom) x = "\xEF\xBB\xBF" + x; c.note ("%s at %ld of %d, bom %d encoding '%s'", bad ? "invalid" : "valid", at, (int) x.size (), (int) bom, enc.c_str ()); c.noteData ("document", x);
  Babel on; axlError * e = nullptr; bool none = r.chance (1, 10); axlDoc * d = load (c, x, none ? NULL : &e); bool has = e != nullptr; int code = has ? axl_error_get_code (e) : 0; Str em = err_take (e); DocHold h (d); c.count (bad ? "invalid" : "valid"); if (bom) c.count ("with_bom"); c.maxi ("bytes_max", x.size ());
  if (bad) { unsigned char lead = (unsigned char) x[(size_t) at + (bom ? 3 : 0)]; c.state ("wrong_leads", lead); CHECK (c, !d, "invalid-accepted", "bytes that are not UTF-8 at %ld (0x%x) are accepted", at, lead); if (!none) CHECK (c, has && code && !em.empty (), "verdict-error", "rejected without an error"); }
  else { CHECK (c, d, "valid-rejected", "valid UTF-8 is rejected: %s", em.c_str ()); CHECK (c, canon (*m) == canon_axl (axl_doc_get_root (d)), "altered", "content altered"); if (!none) CHECK (c, !has, "verdict-error", "accepted with an error"); }
  c.distinct (x);
}

// the public check on its own
MODE (utf8func) {
  Rng & r = c.rng; Str s; for (int i = r.range (0, 12); i > 0; i--) { if (r.chance (1, 3)) s += (char) r.range (1, 127); else s += good (r); } if (r.chance (1, 2)) { size_t at = r.below ((uint32_t) s.size () + 1); s.insert (at, wrong (r)); } if (r.chance (1, 4)) { s.clear (); for (int i = r.range (1, 5); i > 0; i--) s += (char) r.range (r.chance (1, 2) ? 0x78 : 0xBE, 0xFF); } if (s.size () && r.chance (1, 8)) s.erase (s.size () - 1);
  c.noteData ("content", s); long want = bad_at (s); bool z = r.chance (1, 2); std::unique_ptr<char[]> b (new char[s.size () + (z ? 1 : 0) + (s.empty () && !z)]); memcpy (b.get (), s.data (), s.size ()); if (z) b[s.size ()] = 0;
  int idx = -5; bool ok = axl_babel_check_utf8_content (b.get (), z && r.chance (1, 2) ? -1 : (int) s.size (), r.chance (1, 8) ? NULL : &idx); c.count (want < 0 ? "valid" : "invalid"); if (want >= 0) c.state ("wrong_leads", (unsigned char) s[(size_t) want]);
  CHECK (c, ok == (want < 0), ok ? "invalid-accepted" : "valid-rejected", "first wrong byte expected at %ld, the check says %d (%d)", want, (int) ok, idx); if (!ok && idx != -5) CHECK (c, idx == (int) want, "index", "the error is reported at %d instead of %ld", idx, want); c.distinct (s);
}

MODE (fuzzbabel) {
  Rng & r = c.rng; const Part & p = part (r); GenCfg g; g.maxNodes = 10; MP m = gen_tree (r, g); sow (r, *m, [&] { return r.chance (1, 2) ? good (r) : r.chance (1, 2) ? hi (r, p) : wrong (r); }); if (r.chance (1, 5)) fill (r, *m, good (r), (size_t) r.range (2000, 20000)); SerCfg s; s.header = false; Str x = header (r, r.chance (1, 3) ? "utf-8" : fmt ("iso-8859-%d", p.n)) + serialize_doc (r, *m, s).text; static const std::vector<Str> dict = { "\xEF\xBB\xBF", Str ("\xFF\xFE", 2), Str ("\xFF\xFE\0\0", 4), Str ("\xFE\xFF", 2), "encoding=", "utf-8", "iso-8859-15", "<", ">", "&", Str (1, '\0'), "\xC3", "\xE2\x82", "\xF0\x9F" }; x = mutate_bytes (r, x, dict); if (r.chance (1, 6)) x.insert (0, r.pick (dict)); if (r.chance (1, 20)) x = x.substr (0, r.below (8)); c.noteData ("document", x);
  Babel on; axlError * e = nullptr; bool none = r.chance (1, 8); axlDoc * d = load (c, x, none ? NULL : &e); bool has = e != nullptr; Str em = err_take (e); DocHold h (d); c.count (d ? "accepted" : "rejected"); if (!none) CHECK (c, has == !d, "verdict-error", d ? "accepted with an error" : "rejected without an error"); if (d && axl_doc_get_root (d)) { char * t = NULL; int n = 0; axl_doc_dump (d, &t, &n); axl_free (t); } c.distinct (x);
}

// encodings installed by the program: handlers of its own for detection, configuration, decoding and checking
namespace {
struct Codec {
  enum What { NOTHING, DECODE, CHECKED } what = NOTHING;
  unsigned char key = 0; int bad = -1; Str map[128];          // the byte b stands for map[b ^ key], ASCII for itself; `bad' stands for nothing
  const char * detected = nullptr; Str expected; bool declared = false, enc_given = true; size_t skip = 0;
  bool fail_detect = false, fail_configure = false, with_error = false, stopped = false; int detects = 0, configures = 0, calls = 0, full = 0, nothing_fits = 0, held_back = 0, freed = 0, linked = 0; axlPointer data = nullptr;
  Str seen, held, wrong; void no (const Str & s) { if (wrong.empty ()) wrong = s; }
};
static Codec * t_codec;
static void codec_unlink (axlPointer p) { ((Codec *) p)->freed++; }
static axl_bool codec_detect (axlStream * stream, const char ** detected, axlPointer data, axlError ** error) {
  Codec & k = *t_codec; k.detects++; if (data != k.data) k.no ("the detection handler received other data"); if (!stream || !detected) { k.no ("the detection handler received no stream, or no place for the encoding"); return axl_false; }
  if (k.fail_detect) { if (k.with_error) axl_error_new (-77, (char *) "no encoding detected", NULL, error); return axl_false; }
  if (axl_stream_fall_outside (stream, (int) k.skip)) k.no ("the first bytes of the document cannot be reached by the detection handler");
  for (size_t i = 0; i < k.skip; i++) if (!axl_stream_inspect_code (stream, (char) (0x80 + i), (int) i)) k.no ("the first bytes of the document do not show to the detection handler");
  if (k.skip) axl_stream_move (stream, axl_stream_get_index (stream) + (int) k.skip); *detected = k.detected; return axl_true;
}
static void codec_take (Codec & k, const char * s, int n) { if (n < 0) { k.no ("a piece of negative size"); return; } k.seen.append (s, (size_t) n); }
static int codec_decode (const char * src, int n, const char * enc, char * out, int room, int * conv, int * remain, axlPointer data) {
  Codec & k = *t_codec; k.calls++; if (data != k.data) k.no ("the decoder received other data"); if ((enc != NULL) != k.enc_given || (enc && k.expected + "!" != enc)) k.no (Str ("the decoder was told the encoding ") + (enc ? enc : "(none)")); if (n < 0) k.no ("the decoder was called with a negative size"); if (k.stopped) return 0; if (room < 0) { k.no ("the decoder was called with negative room"); return 0; }
  int o = 0; for (int i = 0; i < n; i++) { unsigned char b = (unsigned char) src[i] ^ k.key; if ((int) b == k.bad) { codec_take (k, src, i); k.stopped = true; return 0; }
    size_t len = b < 0x80 ? 1 : k.map[b - 128].size (); if (o + (int) len > room) { codec_take (k, src, i); *conv = o; *remain = i; k.full++; if (!o) k.nothing_fits++; return 2; }
    if (b < 0x80) out[o++] = (char) b; else { memcpy (out + o, k.map[b - 128].data (), len); o += (int) len; } }
  codec_take (k, src, n); *conv = o; return 1;
}
static int codec_check (const char * src, int n, const char * enc, axlPointer data, axlError **) {
  Codec & k = *t_codec; k.calls++; if (data != k.data) k.no ("the check received other data"); if ((enc != NULL) != k.enc_given || (enc && k.expected + "!" != enc)) k.no (Str ("the check was told the encoding ") + (enc ? enc : "(none)"));
  if (k.stopped) return 0;
  if (n < (int) k.held.size () || memcmp (src, k.held.data (), k.held.size ())) { k.no ("the bytes held back do not come again"); return 0; } codec_take (k, src + k.held.size (), n - (int) k.held.size ()); k.held.clear ();
  for (int i = 0; i < n; i++) if ((unsigned char) src[i] == k.bad) { k.stopped = true; return 0; }
  int h = 0; while (h < 3 && h < n && (unsigned char) src[n - 1 - h] >= 0x80) h++; if (h && k.held_back >= 0) { k.held_back++; k.held.assign (src + n - h, (size_t) h); return -h; } return 1;
}
static axl_bool codec_configure (axlStream * stream, const char * enc, const char * detected, axlPointer data, axlError ** error) {
  Codec & k = *t_codec; k.configures++; if (data != k.data) k.no ("the configuration handler received other data"); if (detected != k.detected) k.no ("the configuration handler did not receive the encoding detected"); if ((enc != NULL) != k.declared || (enc && k.expected != enc)) k.no (Str ("the configuration handler received the encoding ") + (enc ? enc : "(none)"));
  if (k.linked) axl_stream_link_full (stream, &k, codec_unlink, axl_true);
  if (k.fail_configure) { if (k.with_error) axl_error_new (-78, (char *) "encoding not known", NULL, error); return axl_false; }
  Str name = k.expected + "!"; const char * n = k.enc_given ? name.c_str () : NULL;
  if (k.what == Codec::DECODE) return axl_stream_setup_decode (stream, n, codec_decode, k.data, error); if (k.what == Codec::CHECKED) return axl_stream_setup_check (stream, n, codec_check, k.data, error); return axl_true;
}
struct CodecOn { CodecOn (Codec & k) { t_codec = &k; axl_doc_set_detect_codification_func (codec_detect, k.data); axl_doc_set_configure_codification_func (codec_configure, k.data); } ~CodecOn () { axl_doc_set_detect_codification_func (NULL, NULL); axl_doc_set_configure_codification_func (NULL, NULL); t_codec = nullptr; } };
}

MODE (codec) {
  Rng & r = c.rng; Codec k; int dummy; k.data = r.chance (1, 4) ? NULL : (axlPointer) &dummy; k.what = (Codec::What) (r.chance (1, 8) ? 0 : r.chance (2, 3) ? 1 : 2); k.enc_given = r.chance (2, 3); k.linked = r.chance (1, 2);
  GenCfg g; g.unicode = false; g.maxNodes = r.chance (1, 10) ? 80 : 15; MP m = gen_tree (r, g); auto high = [&] { return Str (1, (char) r.range (0x82, 0xFF)); }; sow (r, *m, high, false); if (r.chance (1, 2)) fill (r, *m, high () + (r.chance (1, 2) ? "a" : "") + high (), (size_t) (r.chance (1, 4) ? r.range (20000, 60000) : r.range (2000, 9000)));
  // `u' is a mark of its own, so what the bytes stand for can be told apart
  int longest = r.chance (1, 3) ? 0 : r.range (1, 5); if (k.what == Codec::DECODE) { if (r.chance (1, 2)) k.key = (unsigned char) r.range (0x80, 0xFF); for (int i = 0; i < 128; i++) { k.map[i] = utf8 (0xE000 + (unsigned) i); for (int j = (int) r.below ((uint32_t) longest + 1); j > 0; j--) k.map[i] += r.chance (1, 2) ? Str (1, (char) r.range ('a', 'z')) : utf8 (r.chance (1, 2) ? 0xE9 : 0x4E2D); } }
  if (k.what == Codec::CHECKED && r.chance (1, 4)) k.held_back = -1;
  SerCfg s; s.header = s.doctype = s.trailer = false; Str body = serialize_doc (r, *m, s).text; size_t end = body.size (); Str declared = r.chance (1, 5) ? Str () : case_mix (r, r.pick (std::vector<Str> { "x-own", "x_own", "koi8-r", "a_b-c_d", "utf-8", "iso-8859-1", "x" })); k.expected = declared; k.expected.erase (std::remove_if (k.expected.begin (), k.expected.end (), [] (char ch) { return ch == '-' || ch == '_'; }), k.expected.end ()); for (auto & ch : k.expected) ch = (char) tolower (ch); k.declared = !declared.empty (); if (k.declared && r.chance (1, 10)) declared = " " + declared + " ";
  bool head = k.declared || r.chance (1, 2); if (!head && is_ws (body[0])) head = true; static const std::vector<const char *> found = { NULL, "own", "utf8", "" }; k.detected = r.pick (found); if (r.chance (1, 4)) k.skip = (size_t) r.range (1, 4); k.with_error = r.chance (2, 3); if (r.chance (1, 25)) k.fail_detect = true; else if (r.chance (1, 25)) k.fail_configure = true;
  if (r.chance (1, 3)) body += Str (r.below (2), '\n') + "<!-- " + high () + Str ((size_t) (r.chance (1, 2) ? r.range (0, 30) : r.range (3000, 9000)), 't') + high () + " -->";
  bool bad = k.what != Codec::NOTHING && r.chance (1, 5); size_t bad_at = 0; if (bad) { k.bad = 0x81; std::vector<size_t> at; for (size_t i = 0; i < end; i++) if ((unsigned char) body[i] >= 0x82) at.push_back (i); if (at.empty ()) { bad = false; k.bad = -1; } else { bad_at = r.chance (1, 3) ? at.back () : r.pick (at); body[bad_at] = (char) 0x81; } }
  Str raw = body; for (auto & ch : raw) ch = (char) ((unsigned char) ch ^ k.key); Str hd = head ? header (r, declared) : Str (); while (!hd.empty () && hd.back () == '\n') hd.erase (hd.size () - 1); Str x; for (size_t i = 0; i < k.skip; i++) x += (char) (0x80 + i); x += hd + raw;
  c.note ("%s, key %d, encoding '%s' detected %s skip %d%s%s%s", k.what == 0 ? "nothing set up" : k.what == 1 ? "decoder" : "check", k.key, declared.c_str (), k.detected ? k.detected : "(none)", (int) k.skip, k.fail_detect ? ", detection fails" : "", k.fail_configure ? ", configuration fails" : "", bad ? fmt (", wrong byte at %d of %d", (int) bad_at, (int) body.size ()).c_str () : ""); c.noteData ("document", x);
  axlError * e = nullptr; axlDoc * d; { CodecOn on (k); d = load (c, x, r.chance (1, 10) ? NULL : &e); } bool has = e != nullptr; int code = has ? axl_error_get_code (e) : 0; Str em = err_take (e); DocHold h (d); c.count ("documents"); c.count (k.what == 0 ? "bare" : k.what == 1 ? "decoded" : "checked"); c.count ("handler_calls", (uint64_t) k.calls); c.count ("out_of_room", (uint64_t) k.full); c.count ("no_room_at_all", (uint64_t) k.nothing_fits); if (k.held_back > 0) c.count ("held_back", (uint64_t) k.held_back); c.maxi ("bytes_max", x.size ());
  CHECK (c, k.wrong.empty (), "handler", "%s", k.wrong.c_str ()); CHECK (c, k.detects == 1, "detect", "the detection handler was called %d times", k.detects);
  CHECK (c, k.freed == (k.linked && k.configures), "linked", "what was linked to the stream was released %d times (linked %d)", k.freed, k.linked && k.configures);
  if (k.fail_detect || k.fail_configure) { c.count ("handler_fails"); CHECK (c, !d, "failed-accepted", "accepted although a handler reports a failure"); CHECK (c, k.configures == (k.fail_detect ? 0 : 1) && !k.calls, "order", "handlers called after one that failed"); if (k.with_error && has) CHECK (c, code == (k.fail_detect ? -77 : -78), "verdict-error", "the error of the handler is not the one reported: %d %s", code, em.c_str ()); return; }
  CHECK (c, k.configures == 1, "configure", "the configuration handler was called %d times", k.configures);
  Str in = raw; if (in.compare (0, k.seen.size (), k.seen)) { size_t i = 0; while (i < in.size () && i < k.seen.size () && in[i] == k.seen[i]) i++; c.fail ("bytes", "the handler did not see the bytes of the document in order, from byte %d of %d (seen %d)", (int) i, (int) in.size (), (int) k.seen.size ()); }
  if (bad) { c.count ("wrong_bytes"); CHECK (c, !d, "invalid-accepted", "a byte the %s does not accept, at %d of %d, is accepted", k.what == 1 ? "decoder" : "check", (int) bad_at, (int) body.size ()); return; }
  MP want = clone_model (*m); if (k.what == Codec::DECODE) map_strings (*want, [&] (const Str & t) { Str o; for (unsigned char b : t) o += b < 0x80 ? Str (1, (char) b) : k.map[b - 128]; return o; });
  CHECK (c, d, "rejected", "rejected: %s", em.c_str ()); CHECK (c, !has, "verdict-error", "accepted with an error"); if (k.what != Codec::NOTHING) CHECK (c, k.seen.size () >= end, "bytes", "the handler saw %d bytes of %d", (int) k.seen.size (), (int) end);
  Str a = canon (*want), b = canon_axl (axl_doc_get_root (d)); if (a != b) { size_t i = 0; while (i < a.size () && i < b.size () && a[i] == b[i]) i++; c.fail ("content", "content differs at %d: expected ...%s, found ...%s", (int) i, vis (a.substr (i > 20 ? i - 20 : 0), 80).c_str (), vis (b.substr (i > 20 ? i - 20 : 0), 80).c_str ()); }
  check_links (c, axl_doc_get_root (d), NULL, "content"); CHECK (c, !strcmp (axl_doc_get_encoding (d), "utf-8"), "encoding", "encoding reported %s", axl_doc_get_encoding (d));
  if (k.what != Codec::CHECKED && r.chance (1, 3)) { char * t = NULL; int n = 0; CHECK (c, axl_doc_dump (d, &t, &n), "dump", "cannot be dumped"); Str out (t, (size_t) n); axl_free (t); Codec before = k; axlDoc * d2 = load (c, out, &e); em = err_take (e); DocHold h2 (d2); CHECK (c, d2, "dump", "its dump is rejected: %s", em.c_str ()); CHECK (c, canon_axl_com (axl_doc_get_root (d2)) == canon_axl_com (axl_doc_get_root (d)), "dump", "its dump reads as another document"); CHECK (c, k.calls == before.calls && k.detects == 1, "removed", "handlers removed are called"); c.count ("dumped"); }
  c.sample (fmt ("%s of %d bytes, key %d, %d calls, %d times out of room", k.what == 0 ? "nothing set up" : k.what == 1 ? "decoder" : "check", (int) x.size (), k.key, k.calls, k.full));
  c.distinct (x);
}
