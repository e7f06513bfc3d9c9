// Serialisation: dumps can be parsed again to the same document, and escaping hides every special character.
#include "model.hpp"
#include <unistd.h>

static void expect_same (Ctx & c, const Str & want, const Str & got, const char * key, const char * what) {
  if (want == got) { c.count ("trees_compared"); return; }
  size_t i = 0; while (i < want.size () && i < got.size () && want[i] == got[i]) i++;
  size_t f = i > 60 ? i - 60 : 0;
  c.fail (key, "%s: differs at %zu: expected ...%s, found ...%s", what, i, vis (want.substr (f, 160)).c_str (), vis (got.substr (f, 160)).c_str ());
}
static Str take (Ctx & c, char * s, int size, const char * what) {
  CHECK (c, s, "dump-null", "%s gave no content", what);
  Str o (s); axl_free (s);
  CHECK (c, (int) o.size () == size, "dump-size", "%s reported %d bytes, wrote %zu", what, size, o.size ());
  return o;
}
static axlDoc * reparse (Ctx & c, const Str & text, const char * what) {
  axlError * e = nullptr; axlDoc * d = parse_mem (text, &e); Str em = err_take (e);
  CHECK (c, d, "dump-unreadable", "%s cannot be parsed again (%s): %s", what, vis (em).c_str (), vis (text).c_str ());
  return d;
}
static bool many (const MNode & n) { if (n.attrs.size () > 10) return true; for (auto & i : n.items) if (i.k == K_ELEM && many (*i.node)) return true; return false; }
static bool has_comment (const MNode & n) { for (auto & i : n.items) if (i.k == K_COMMENT || (i.k == K_ELEM && has_comment (*i.node))) return true; return false; }

MODE (dump) {
  GenCfg g; g.bigText = c.rng.chance (1, 10); g.xmlspace = false;
  switch (c.rng.below (5)) { case 0: g.maxNodes = 90; g.maxKids = 10; break; case 1: g.maxNodes = 80; g.maxDepth = 40; g.maxKids = 2; g.deep = true; break; case 2: g.maxNodes = 3; break; default: break; }
  bool space = c.rng.chance (1, 5); g.xmlspace = space;
  MP m = gen_tree (c.rng, g); DocHold d; Str enc; bool sta = false;
  if (c.rng.chance (1, 2)) {
    SerCfg s; DocText t = serialize_doc (c.rng, *m, s); c.noteData ("document", t.text);
    axlError * e = nullptr; d.d = parse_mem (t.text, &e); Str em = err_take (e);
    CHECK (c, d.d, "reject-wellformed", "well-formed document rejected: %s", vis (em).c_str ());
    if (t.hasEncoding) enc = t.encoding;
    sta = t.standalone; c.count ("from_text");
  } else {
    bool he = c.rng.chance (1, 2); sta = c.rng.chance (1, 2); if (he) enc = c.rng.pick (std::vector<Str> { "utf-8", "UTF-8", "utf-8", "iso-8859-15", "ISO-10646-UCS-2", "x", "Extended_UNIX_Code_Packed_Format_for_Japanese" });
    d.d = axl_doc_create (c.rng.chance (1, 2) ? "1.0" : NULL, he ? enc.c_str () : NULL, sta);
    axl_doc_set_root (d.d, build_axl (c.rng, *m));
    c.noteData ("built model", canon (*m)); c.count ("from_api");
  }
  axlNode * root = axl_doc_get_root (d.d);
  Str before = canon_axl (root); expect_same (c, canon (*m), before, "tree", "live tree");
  Str want = canon_com (*m), wantTrim = canon_trim (*m);
  // compact
  char * out = (char *) "x"; int size = -5; axl_bool ok = axl_doc_dump (d.d, &out, &size);
  CHECK (c, ok, "dump-failed", "document dump failed");
  Str text = take (c, out, size, "document dump"); c.noteData ("dump", text);
  CHECK (c, axl_doc_get_flat_size (d.d) == size, "dump-size", "flat size %d, dump %d", axl_doc_get_flat_size (d.d), size);
  {
    DocHold d2 (reparse (c, text, "document dump"));
    expect_same (c, want, canon_axl_com (axl_doc_get_root (d2.d)), "roundtrip", "dump parsed again");
    const char * e2 = axl_doc_get_encoding (d2.d);
    if (!enc.empty ()) CHECK (c, e2 && enc == e2, "roundtrip-header", "encoding %s became %s", enc.c_str (), e2 ? e2 : "(null)");
    CHECK (c, !!axl_doc_get_standalone (d2.d) == sta, "roundtrip-header", "standalone %d became %d", (int) sta, (int) axl_doc_get_standalone (d2.d));
    char * o2 = nullptr; int s2 = 0; CHECK (c, axl_doc_dump (d2.d, &o2, &s2), "dump-failed", "second dump failed");
    Str t2 = take (c, o2, s2, "second dump");
    if (!many (*m)) CHECK (c, t2 == text, "dump-unstable", "dump of the parsed dump differs: %s", vis (t2).c_str ());
    CHECK (c, axl_doc_are_equal_trimmed (d2.d, d.d), "roundtrip-equal", "the parsed dump is not reported equal to the document");
    if (!has_comment (*m)) CHECK (c, axl_doc_are_equal (d.d, d2.d), "roundtrip-equal", "the parsed dump is not reported exactly equal to the document");
    c.count ("roundtrips");
  }
  CHECK (c, canon_axl (root) == before, "dump-changes", "dumping changed the tree");
  // indented
  if (!space) {
    int tab = c.rng.range (0, 8); out = nullptr; size = -5;
    CHECK (c, axl_doc_dump_pretty (d.d, &out, &size, tab), "dump-failed", "indented dump failed");
    Str pt = take (c, out, size, "indented dump"); c.noteData ("indented", pt);
    CHECK (c, axl_doc_get_flat_size_pretty (d.d, tab) == size, "dump-size", "indented flat size %d, dump %d", axl_doc_get_flat_size_pretty (d.d, tab), size);
    { DocHold d2 (reparse (c, pt, "indented dump")); expect_same (c, wantTrim, canon_axl_trim (axl_doc_get_root (d2.d)), "roundtrip-pretty", "indented dump parsed again"); }
    c.count ("pretty_roundtrips");
    // files hold the same bytes
    if (c.rng.chance (1, 4)) {
      Str p = c.path ("d.xml");
      CHECK (c, axl_doc_dump_to_file (d.d, p.c_str ()), "file", "dump to file failed"); CHECK (c, read_file (p) == text, "file", "the file differs from the dump");
      CHECK (c, axl_doc_dump_pretty_to_file (d.d, p.c_str (), tab), "file", "indented dump to file failed"); CHECK (c, read_file (p) == pt, "file", "the file differs from the indented dump");
      CHECK (c, !axl_doc_dump_to_file (d.d, c.path ("no/such/dir.xml").c_str ()), "file", "dump into a missing folder reported as done");
      CHECK (c, !axl_doc_dump_pretty_to_file (d.d, c.path ("no/such/dir.xml").c_str (), tab), "file", "indented dump into a missing folder reported as done");
      if (access ("/dev/full", W_OK) == 0) {
        CHECK (c, !axl_doc_dump_to_file (d.d, "/dev/full"), "file-full", "dump reported as done, but no byte could be stored");
        CHECK (c, !axl_doc_dump_pretty_to_file (d.d, "/dev/full", tab), "file-full", "indented dump reported as done, but no byte could be stored");
        CHECK (c, !axl_node_dump_to_file (root, (char *) "/dev/full") && !axl_node_dump_pretty_to_file (root, (char *) "/dev/full", tab), "file-full", "node dump reported as done, but no byte could be stored");
        c.count ("full_device");
      }
      CHECK (c, axl_node_dump_to_file (root, (char *) p.c_str ()), "file", "node dump to file failed");
      { Str ft = read_file (p); DocHold d2 (reparse (c, ft, "node file")); expect_same (c, wantTrim, canon_axl_trim (axl_doc_get_root (d2.d)), "roundtrip-file", "node file parsed again"); }
      CHECK (c, axl_node_dump_pretty_to_file (root, (char *) p.c_str (), tab), "file", "indented node dump to file failed");
      { Str ft = read_file (p); DocHold d2 (reparse (c, ft, "indented node file")); expect_same (c, wantTrim, canon_axl_trim (axl_doc_get_root (d2.d)), "roundtrip-file", "indented node file parsed again"); }
      { axlNode * any = axl_node_get_first_child (root); if (!any || c.rng.chance (1, 3)) any = root;
        char * o = nullptr; int z = 0; CHECK (c, axl_node_dump (any, &o, &z) && axl_node_dump_to_file (any, (char *) p.c_str ()), "file", "node dump failed");
        CHECK (c, read_file (p) == take (c, o, z, "node dump"), "file", "the node file differs from the node dump");
        o = nullptr; CHECK (c, axl_node_dump_pretty (any, &o, &z, tab) && axl_node_dump_pretty_to_file (any, (char *) p.c_str (), tab), "file", "indented node dump failed");
        CHECK (c, read_file (p) == take (c, o, (int) strlen (o), "indented node dump"), "file", "the indented node file differs from the indented node dump"); }
      unlink (p.c_str ()); c.count ("file_dumps");
    }
  }
  // one node of the tree
  std::vector<MNode *> ms; collect (*m, ms); size_t k = c.rng.below ((uint32_t) ms.size ());
  std::vector<axlNode *> as; std::function<void (axlNode *)> w = [&] (axlNode * n) { as.push_back (n); for (axlNode * x = axl_node_get_first_child (n); x; x = axl_node_get_next (x)) w (x); }; w (root);
  out = nullptr; size = -5; CHECK (c, axl_node_dump (as[k], &out, &size), "dump-failed", "node dump failed");
  Str nt = take (c, out, size, "node dump"); CHECK (c, axl_node_get_flat_size (as[k], axl_false, 0, 0) == size, "dump-size", "node flat size differs from its dump");
  if (!ms[k]->preserve || k == 0) { DocHold d2 (reparse (c, nt, "node dump")); expect_same (c, canon_com (*ms[k]), canon_axl_com (axl_doc_get_root (d2.d)), "roundtrip-node", "node dump parsed again"); }
  out = nullptr; int tab = c.rng.range (0, 6); CHECK (c, axl_node_dump_pretty (as[k], &out, c.rng.chance (1, 2) ? &size : NULL, tab), "dump-failed", "indented node dump failed");
  Str np = take (c, out, out ? (int) strlen (out) : 0, "indented node dump");
  if (!space) { DocHold d2 (reparse (c, np, "indented node dump")); expect_same (c, canon_trim (*ms[k]), canon_axl_trim (axl_doc_get_root (d2.d)), "roundtrip-node", "indented node dump parsed again"); }
  // into a place of the caller
  { int at = c.rng.range (0, 9), sz = axl_node_get_flat_size (as[k], axl_false, 0, 0); Str buf ((size_t) (at + sz), '\1');
    int end = axl_node_dump_at (as[k], &buf[0], at, axl_false, 0, 0);
    CHECK (c, end == at + sz, "dump-size", "dump in place ends at %d, not at %d", end, at + sz);
    CHECK (c, buf.substr (0, (size_t) at) == Str ((size_t) at, '\1') && buf.substr ((size_t) at) == nt, "dump-at", "dump in place differs from the dump"); }
  c.count ("documents"); c.count ("bytes", text.size ()); c.maxi ("depth", tree_depth (*m)); c.maxi ("nodes", count_nodes (*m));
  if (count_nodes (*m) > 1) c.distinct (text);
  if (c.index < 3) c.sample (text);
}

// --- any character data survives: set, dump, parse, read translated
static Str gen_special (Rng & r, int max) {
  static const char * p[] = { "<", ">", "&", "'", "\"", "]]>", "]]", "]", "&amp;", "&lt;", "&#10;", "&x", "&apos", ";", "<!--", "-->", "<![CDATA[", "<?", "?>", "</a>", "a", " ", "\n", "\t", "xyz", "\xc3\xa9", "\xe2\x82\xac", "&&", "''", "\"'" };
  Str s; int n = r.range (1, max); for (int i = 0; i < n; i++) s += p[r.below (sizeof p / sizeof *p)];
  return s;
}
// exact-size buffer, not terminated
struct Exact { char * p; explicit Exact (const Str & s) { p = (char *) malloc (s.size () ? s.size () : 1); memcpy (p, s.data (), s.size ()); } ~Exact () { free (p); } };
MODE (escape) {
  int max = c.rng.chance (1, 10) ? 200 : 14; if (c.rng.chance (1, 1500)) { max = c.rng.chance (1, 3) ? 40000 : 4000; c.count ("long_contents"); }
  Str s = gen_special (c.rng, max); if (has_blank_only (s)) s += "z";
  c.noteData ("text", s);
  bool special = s.find_first_of ("<>&\"'") != Str::npos;
  // helpers
  { Exact b (s); int add = -3; axl_bool inv = axl_node_has_invalid_chars (b.p, (int) s.size (), &add);
    CHECK (c, !!inv == special, "detect", "special characters %s, reported %s", special ? "present" : "absent", inv ? "present" : "absent");
    Str want = escape_defaults (s);
    CHECK (c, add == (int) (want.size () - s.size ()), "detect-size", "escaping adds %zu bytes, reported %d", want.size () - s.size (), add);
    char * e = axl_node_content_copy_and_escape (b.p, (int) s.size (), add); Str es (e ? e : "(null)");
    if (e) { int sz = c.rng.chance (1, 2) ? -1 : (int) es.size (); char * t = axl_node_content_translate_defaults (e, &sz); Str ts (t ? Str (t) : Str ("(null)")); axl_free (e);
      CHECK (c, es == want, "escape", "escaped form is %s", vis (es).c_str ());
      CHECK (c, ts == s && sz == (int) s.size (), "translate", "escaped then translated gives %s (%d)", vis (ts).c_str (), sz); }
    int add2 = 0; axl_bool inv2 = axl_node_has_invalid_chars (s.c_str (), -1, &add2); CHECK (c, inv2 == inv && add2 == add, "detect", "detection differs when the size is not given");
    CHECK (c, axl_node_has_invalid_chars (s.c_str (), -1, NULL) == inv, "detect", "detection differs when the size is not wanted");
    c.count ("helper_checks");
  }
  // part of a longer text: what follows must not matter
  { Str longer = s + (c.rng.chance (1, 2) ? ">" : "]]>rest"); int add = 0; axl_node_has_invalid_chars (longer.c_str (), (int) s.size (), &add);
    CHECK (c, add == (int) (escape_defaults (s).size () - s.size ()), "detect-size", "bytes after the given size were counted"); }
  Str t2 = gen_special (c.rng, max), t3 = gen_special (c.rng, max), a1 = gen_special (c.rng, max), a2 = gen_special (c.rng, 4); if (has_blank_only (t2)) t2 += "q"; if (has_blank_only (t3)) t3 += "w";
  c.noteData ("t2", t2); c.noteData ("t3", t3); c.noteData ("a1", a1);
  auto doc = axl_doc_create ("1.0", "utf-8", axl_true); DocHold d (doc);
  axlNode * root = axl_node_create ("root"), * n1 = axl_node_create ("n1"), * n2 = axl_node_create ("n2"), * n3 = axl_node_create ("n3");
  axl_doc_set_root (doc, root); axl_node_set_child (root, n1); axl_node_set_child (root, n2); axl_node_set_child (root, n3);
  { Exact b (s); if (c.rng.chance (1, 2)) axl_node_set_content (n1, b.p, (int) s.size ()); else axl_node_set_content (n1, s.c_str (), -1); }
  { Exact b (t2); if (c.rng.chance (1, 2)) axl_node_set_cdata_content (n2, b.p, (int) t2.size ()); else axl_node_set_cdata_content (n2, t2.c_str (), -1); }
  bool cd3 = c.rng.chance (1, 2);
  axl_node_set_content (n3, t3.c_str (), (int) t3.size ()); if (cd3) { axl_node_set_cdata_content (n3, s.c_str (), -1); axl_node_set_content (n3, t2.c_str (), -1); }
  axl_node_set_attribute (n1, "at", a1.c_str ()); axl_node_set_attribute (n1, "bt", a2.c_str ());
  auto verify = [&] (axlNode * r, bool live, const char * what) {
    axlNode * x1 = axl_node_get_child_called (r, "n1"), * x2 = axl_node_get_child_called (r, "n2"), * x3 = axl_node_get_child_called (r, "n3");
    CHECK (c, x1 && x2 && x3, "structure", "%s: nodes lost", what);
    int sz = -1; char * t = axl_node_get_content_trans (x1, c.rng.chance (1, 2) ? &sz : NULL); Str v (t ? t : "(null)"); axl_free (t);
    CHECK (c, v == s && (sz == -1 || sz == (int) s.size ()), "content", "%s: content %s read back as %s (%d)", what, vis (s).c_str (), vis (v).c_str (), sz);
    if (!live) { sz = -1; t = axl_node_get_content_trans (x2, &sz); v = t ? t : "(null)"; axl_free (t);
      CHECK (c, v == t2 && sz == (int) t2.size (), "cdata", "%s: cdata %s read back as %s (%d)", what, vis (t2).c_str (), vis (v).c_str (), sz);
      Str w3 = t3 + (cd3 ? s + t2 : Str ()); t = axl_node_get_content_trans (x3, NULL); v = t ? t : "(null)"; axl_free (t);
      CHECK (c, v == w3, "mixed", "%s: content in several pieces %s read back as %s", what, vis (w3).c_str (), vis (v).c_str ()); }
    t = axl_node_get_attribute_value_trans (x1, "at"); v = t ? t : "(null)"; axl_free (t);
    CHECK (c, v == a1, "attribute", "%s: attribute %s read back as %s", what, vis (a1).c_str (), vis (v).c_str ());
    t = axl_node_get_attribute_value_trans (x1, "bt"); v = t ? t : "(null)"; axl_free (t);
    CHECK (c, v == a2, "attribute", "%s: attribute %s read back as %s", what, vis (a2).c_str (), vis (v).c_str ());
    const char * raw = axl_node_get_attribute_value (x1, "at"); CHECK (c, raw && escape_defaults (a1) == raw, "attribute-raw", "%s: stored attribute is %s", what, vis (raw).c_str ());
    char * cp = axl_node_get_attribute_value_copy (x1, "at"); Str cps (cp ? cp : "(null)"); axl_free (cp); CHECK (c, cps == raw, "attribute-raw", "%s: copy of the attribute differs", what);
    CHECK (c, axl_node_num_attributes (x1) == 2 && axl_node_get_child_num (r) == 3 && axl_node_get_child_num (x1) == 0 && axl_node_get_child_num (x2) == 0, "structure", "%s: data became structure", what);
    const char * rc = axl_node_get_content (x1, &sz); CHECK (c, rc && escape_defaults (s) == rc && sz == (int) strlen (rc), "content-raw", "%s: stored content is %s", what, vis (rc).c_str ());
    cp = axl_node_get_content_copy (x1, NULL); cps = cp ? cp : "(null)"; axl_free (cp); CHECK (c, cps == rc, "content-raw", "%s: copy of the content differs", what);
    c.count ("values_read_back", 5);
  };
  verify (root, true, "live");
  char * o = nullptr; int size = 0;
  CHECK (c, axl_doc_dump (doc, &o, &size), "dump-failed", "dump failed"); Str text = take (c, o, size, "dump"); c.noteData ("dump", text);
  { DocHold d2 (reparse (c, text, "dump")); verify (axl_doc_get_root (d2.d), false, "parsed again");
    o = nullptr; CHECK (c, axl_doc_dump (d2.d, &o, &size), "dump-failed", "dump failed"); Str again = take (c, o, size, "dump"); CHECK (c, again == text, "dump-unstable", "escaped again when dumped again: %s", vis (again).c_str ()); }
  { axlNode * cp = axl_node_copy (root, axl_true, axl_true); CHECK (c, cp, "copy", "copy failed"); verify (cp, true, "copy"); axl_node_free (cp); }
  c.count ("documents"); if (special) c.distinct (s + t2 + a1);
  if (c.index < 3) c.sample (s);
}
