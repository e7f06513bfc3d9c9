// Parsing: faithful trees, rejection of ill-formed text, file/memory agreement, hostile input.
#include "model.hpp"
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>

static const std::vector<Str> & xml_dict () {
  static const std::vector<Str> d = [] {
    Untracked u; std::vector<Str> d;
    const char * w[] = { "<", ">", "</", "/>", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "<?xml", "<?xml version=\"1.0\"?>", "<?xml version='1.0' encoding='utf-8' standalone='yes' ?>",
      "version=", "encoding=\"", "standalone=\"", "standalone='y'", "standalone=\"\"", "<!DOCTYPE", "<!DOCTYPE a>", "\"", "'", "=", " ", "\n", "\t", "\r", "&lt;", "&amp;", "&", ";", "&#10;", "xml:space=\"preserve\"", "xml:space='default'", "xml:space=\"x\"",
      "xmlns:a=\"b\"", "a:", "<a>", "</a>", "<a/>", "<a b=\"c\"/>", "<b></b>", "<?pi?>", "<?pi ?>", "<?pi x?>", "<!---->", "<!-- -->", "]]", "--", "\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "\xc3\xa9", "\xe2\x82", "\x80", " ?>", "<a></a >", "</>", "<>", "< a>", "</ a>", "\"1.0\"" };
    for (auto x : w) d.push_back (x);
    d.push_back (Str ("\0", 1)); d.push_back (Str ("<\0>", 3)); return d;
  } ();
  return d;
}
static const std::vector<Str> & corpus () {
  static const std::vector<Str> v = [] {
    Untracked u; std::vector<Str> v; const char * dir = getenv ("VH_CORPUS");
    if (dir) if (DIR * D = opendir (dir)) {
      std::vector<Str> names; while (dirent * e = readdir (D)) { Str n = e->d_name; if (n.size () > 4 && n.substr (n.size () - 4) == ".xml") names.push_back (n); }
      closedir (D); std::sort (names.begin (), names.end ());
      for (auto & n : names) { Str t = read_file (Str (dir) + "/" + n); if (!t.empty () && t.size () < 30000) v.push_back (t); }
    }
    return v;
  } ();
  return v;
}

static GenCfg wide_cfg (Ctx & c) {
  GenCfg g; g.xmlspace = c.rng.chance (1, 4); g.bigText = true;
  switch (c.rng.below (6)) { case 0: g.maxNodes = 120; g.maxKids = 12; break; case 1: g.maxNodes = 60; g.maxDepth = c.thorough ? 400 : 60; g.maxKids = 2; g.deep = true; break; case 2: g.maxNodes = 3; break; default: break; }
  if (c.thorough && c.rng.chance (1, 20)) { g.maxNodes = 1500; g.maxKids = 60; }
  return g;
}

// --- the parsed tree is the document
MODE (parse) {
  GenCfg g = wide_cfg (c); g.xmlspace = false; g.oddAttrs = c.rng.chance (1, 2);
  MP m = gen_tree (c.rng, g); SerCfg s; DocText t = serialize_doc (c.rng, *m, s);
  c.noteData ("document", t.text);
  axlError * e = nullptr; DocHold d (parse_mem (t.text, &e));
  Str em = err_take (e);
  CHECK (c, d.d, "reject-wellformed", "well-formed document rejected: %s", vis (em).c_str ());
  CHECK (c, em.empty (), "error-with-document", "document returned together with an error: %s", vis (em).c_str ());
  axlNode * root = axl_doc_get_root (d.d);
  CHECK (c, root, "no-root", "document without root node");
  check_tree (c, *m, root, "tree");
  check_links (c, root, nullptr, "parse");
  const char * enc = axl_doc_get_encoding (d.d);
  CHECK (c, t.hasEncoding ? (enc && t.encoding == enc) : true, "encoding", "declared encoding %s reported as %s", t.encoding.c_str (), enc ? enc : "(null)");
  CHECK (c, !!axl_doc_get_standalone (d.d) == t.standalone, "standalone", "standalone declared %d reported %d", (int) t.standalone, (int) axl_doc_get_standalone (d.d));
  // documents of every node
  std::vector<axlNode *> st { root };
  while (!st.empty ()) { axlNode * n = st.back (); st.pop_back (); CHECK (c, axl_node_get_doc (n) == d.d, "doc-ref", "node <%s> does not know its document", axl_node_get_name (n)); for (axlNode * k = axl_node_get_first_child (n); k; k = axl_node_get_next (k)) st.push_back (k); }
  // the other in-memory entry points give the same tree
  unsigned which = c.rng.below (3);
  if (which == 0 && t.text.find ('\0') == Str::npos) {
    DocHold d2 (axl_doc_parse (t.text.c_str (), -1, c.rng.chance (1, 2) ? &e : NULL)); Str em2 = err_take (e);
    CHECK (c, d2.d, "reject-wellformed", "rejected when the size is not given: %s", vis (em2).c_str ());
    check_tree (c, *m, axl_doc_get_root (d2.d), "tree-strlen");
    c.count ("entry_strlen");
  } else if (which == 1) {
    size_t a = c.rng.below ((uint32_t) t.text.size () + 1), b = a + c.rng.below ((uint32_t) (t.text.size () - a) + 1);
    Str p1 = t.text.substr (0, a), p2 = t.text.substr (a, b - a), p3 = t.text.substr (b);
    DocHold d2 (axl_doc_parse_strings (c.rng.chance (1, 2) ? &e : NULL, p1.c_str (), p2.c_str (), p3.c_str (), NULL)); Str em2 = err_take (e);
    CHECK (c, d2.d, "reject-wellformed", "rejected when given as several strings: %s", vis (em2).c_str ());
    check_tree (c, *m, axl_doc_get_root (d2.d), "tree-strings");
    c.count ("entry_strings");
  } else {
    Str body; serialize_node (c.rng, *m, s, body);
    size_t a = c.rng.below ((uint32_t) body.size () + 1); bool ask = c.rng.chance (2, 3);
    axlNode * n = c.rng.chance (1, 2) ? axl_node_parse (ask ? &e : NULL, "%s", body.c_str ()) : axl_node_parse_strings (ask ? &e : NULL, body.substr (0, a).c_str (), body.substr (a).c_str (), NULL); Str em2 = err_take (e);
    CHECK (c, n, "reject-wellformed", "node text rejected: %s", vis (em2).c_str ());
    Str x = canon (*m), y = canon_axl (n);
    axl_node_free (n);
    CHECK (c, x == y, "tree-node", "node parsed from text differs: expected %s found %s", vis (x).c_str (), vis (y).c_str ());
    c.count ("entry_node");
  }
  c.count ("documents"); c.count ("bytes", t.text.size ()); c.maxi ("depth", tree_depth (*m)); c.maxi ("nodes", count_nodes (*m)); c.maxi ("doc_bytes", t.text.size ());
  if (count_nodes (*m) > 1) c.distinct (t.text);
  if (c.index < 3) c.sample (t.text);
}

// --- xml:space
MODE (xmlspace) {
  GenCfg g; g.xmlspace = true; g.oddAttrs = c.rng.chance (1, 2); g.maxNodes = c.rng.chance (1, 4) ? 60 : 14; g.maxAttrs = 3; g.pisNoContent = false;
  MP m = gen_tree (c.rng, g);
  SerCfg s; s.blank = c.rng.chance (2, 3); DocText t = serialize_doc (c.rng, *m, s);
  c.noteData ("document", t.text);
  axlError * e = nullptr; DocHold d (parse_mem (t.text, &e)); Str em = err_take (e);
  CHECK (c, d.d, "reject-wellformed", "well-formed document rejected: %s", vis (em).c_str ());
  check_tree (c, *m, axl_doc_get_root (d.d), "space");
  size_t pres = 0, def = 0, blanks = 0;
  std::function<void (const MNode &)> walk = [&] (const MNode & n) {
    for (auto & a : n.attrs) if (a.first == "xml:space") (a.second == "preserve" ? pres : def)++;
    for (auto & i : n.items) { if (i.k == K_ELEM) walk (*i.node); if (i.k == K_TEXT && has_blank_only (i.text)) blanks++; }
  };
  walk (*m);
  c.count ("documents"); c.count ("preserve_scopes", pres); c.count ("default_scopes", def); c.count ("blank_text_kept", blanks);
  if (pres) c.distinct (t.text);
  if (c.index < 3) c.sample (t.text);
}

// --- ill-formed text is rejected with an error
static MNode * random_node (Rng & r, MNode & root, std::vector<MNode *> * all = nullptr) {
  std::vector<MNode *> v; std::function<void (MNode &)> w = [&] (MNode & n) { v.push_back (&n); for (auto & i : n.items) if (i.k == K_ELEM) w (*i.node); };
  w (root); if (all) *all = v; return v[r.below ((uint32_t) v.size ())];
}
static void expect_reject (Ctx & c, const Str & t, const char * cls, bool file) {
  axlError * e = nullptr; axlDoc * d;
  c.noteData (cls, t);
  if (file) { Str p = c.path ("mal.xml"); write_file (p, t); d = doc_from_file (c, p.c_str (), &e); unlink (p.c_str ()); }
  else if (t.find ('\0') == Str::npos && c.rng.chance (1, 3)) { // the other entry points, the error asked for or not
    bool ask = c.rng.chance (2, 3); axlError ** w = ask ? &e : NULL; size_t a = c.rng.below ((uint32_t) t.size () + 1); Str p1 = t.substr (0, a), p2 = t.substr (a); axlNode * n = nullptr; d = nullptr; const char * how = "";
    switch (c.rng.below (4)) {
    case 0: how = "node"; n = axl_node_parse (w, "%s", t.c_str ()); break;
    case 1: how = "node strings"; n = axl_node_parse_strings (w, p1.c_str (), p2.c_str (), NULL); break;
    case 2: how = "strings"; d = axl_doc_parse_strings (w, p1.c_str (), p2.c_str (), NULL); break;
    default: how = "no size"; d = axl_doc_parse (t.c_str (), -1, w); }
    c.note ("entry: %s", how); c.count ("other_entries"); if (n) { Str x = canon_axl (n); axl_node_free (n); c.fail ("accepted", "%s accepted (entry: %s): tree %s", cls, how, vis (x).c_str ()); }
    if (!ask && !d) { c.count (cls); return; }
  }
  else d = parse_mem (t, &e);
  int code = e ? axl_error_get_code (e) : 0; Str em = err_take (e);
  if (d) { Str x = canon_axl (axl_doc_get_root (d)); axl_doc_free (d); c.fail ("accepted", "%s accepted%s: tree %s", cls, file ? " (from file)" : "", vis (x).c_str ()); }
  CHECK (c, !em.empty () && code != 0, "no-error", "%s rejected without an error report", cls);
  c.count (cls);
}
MODE (malformed) {
  GenCfg g; g.xmlspace = false; g.maxNodes = c.rng.chance (1, 3) ? 40 : 8;
  MP m = gen_tree (c.rng, g); SerCfg s; s.trailer = false; s.vary = c.rng.chance (1, 2);
  bool file = c.rng.chance (1, 5);
  Rng keep = c.rng; DocText t = serialize_doc (c.rng, *m, s);
  size_t hdr = t.text.size (); { Str body; (void) body; }
  std::vector<MNode *> all; MNode * n = random_node (c.rng, *m, &all);
  std::vector<MNode *> withKids; for (auto x : all) if (!x->items.empty ()) withKids.push_back (x);
  (void) keep; (void) hdr;
  // every truncation of a document is rejected
  for (int i = 0; i < 3; i++) { size_t cut = c.rng.below ((uint32_t) t.text.size ()); if (i == 0 && t.text.size () > 12) cut = t.text.size () - 1 - c.rng.below (12); expect_reject (c, t.text.substr (0, cut), "truncated", file && i == 0); }
  const Str MARK = "zzMARKzz";
  auto render = [&] () { SerCfg s2; s2.vary = s.vary; s2.trailer = false; Str o; serialize_node (c.rng, *m, s2, o); return o; };
  auto sub = [&] (Str o, const Str & a, const Str & b) { size_t p = o.find (a); if (p != Str::npos) o.replace (p, a.size (), b); return o; };
  MItem mk; mk.k = K_CDATA; mk.text = MARK; const Str MARKER = "<![CDATA[" + MARK + "]]>";
  size_t at = c.rng.below ((uint32_t) n->items.size () + 1);
  switch (c.rng.below (17)) {
  case 0: { // closing tag with another name
    n->items.insert (n->items.begin () + (long) at, mk); Str old = n->name; n->name = "qq" + old; Str o = render ();
    size_t p = o.find ("</" + n->name); if (p != Str::npos) { Str bad = c.rng.chance (1, 2) ? "</q" + old : (c.rng.chance (1, 2) ? "</qq" + old + "x" : "</qQ" + old); o.replace (p, n->name.size () + 2, bad); expect_reject (c, o, "wrong_close", file); } break; }
  case 1: { // closing tag missing
    n->items.insert (n->items.begin () + (long) at, mk); n->name = "qq" + n->name; Str o = render (); size_t p = o.find ("</" + n->name); size_t q = p == Str::npos ? p : o.find ('>', p);
    if (q != Str::npos) { o.erase (p, q - p + 1); expect_reject (c, o, "missing_close", file); } break; }
  case 2: { // closing tag of something never opened
    n->items.insert (n->items.begin () + (long) at, mk); expect_reject (c, sub (render (), MARKER, "</never" + fmt ("%d", c.rng.range (0, 99)) + ">"), "stray_close", file); break; }
  case 3: { // overlapping elements
    n->items.insert (n->items.begin () + (long) at, mk); expect_reject (c, sub (render (), MARKER, "<p1><p2>t</p1></p2>"), "overlap", file); break; }
  case 4: { // duplicate attribute, below and above the list/hash boundary
    std::vector<Str> names; int k = c.rng.chance (1, 2) ? c.rng.range (1, 9) : c.rng.range (10, 20); Str el = "<p1"; for (int i = 0; i < k; i++) { names.push_back (fmt ("a%d", i)); el += " " + names.back () + "='v'"; }
    el += " " + names[c.rng.below ((uint32_t) k)] + "=\"w\"/>"; n->items.insert (n->items.begin () + (long) at, mk); expect_reject (c, sub (render (), MARKER, el), "duplicate_attribute", file); break; }
  case 5: { static const char * w[] = { "<p1 a=v/>", "<p1 a=v b='x'></p1>", "<p1 a='x' b=/>", "<p1 ='x'/>", "<p1 a='x' ='y'/>", "<p1 a=&quot;/>" };
    n->items.insert (n->items.begin () + (long) at, mk); expect_reject (c, sub (render (), MARKER, w[c.rng.below (6)]), "unquoted_attribute", file); break; }
  case 6: { static const char * w[] = { "<>", "<></>", "</>", "< >", "<></p1>", "<? data?>", "<??>", "<?\tx ?>" }; n->items.insert (n->items.begin () + (long) at, mk); expect_reject (c, sub (render (), MARKER, w[c.rng.below (8)]), "empty_name", file); break; }
  case 7: { static const char * w[] = { "<!-- never closed", "<![CDATA[ never closed", "<?pi never closed" }; Str o; MNode & r0 = *m; (void) r0; m->items.push_back (mk); o = render (); unsigned k = c.rng.below (3);
    size_t p = o.find (MARKER); Str tail = o.substr (p + MARKER.size ()); if (tail.find ("-->") != Str::npos || tail.find ("]]>") != Str::npos || tail.find ("?>") != Str::npos) break;
    expect_reject (c, sub (o, MARKER, w[k]), "unterminated_section", file); break; }
  case 8: { n->items.insert (n->items.begin () + (long) at, mk); static const char * w[] = { "<?xml version='1.0'?>", "<?xml version=\"1.0\" encoding=\"utf-8\"?>", "<?XML x?>", "<?xml?>" }; expect_reject (c, sub (render (), MARKER, w[c.rng.below (4)]), "second_declaration", file); break; }
  case 9: { n->items.insert (n->items.begin () + (long) at, mk); static const char * w[] = { "<p1 xml:space='Preserve'/>", "<p1 xml:space='x'>t</p1>", "<p1 a='b' xml:space=''/>", "<p1 xml:space='preserved'/>" }; expect_reject (c, sub (render (), MARKER, w[c.rng.below (4)]), "bad_xml_space", file); break; }
  case 10: { static const char * w[] = { "text", "x", "&lt;", "a b", "t=\"v\" ", "/", ">" }; expect_reject (c, w[c.rng.below (7)] + render (), "text_before_root", file); break; }
  case 11: { static const char * w[] = { "<?xml version='1.1'?>", "<?xml?>", "<?xml encoding='utf-8'?>", "<?xml version='1.0' foo='bar'?>", "<?xml version='1.0'", "<?xml version='1.0'>", "<?xml version=1.0?>", "<?xml version='1.0' standalone='maybe'?>", "<? xml version='1.0'?>", "<?xml version='1.0' encoding?>", "<?xml version='1.0' standalone?>", "<?xml version?>", "<?xml version '1.0'?>", "<?xml version='1.0' encoding=?>", "<?xml version='1.0' standalone=''?>", "<?xml version=\"1.0'?>", "<?XML version='1.0'?>" }; expect_reject (c, w[c.rng.below (17)] + render (), "bad_declaration", file); break; }
  case 12: { static const char * w[] = { "<?xml version='1.0'?>", "<?xml version='1.0'?><!-- only a comment -->", "<?xml version='1.0'?>\n", "<?xml version='1.0'?> text", "<!-- c -->", "    ", "<?xml version='1.0'?><?pi x?>", "</>", "</ >", "<>", "<></>", "< />", "<", "</", "<!", "<?", "<p1", "</p1>", "<p1/", "<p1>", "<?xml version='1.0'?></>", "<!-- c --></>", "<!DOCTYPE p1>", "<!DOCTYPE p1", "<!DOCTYPE p1></>", "&lt;p1/>" }; expect_reject (c, w[c.rng.below (sizeof w / sizeof w[0])], "no_root", file); break; }
  case 13: { static const char * w[] = { "<?xml version='1.0'?>", "<?xml version='1.0' encoding='utf-8' ?>\n" }; Str b = render (); expect_reject (c, Str (w[c.rng.below (2)]) + w[c.rng.below (2)] + b, "two_declarations", file); break; }
  case 14: case 15: { // something inside a tag that does not belong there
    static const char * w[] = { "< p1/>", "<<!--c-->p1/>", "<<!--c--> p1/>", "<\tp1/>", "<\np1>x</p1>", "<p1/ >", "<p1 / >", "<<p1/>", "<p1<p1/>", "<p1 <p1/>", "<p1 b='1' <p1/>", "<p1></p1 b='c'>", "<p1></ p1>", "<p1>< /p1>",
      "<p1><![cdata[x]]></p1>", "<!p1>", "<p1 a\"b\"/>", "<p1 a/>", "<p1 a b='c'/>", "<p1 a='1' b></p1>", "<![CDATA [x]]>", "<! [CDATA[x]]>", "<p1 &amp;/>", "<p1 a='1' &amp;></p1>", "<p1 <!--c--> />", "<p1 <?t x?>/>", "<p1 a='1' <!--c-->></p1>",
      "<p1></p1 <!--c-->>", "<p1 a=<!--c-->'1'/>", "<p1 a='1' / b='2'/>", "<p1/a='1'/>", "<//p1>", "<p1></p1/>", "<p1'q/>", "<p1'q>x</p1'q>", "<p1=q/>", "<p1=></p1=>", "<p1 a'b='c'/>", "<p1 'a'='c'/>", "<p1 a>b='c'/>", "<p1 a<b='c'/>",
      "<p1 x='1' a b='c'/>", "<p1 a b='c' x='1'></p1>", "<p1 a b></p1 a b>", "<p1'/>", "<'/>", "<=/>", "<='a'/>", "<'a'></'a'>", "<p1></p1 x>", "<p1></x p1>", "<p1></p1  p1>", "<p1></p1></p1>" };
    // any white space, any quote; in the document or as the root of one (what follows the root is not read)
    const unsigned nw = sizeof w / sizeof w[0]; unsigned k = c.rng.below (nw); Str v = w[k]; if (c.rng.chance (1, 2)) for (auto & x : v) { if (x == ' ' && k != 20 && k != 21) x = " \t\n\r"[c.rng.below (4)]; } if (c.rng.chance (1, 2)) for (auto & x : v) x = x == '\'' ? '"' : x == '"' ? '\'' : x;
    if (k != nw - 1 && c.rng.chance (1, 4)) { expect_reject (c, v, "broken_root", file); break; }
    n->items.insert (n->items.begin () + (long) at, mk); expect_reject (c, sub (render (), MARKER, v), "broken_tag", file); break; }
  default: { // root never closed: content goes on to the end
    Str o = render (); if (o.size () > 2 && o[o.size () - 2] != '/') { size_t p = o.rfind ("</"); expect_reject (c, o.substr (0, p) + (c.rng.chance (1, 2) ? "" : "<more/> text "), "root_not_closed", file); } }
  }
  c.count ("documents"); c.distinct (t.text);
  if (c.index < 3) c.sample (t.text);
}

// --- same result from a file, whatever the chunks read() delivers, as from memory
MODE (filemem) {
  GenCfg g = wide_cfg (c); g.xmlspace = c.rng.chance (1, 3); g.oddAttrs = c.rng.chance (1, 4); if (c.rng.chance (1, 3)) { g.maxNodes = 300; g.maxKids = 20; }
  MP m = gen_tree (c.rng, g); SerCfg s; DocText t = serialize_doc (c.rng, *m, s);
  // pad so that the interesting bytes fall around a read-buffer boundary
  Str text = t.text; unsigned padKind = c.rng.below (6);
  if (padKind < 5) {
    size_t root = t.rootAt;
    size_t target = (size_t) 8192 << c.rng.below (2);
    size_t pivot = c.rng.below ((uint32_t) text.size () + 1);
    static const char * mk[] = { "]]>", "-->", "?>", "</", "<!--", "<![CDATA[", "=", "\"", "'", ">", " " };
    if (c.rng.chance (2, 3)) { Str k = mk[c.rng.below (11)]; size_t p = text.find (k, pivot); if (p == Str::npos) p = text.find (k); if (p != Str::npos) pivot = p + c.rng.below ((uint32_t) k.size () + 1); }
    if (pivot < root) pivot = root;
    if (pivot < target && text.compare (0, 5, "<?xml") == 0) {
      size_t need = target - pivot; Str pad;
      if (padKind == 0 || need < 8) pad = Str (need, ' '); else { pad = "<!--" + Str (need - 7, 'p') + "-->"; }
      // after the declaration and anything before the root
      text.insert (root, pad);
      c.count ("aligned_on_boundary");
    } else if (pivot < target && root == 0) { Str pad (target - pivot >= 8 ? "<!--" + Str (target - pivot - 7, 'p') + "-->" : Str (target - pivot, ' ')); text.insert (0, pad); c.count ("aligned_on_boundary"); }
  }
  bool bad = c.rng.chance (1, 6);
  if (bad) { size_t cut = c.rng.below ((uint32_t) text.size () + 1); if (c.rng.chance (1, 2) && text.size () > 20) cut = text.size () - c.rng.below (20); text.resize (cut); }
  c.noteData ("document", text);
  axlError * e = nullptr; DocHold dm (parse_mem (text, &e)); Str em = err_take (e);
  if (!bad) CHECK (c, dm.d, "reject-wellformed", "well-formed document rejected from memory: %s", vis (em).c_str ());
  Str p = c.path ("f.xml"); write_file (p, text);
  int rounds = 2;
  // a read error: the document is rejected, or the error came after its root
  if (c.rng.chance (1, 4)) {
    g_read = ReadPlan (); g_read.active = true; int n = c.rng.range (1, 6); for (int i = 0; i < n; i++) g_read.sizes.push_back (c.rng.range ((int) (text.size () / 12) + 1, (int) text.size () + 1)); g_read.fail_at = c.rng.range (0, 12);
    axlDoc * df = doc_from_file (c, p.c_str (), &e); bool has = e != nullptr; Str ef = err_take (e); g_read.active = false; DocHold hold (df); CHECK (c, !df == has && (df || !ef.empty ()), "read-error", "%s and %s", df ? "a document" : "no document", has ? "an error" : "no error");
    if (g_read.failed) c.count ("read_errors");
    if (df) { CHECK (c, dm.d, "read-error", "rejected from memory, accepted from a file that cannot be read until its end"); CHECK (c, canon_axl (axl_doc_get_root (dm.d)) == canon_axl (axl_doc_get_root (df)), "read-error", "a document that lacks what could not be read is accepted"); }
  }
  for (int k = 0; k < rounds; k++) {
    g_read = ReadPlan ();
    if (k == 1) {
      g_read.active = true; int kind = (int) c.rng.below (4); int n = c.rng.range (1, 12);
      for (int i = 0; i < n; i++) g_read.sizes.push_back (kind == 0 ? 1 : kind == 1 ? c.rng.range (1, 5) : kind == 2 ? c.rng.range (1, 300) : c.rng.range (4000, 8192));
      if (kind == 0 && text.size () > 30000) g_read.sizes = { 7 };
      c.note ("read sizes: kind %d", kind);
    } else g_read.active = true;
    axlDoc * df = doc_from_file (c, p.c_str (), &e); Str ef = err_take (e);
    c.count ("reads", g_read.calls); c.count ("short_reads", g_read.shortened); g_read.active = false;
    DocHold hold (df);
    if (!df != !dm.d) c.fail ("outcome", "%s from memory, %s from file%s: %s", dm.d ? "accepted" : "rejected", df ? "accepted" : "rejected", k ? " with short reads" : "", vis (df ? em : ef).c_str ());
    if (df) {
      Str a = canon_axl (axl_doc_get_root (dm.d)), b = canon_axl (axl_doc_get_root (df));
      if (a != b) { size_t i = 0; while (i < a.size () && i < b.size () && a[i] == b[i]) i++; size_t f = i > 60 ? i - 60 : 0; c.fail ("content", "tree from file%s differs at %zu: memory ...%s, file ...%s", k ? " with short reads" : "", i, vis (a.substr (f, 160)).c_str (), vis (b.substr (f, 160)).c_str ()); }
      const char * e1 = axl_doc_get_encoding (dm.d), * e2 = axl_doc_get_encoding (df);
      CHECK (c, Str (e1 ? e1 : "") == Str (e2 ? e2 : "") && axl_doc_get_standalone (dm.d) == axl_doc_get_standalone (df), "header", "declaration differs between memory and file");
      if (k == 0 && !bad) check_links (c, axl_doc_get_root (df), nullptr, "file");
      c.count ("trees_compared");
    } else { CHECK (c, !ef.empty (), "no-error", "rejected from file without an error"); c.count ("rejections_compared"); }
  }
  unlink (p.c_str ());
  c.count ("bytes", text.size ()); c.maxi ("doc_bytes", text.size ()); c.distinct (text);
  if (c.index < 3) c.sample (text);
}

// --- hostile bytes: anything may come in, memory stays sound and the verdict is consistent
static void use_doc (Ctx & c, axlDoc * d) {
  char * o = nullptr; int sz = 0;
  axlNode * root = axl_doc_get_root (d);
  Str a = canon_axl (root); (void) a;
  if (axl_doc_dump (d, &o, &sz)) { CHECK (c, (int) strlen (o) <= sz, "dump-size", "dump longer than reported"); axl_free (o); c.count ("dumped"); }
  if (c.rng.chance (1, 3) && axl_doc_dump_pretty (d, &o, &sz, c.rng.range (0, 6))) axl_free (o);
  if (c.rng.chance (1, 3)) { axlNode * k = axl_node_copy (root, axl_true, axl_true); if (k) { axl_node_are_equal (k, root); axl_node_free (k); } }
  if (c.rng.chance (1, 3)) { axlError * e = nullptr; axl_doc_are_equal_full (d, d, c.rng.chance (1, 2), &e); err_take (e); }
  if (c.rng.chance (1, 3)) { axlError * e = nullptr; axl_ns_doc_validate (d, &e); err_take (e); }
  int z; if (char * s = axl_node_get_content_trans (root, &z)) axl_free (s);
  axl_node_get_content_trim (root, &z);
  if (axlList * l = axl_doc_get_list (d, "/a/b")) axl_list_free (l);
}
MODE (fuzzdoc) {
  Str text; unsigned src = c.rng.below (10);
  if (src < 5) { GenCfg g; g.xmlspace = true; g.bigText = c.rng.chance (1, 10); g.maxNodes = c.rng.chance (1, 4) ? 40 : 8; MP m = gen_tree (c.rng, g); SerCfg s; text = serialize_doc (c.rng, *m, s).text; text = mutate_bytes (c.rng, text, xml_dict ()); }
  else if (src < 8) { int n = c.rng.range (0, 14); for (int i = 0; i < n; i++) text += xml_dict ()[c.rng.below ((uint32_t) xml_dict ().size ())]; if (c.rng.chance (1, 2)) text = mutate_bytes (c.rng, text, xml_dict ()); }
  else if (src < 9 && !corpus ().empty ()) { text = c.rng.pick (corpus ()); text = mutate_bytes (c.rng, text, xml_dict ()); }
  else { int n = c.rng.range (0, 60); for (int i = 0; i < n; i++) text += (char) c.rng.below (256); }
  if (c.rng.chance (1, 40)) { // size around the read buffer
    Str big = "<a>" + Str ((size_t) c.rng.range (8150, 8230), c.rng.chance (1, 2) ? ' ' : 'x'); text = big + text; }
  c.noteData ("input", text);
  bool babel = c.rng.chance (1, 4); axlError * e = nullptr;
  if (babel) { if (!axl_babel_init (&e)) err_take (e); }
  axlDoc * d = nullptr; unsigned how = c.rng.below (4);
  static const char * hn[] = { "memory", "strlen", "file", "file with short reads" };
  c.note ("entry: %s%s", hn[how], babel ? " (babel)" : "");
  bool noerr = c.rng.chance (1, 10);
  if (how == 0) d = parse_mem (text, noerr ? nullptr : &e);
  else if (how == 1) { char * z = strdup (text.c_str ()); d = axl_doc_parse (z, -1, noerr ? nullptr : &e); free (z); }
  else {
    Str p = c.path ("z.xml"); write_file (p, text);
    if (how == 3) { g_read.active = true; int n = c.rng.range (1, 6); for (int i = 0; i < n; i++) g_read.sizes.push_back (c.rng.range (1, 40)); if (c.rng.chance (1, 5)) g_read.fail_at = c.rng.range (0, 4); }
    d = doc_from_file (c, p.c_str (), noerr ? nullptr : &e); g_read.active = false; unlink (p.c_str ());
  }
  Str em = err_take (e);
  if (d) { c.count ("accepted"); CHECK (c, em.empty (), "error-with-document", "document and error: %s", vis (em).c_str ()); axlNode * r = axl_doc_get_root (d);
    bool badroot = !r || !axl_node_get_name (r) || !*axl_node_get_name (r);
    if (!badroot) use_doc (c, d);
    axl_doc_free (d);
    if (babel) axl_babel_finish ();
    CHECK (c, !badroot, "no-root", "accepted document without a named root node"); }
  else { c.count ("rejected"); if (babel) axl_babel_finish (); CHECK (c, noerr || !em.empty (), "no-error", "rejected without an error"); }
  c.count ("documents"); c.count ("bytes", text.size ()); c.count (hn[how]); if (babel) c.count ("babel");
  if (text.size () > 3) c.distinct (text);
  if (c.index < 3) c.sample (text);
}
