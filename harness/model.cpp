#include "model.hpp"

static const char * UNI[] = { "\xc3\xa1", "\xc3\xb1", "\xe2\x82\xac", "\xe6\x97\xa5", "\xf0\x9f\x98\x80", "\xce\xa9", "\xd0\x96", "\xef\xbf\xbd" };

Str gen_name (Rng & r, const GenCfg & g) {
  static const char * pool[] = { "a", "b", "c", "item", "x-y", "n.1", "d", "e_f", "value", "row" };
  if (g.namePool > 0 && r.chance (7, 10)) return pool[r.below ((uint32_t) std::min (g.namePool, 10))];
  static const char first[] = "abcdefgxyzABCZ_", rest[] = "abcxyzABC0189_-.";
  Str s (1, first[r.below (sizeof first - 1)]);
  int n = r.chance (1, 12) ? r.range (20, 120) : r.range (0, 9);
  for (int i = 0; i < n; i++) { if (g.unicode && r.chance (1, 14)) s += UNI[r.below (8)]; else s += rest[r.below (sizeof rest - 1)]; }
  return s;
}
Str gen_text (Rng & r, const GenCfg & g, int maxlen, bool attr) {
  static const char * words[] = { "hello", "x", "1234", "some text", "a,b;c", "]]", ">", "--", "/", "=", "'", "\"", "?", "!", "]", "[", "#", "%", "\\", "/>", "?>", "xml" };
  static const char * ents[] = { "&lt;", "&gt;", "&amp;", "&quot;", "&apos;", "&#65;", "&#x42;", "&foo;", "&amp;lt;" };
  Str s; int n = r.range (1, maxlen);
  while ((int) s.size () < n) {
    switch (r.below (8)) {
    case 0: case 1: s += words[r.below (sizeof words / sizeof *words)]; break;
    case 2: s += " "; break;
    case 3: s += r.chance (1, 2) ? "\n" : (r.chance (1, 2) ? "\t" : "\r\n"); break;
    case 4: if (g.entities) s += ents[r.below (9)]; break;
    case 5: if (g.unicode) s += UNI[r.below (8)]; break;
    default: s += (char) ('a' + r.below (26));
    }
  }
  if (!attr) { size_t p; while ((p = s.find ("]]>")) != Str::npos) s.replace (p, 3, "]] >"); }
  if (has_blank_only (s)) s += "t";
  return s;
}
static Str gen_comment (Rng & r) {
  static const char * parts[] = { "comment", " ", "<b>", "</a>", "&", "<![CDATA[", "]]>", "text", "-", "?>", "\n", "'", "\"", "x" };
  Str s; int n = r.range (1, r.chance (1, 25) ? 400 : 8);
  for (int i = 0; i < n; i++) s += parts[r.below (14)];
  size_t p; while ((p = s.find ("--")) != Str::npos) s.replace (p, 2, "- ");
  if (s.empty () || s.back () == '-') s += "c";
  if (s[0] == '-' || s[0] == '>') s = "c" + s;
  return s;
}
static Str gen_cdata (Rng & r, const GenCfg & g) {
  static const char * parts[] = { "data", " ", "<b>", "</a>", "&", "&lt;", "]]", "]", ">", "<", "\n", "'", "\"", "<!--", "-->", "x", "  " };
  if (g.emptyCdata && r.chance (1, 12)) return "";
  Str s; int n = r.range (1, r.chance (1, 25) ? 400 : 10);
  for (int i = 0; i < n; i++) s += parts[r.below (17)];
  size_t p; while ((p = s.find ("]]>")) != Str::npos) s.replace (p, 3, "] ]>");
  return s;
}
static Str gen_pi_content (Rng & r) {
  static const char * parts[] = { "href=\"x\"", " ", "<b>", "type='y'", "&", "?", ">", "data", "  ", "\n" };
  Str s; int n = r.range (1, r.chance (1, 25) ? 300 : 6);
  for (int i = 0; i < n; i++) s += parts[r.below (10)];
  size_t p; while ((p = s.find ("?>")) != Str::npos) s.replace (p, 2, "? >");
  if (is_ws (s[0])) s = "p" + s;
  if (is_ws (s.back ()) || s.back () == '?') s += "z";
  return s;
}

static void fill (Rng & r, const GenCfg & g, MNode & n, int depth, int & budget, bool preserve) {
  n.name = gen_name (r, g);
  int na = 0;
  if (g.manyAttrs && r.chance (1, 10)) na = r.range (8, 16);
  else if (r.chance (1, 2)) na = r.range (0, g.maxAttrs);
  for (int i = 0; i < na; i++) {
    Str an = gen_name (r, g);
    if (na > 7) an += fmt ("%d", i);
    bool dup = false; for (auto & a : n.attrs) if (a.first == an) dup = true;
    if (dup || an == "xml:space") continue;
    n.attrs.push_back ({ an, r.chance (1, 8) ? Str () : gen_text (r, g, r.chance (1, 20) ? 300 : 20, true) });
    Str & v = n.attrs.back ().second;
    // a value quoted either way must be possible: one kind of quote only
    if (v.find ('\'') != Str::npos) v.erase (std::remove (v.begin (), v.end (), '"'), v.end ());
    v.erase (std::remove (v.begin (), v.end (), '<'), v.end ());
  }
  if (g.oddAttrs && r.chance (1, 10)) {
    static const char * odd[] = { "xml:spaces", "xml:space2", "xml:spac", "XML:space", "xml:Space", "xml-space", "x:space", "space", "xml:lang", "xml:space.x", "xml:space:x", "xmlns", "xmlns:p", "xml" };
    static const char * val[] = { "preserve", "default", "other", "", "Preserve" };
    Str an = odd[r.below (14)]; bool dup = false; for (auto & a : n.attrs) if (a.first == an) dup = true;
    if (!dup) n.attrs.insert (n.attrs.begin () + (long) r.below ((uint32_t) n.attrs.size () + 1), { an, val[r.below (5)] });
  }
  n.preserve = preserve;
  if (g.xmlspace && r.chance (1, 3)) {
    n.preserve = r.chance (3, 5);
    size_t at = r.below ((uint32_t) n.attrs.size () + 1);
    n.attrs.insert (n.attrs.begin () + (long) at, { "xml:space", n.preserve ? "preserve" : "default" });
  }
  int kids = depth >= g.maxDepth ? 0 : r.range (0, g.maxKids);
  if (r.chance (1, depth ? 5 : 25)) kids = 0;
  bool chain = g.deep && depth < g.maxDepth;
  if (chain && kids < 1) kids = 1;
  Kind last = K_ELEM; bool first = true;
  for (int i = 0; i < kids; i++) {
    MItem it; unsigned w = r.below (12); if (chain && i == kids - 1) w = 0;
    if (w < 5) { if (budget <= 0) continue; budget--; it.k = K_ELEM; it.node = std::make_shared<MNode> (); fill (r, g, *it.node, depth + 1, budget, n.preserve); }
    else if (w < 8) {
      if (!g.text || (!first && last == K_TEXT)) continue;
      it.k = K_TEXT; it.text = gen_text (r, g, g.bigText && r.chance (1, 15) ? 20000 : (r.chance (1, 10) ? 400 : 24), false);
      if (n.preserve && r.chance (1, 3)) it.text = Str ((size_t) r.range (1, 5), " \n\t"[r.below (3)]);
      else if (!n.preserve && !first && (last == K_COMMENT || last == K_PI)) { while (is_ws (it.text[0])) it.text.erase (0, 1); }
    }
    else if (w < 9) { if (!g.cdata) continue; it.k = K_CDATA; it.text = gen_cdata (r, g); }
    else if (w < 10) { if (!g.comments) continue; it.k = K_COMMENT; it.text = gen_comment (r); }
    else if (w < 11) { if (!g.pis) continue; it.k = K_PI; it.target = gen_name (r, g); if (it.target == "xml") it.target = "xmlx"; if (g.pisNoContent && r.chance (1, 5)) it.hasContent = false; else it.text = gen_pi_content (r); }
    else continue;
    last = it.k; first = false;
    n.items.push_back (it);
  }
}
MP gen_tree (Rng & r, const GenCfg & g) { MP n = std::make_shared<MNode> (); int b = r.range (0, g.maxNodes); fill (r, g, *n, 0, b, false); return n; }
size_t count_nodes (const MNode & n) { size_t k = 1; for (auto & i : n.items) if (i.k == K_ELEM) k += count_nodes (*i.node); return k; }
size_t tree_depth (const MNode & n) { size_t k = 0; for (auto & i : n.items) if (i.k == K_ELEM) k = std::max (k, tree_depth (*i.node)); return k + 1; }

bool has_blank_only (const Str & s) { for (char ch : s) if (!is_ws (ch)) return false; return true; }
Str trim_ws (const Str & s) { size_t a = 0, b = s.size (); while (a < b && is_ws (s[a])) a++; while (b > a && is_ws (s[b - 1])) b--; return s.substr (a, b - a); }

static void lp (Str & o, const Str & s) { o += fmt ("%zu:", s.size ()); o += s; }
enum { TR_NONE, TR_ALL, TR_COM };
static void canon_to (const MNode & n, Str & o, int tr) {
  o += "E"; lp (o, n.name);
  auto at = n.attrs; std::sort (at.begin (), at.end ());
  for (auto & a : at) { o += "@"; lp (o, a.first); lp (o, a.second); }
  o += "{";
  for (auto & i : n.items) switch (i.k) {
    case K_ELEM: canon_to (*i.node, o, tr); break;
    case K_TEXT: o += "T"; lp (o, tr == TR_ALL ? trim_ws (i.text) : i.text); break;
    case K_CDATA: o += "D"; lp (o, tr == TR_ALL ? trim_ws (i.text) : i.text); break;
    case K_COMMENT: o += "C"; lp (o, tr ? trim_ws (i.text) : i.text); break;
    case K_PI: o += "P"; lp (o, i.target); if (i.hasContent) lp (o, i.text); else o += "-"; break;
  }
  o += "}";
}
Str canon (const MNode & n) { Str o; canon_to (n, o, TR_NONE); return o; }
Str canon_trim (const MNode & n) { Str o; canon_to (n, o, TR_ALL); return o; }
Str canon_com (const MNode & n) { Str o; canon_to (n, o, TR_COM); return o; }
MP clone_model (const MNode & n) { MP k = std::make_shared<MNode> (n); for (auto & i : k->items) if (i.k == K_ELEM) i.node = clone_model (*i.node); return k; }
void collect (MNode & n, std::vector<MNode *> & out) { out.push_back (&n); for (auto & i : n.items) if (i.k == K_ELEM) collect (*i.node, out); }
Str escape_defaults (const Str & s) { Str o; for (char ch : s) switch (ch) { case '<': o += "&lt;"; break; case '>': o += "&gt;"; break; case '&': o += "&amp;"; break; case '"': o += "&quot;"; break; case '\'': o += "&apos;"; break; default: o += ch; } return o; }
axlNode * build_axl (Rng & r, MNode & m) {
  axlNode * n = r.chance (1, 2) ? axl_node_create (m.name.c_str ()) : axl_node_create_ref (axl_strdup (m.name.c_str ()));
  auto plain = [] (const Str & s) { return s.find_first_of ("<>&\"'") == Str::npos; };
  for (auto & a : m.attrs) {
    if (plain (a.second) && r.chance (1, 2)) axl_node_set_attribute (n, a.first.c_str (), a.second.c_str ());
    else axl_node_set_attribute_ref (n, axl_strdup (a.first.c_str ()), axl_strdup (a.second.c_str ()));
  }
  for (auto & i : m.items) switch (i.k) {
    case K_ELEM: {
      // top-down or bottom-up insertion is the same thing here: the child carries its subtree
      axlNode * k = build_axl (r, *i.node);
      if (r.chance (1, 2)) axl_node_set_child (n, k); else axl_item_set_child (n, ITEM_NODE, k);
      break;
    }
    case K_TEXT:
      if (plain (i.text) && r.chance (1, 2)) axl_node_set_content (n, i.text.c_str (), r.chance (1, 2) ? -1 : (int) i.text.size ());
      else axl_node_set_content_ref (n, axl_strdup (i.text.c_str ()), r.chance (1, 2) ? -1 : (int) i.text.size ());
      break;
    case K_CDATA: axl_node_set_cdata_content (n, i.text.c_str (), r.chance (1, 2) ? -1 : (int) i.text.size ()); i.text = escape_defaults (i.text); break;
    case K_COMMENT: axl_node_set_comment (n, (char *) i.text.c_str (), r.chance (1, 2) ? -1 : (int) i.text.size ()); break;
    case K_PI: axl_node_add_pi_target (n, (char *) i.target.c_str (), i.hasContent ? (char *) i.text.c_str () : NULL); break;
  }
  return n;
}

static void canon_axl_to (axlNode * n, Str & o, int tr) {
  o += "E"; const char * nm = axl_node_get_name (n); lp (o, nm ? nm : "(null)");
  std::vector<std::pair<Str, Str>> at;
  axlAttrCursor * cu = axl_node_attr_cursor_new (n);
  if (cu) {
    axl_node_attr_cursor_first (cu);
    while (axl_node_attr_cursor_has_item (cu)) {
      const char * k = axl_node_attr_cursor_get_key (cu), * v = axl_node_attr_cursor_get_value (cu);
      at.push_back ({ k ? k : "(null)", v ? v : "(null)" });
      axl_node_attr_cursor_next (cu);
    }
    axl_node_attr_cursor_free (cu);
  }
  std::sort (at.begin (), at.end ());
  for (auto & a : at) { o += "@"; lp (o, a.first); lp (o, a.second); }
  o += "{";
  for (axlItem * i = axl_item_get_first_child (n); i; i = axl_item_get_next (i)) {
    AxlItemType t = axl_item_get_type (i);
    if (t == ITEM_NODE) { canon_axl_to ((axlNode *) axl_item_get_data (i), o, tr); continue; }
    if (t == ITEM_PI) {
      axlPI * p = (axlPI *) axl_item_get_data (i); o += "P"; lp (o, axl_pi_get_name (p));
      const char * pc = axl_pi_get_content (p); if (pc && *pc) lp (o, pc); else o += "-";
      continue;
    }
    int sz = -7; const char * s = axl_item_get_content (i, &sz);
    Str v = s && sz >= 0 ? Str (s, (size_t) sz) : Str ("(bad)");
    o += t == ITEM_CONTENT ? "T" : t == ITEM_CDATA ? "D" : t == ITEM_COMMENT ? "C" : "?";
    lp (o, tr == TR_ALL || (tr == TR_COM && t == ITEM_COMMENT) ? trim_ws (v) : v);
  }
  o += "}";
}
Str canon_axl (axlNode * n) { Str o; if (n) canon_axl_to (n, o, TR_NONE); return o; }
Str canon_axl_trim (axlNode * n) { Str o; if (n) canon_axl_to (n, o, TR_ALL); return o; }
Str canon_axl_com (axlNode * n) { Str o; if (n) canon_axl_to (n, o, TR_COM); return o; }

Str ws (Rng & r, int min, int max) { Str s; int n = r.range (min, max); for (int i = 0; i < n; i++) s += " \n\t\r"[r.below (4)]; return s; }
void serialize_node (Rng & r, const MNode & n, const SerCfg & s, Str & o) {
  o += "<" + n.name;
  for (auto & a : n.attrs) {
    o += s.vary ? ws (r, 1, r.chance (1, 6) ? 4 : 1) : Str (" ");
    char q = a.second.find ('"') != Str::npos ? '\'' : a.second.find ('\'') != Str::npos ? '"' : (s.vary && r.chance (1, 2) ? '"' : '\'');
    o += a.first; if (s.vary && r.chance (1, 8)) o += ws (r, 1, 2); o += "="; if (s.vary && r.chance (1, 8)) o += ws (r, 1, 2); o += q + a.second + q;
  }
  if (n.items.empty () && (!s.vary || r.chance (3, 4))) { if (s.vary && r.chance (1, 2)) o += ws (r, 1, 2); o += "/>"; return; }
  if (s.vary && r.chance (1, 8)) o += ws (r, 1, 2);
  o += ">";
  bool prevText = false;
  auto gap = [&] (bool nextText, bool prevMisc) {
    (void) prevMisc;
    if (!s.blank || n.preserve || prevText || nextText) return;
    if (r.chance (1, 3)) o += ws (r, 1, r.chance (1, 10) ? 40 : 4);
  };
  for (auto & i : n.items) {
    gap (i.k == K_TEXT, false);
    prevText = i.k == K_TEXT;
    switch (i.k) {
    case K_ELEM: serialize_node (r, *i.node, s, o); break;
    case K_TEXT: o += i.text; break;
    case K_CDATA: o += "<![CDATA[" + i.text + "]]>"; break;
    case K_COMMENT: o += "<!--" + i.text + "-->"; break;
    case K_PI: o += "<?" + i.target; if (i.hasContent) o += (s.vary && r.chance (1, 4) ? ws (r, 1, 1) : Str (" ")) + i.text; o += "?>"; break;
    }
  }
  gap (false, false);
  o += "</" + n.name; if (s.vary && r.chance (1, 8)) o += ws (r, 1, 3); o += ">";
}
DocText serialize_doc (Rng & r, const MNode & n, const SerCfg & s) {
  DocText d; bool hd = false;
  if (s.header && r.chance (3, 4)) {
    hd = true;
    char q = r.chance (1, 2) ? '\'' : '"';
    d.text += "<?xml"; d.text += s.vary ? ws (r, 1, 2) : Str (" "); auto eq = [&] { return s.vary && r.chance (1, 6) ? ws (r, 0, 2) + "=" + ws (r, 0, 2) : Str ("="); };
    d.text += "version" + eq (); d.text += q; d.text += "1.0"; d.text += q;
    if (r.chance (1, 2)) { d.hasEncoding = true; d.encoding = r.chance (1, 2) ? "UTF-8" : "utf-8"; d.text += " encoding" + eq (); d.text += q; d.text += d.encoding; d.text += q; }
    if (r.chance (1, 3)) { bool y = r.chance (1, 2); d.standalone = y; d.text += " standalone" + eq (); d.text += q; d.text += y ? "yes" : "no"; d.text += q; }
    if (r.chance (1, 2)) d.text += " ";
    d.text += "?>";
  }
  if (s.prolog) {
    auto pi = [&] { static const char * w[] = { "<?xml-stylesheet href='a.css'?>", "<?t?>", "<?t data?>", "<?xm x='1' <y> ?>", "<?p  two  words?>" }; return Str (w[r.below (5)]); };
    if (hd && r.chance (1, 3)) d.text += ws (r, 0, 3);
    if (r.chance (1, 8)) d.text += pi ();
    if (r.chance (1, 6)) d.text += "<!-- prolog <x> comment -->";
    if (r.chance (1, 8)) d.text += pi ();
    if (s.doctype && r.chance (1, 6)) { d.text += ws (r, 0, 2); d.text += "<!DOCTYPE " + n.name + " SYSTEM \"x.dtd\">"; d.text += ws (r, 0, 2); if (r.chance (1, 3)) d.text += "<!-- after doctype -->"; }
  }
  d.rootAt = d.text.size ();
  serialize_node (r, n, s, d.text);
  if (s.trailer && r.chance (1, 4)) d.text += ws (r, 1, 3);
  return d;
}

void check_links (Ctx & c, axlNode * n, axlNode * parent, const char * w) {
  CHECK (c, axl_node_get_parent (n) == parent, "links", "%s: wrong parent of <%s>", w, axl_node_get_name (n));
  axlItem * prev = nullptr; int nodes = 0; axlNode * lastNode = nullptr; axlNode * firstNode = nullptr; size_t guard = 0;
  for (axlItem * i = axl_item_get_first_child (n); i; i = axl_item_get_next (i)) {
    CHECK (c, ++guard < 10000000, "links", "%s: endless sibling chain below <%s>", w, axl_node_get_name (n));
    CHECK (c, axl_item_get_previous (i) == prev, "links", "%s: previous link of item %zu below <%s> is wrong", w, guard - 1, axl_node_get_name (n));
    CHECK (c, axl_item_get_parent (i) == n, "links", "%s: parent link of item %zu below <%s> is wrong", w, guard - 1, axl_node_get_name (n));
    if (axl_item_get_type (i) == ITEM_NODE) {
      axlNode * k = (axlNode *) axl_item_get_data (i);
      CHECK (c, axl_item_node_next (k) == axl_item_get_next (i) && axl_item_node_previous (k) == prev, "links", "%s: items around child %d of <%s> are wrong", w, nodes, axl_node_get_name (n));
      CHECK (c, axl_item_node_holder (k) == i, "links", "%s: <%s> is not held by its item", w, axl_node_get_name (k));
      CHECK (c, axl_node_get_child_nth (n, nodes) == k, "links", "%s: child %d of <%s> not found by position", w, nodes, axl_node_get_name (n));
      CHECK (c, axl_node_get_previous (k) == lastNode, "links", "%s: previous node of child %d of <%s> is wrong", w, nodes, axl_node_get_name (n));
      if (lastNode) CHECK (c, axl_node_get_next (lastNode) == k, "links", "%s: next node of child %d of <%s> is wrong", w, nodes - 1, axl_node_get_name (n));
      if (!firstNode) firstNode = k;
      lastNode = k; nodes++;
      check_links (c, k, n, w);
    }
    prev = i;
    c.count ("links_checked");
  }
  CHECK (c, axl_item_get_last_child (n) == prev, "links", "%s: last item of <%s> is wrong", w, axl_node_get_name (n));
  CHECK (c, axl_node_get_child_num (n) == nodes, "links", "%s: child count of <%s> is %d, walked %d", w, axl_node_get_name (n), axl_node_get_child_num (n), nodes);
  CHECK (c, axl_node_get_first_child (n) == firstNode && axl_node_get_last_child (n) == lastNode, "links", "%s: first/last child of <%s> is wrong", w, axl_node_get_name (n));
  CHECK (c, !axl_node_have_childs (n) == !nodes, "links", "%s: have_childs of <%s> is wrong", w, axl_node_get_name (n));
  if (lastNode) CHECK (c, axl_node_get_next (lastNode) == nullptr, "links", "%s: last child of <%s> has a next node", w, axl_node_get_name (n));
  CHECK (c, axl_node_get_child_nth (n, nodes) == nullptr, "links", "%s: <%s> has a child past its count", w, axl_node_get_name (n));
}
void check_tree (Ctx & c, const MNode & m, axlNode * n, const char * key) {
  Str a = canon (m), b = canon_axl (n);
  if (a != b) {
    size_t i = 0; while (i < a.size () && i < b.size () && a[i] == b[i]) i++;
    size_t f = i > 60 ? i - 60 : 0;
    c.fail (key, "tree differs from the model at %zu: expected ...%s, found ...%s", i, vis (a.substr (f, 160)).c_str (), vis (b.substr (f, 160)).c_str ());
  }
  c.count ("trees_compared"); c.count ("nodes_compared", count_nodes (m));
}
Str err_take (axlError * & e) { Str s; if (e) { const char * t = axl_error_get (e); s = t ? t : ""; axl_error_free (e); e = nullptr; } return s; }
axlDoc * parse_mem (const Str & s, axlError ** e) {
  char * x = (char *) malloc (s.size () ? s.size () : 1);
  memcpy (x, s.data (), s.size ());
  axlDoc * d = axl_doc_parse (x, (int) s.size (), e);
  free (x);
  return d;
}
Str mutate_bytes (Rng & r, const Str & s0, const std::vector<Str> & dict) {
  Str s = s0; int n = r.range (1, r.chance (1, 4) ? 8 : 2);
  for (int i = 0; i < n; i++) {
    size_t at = s.empty () ? 0 : r.below ((uint32_t) s.size () + 1);
    switch (r.below (9)) {
    case 0: if (!s.empty ()) s.erase (std::min (at, s.size () - 1), 1 + r.below (r.chance (1, 4) ? 40 : 2)); break;
    case 1: s.insert (at, dict[r.below ((uint32_t) dict.size ())]); break;
    case 2: if (at < s.size ()) s[at] = (char) r.below (256); break;
    case 3: if (at < s.size ()) s[at] = "<>/=\"'!?-[]& \n\0;:#%("[r.below (21)]; break;
    case 4: s.resize (at); break;
    case 5: { size_t b = r.below ((uint32_t) s.size () + 1); Str part = s.substr (std::min (at, b), std::min<size_t> (40, at > b ? at - b : b - at)); s.insert (at, part); break; }
    case 6: s.insert (at, Str ((size_t) r.range (1, 6), "<>/=\"' -]?"[r.below (10)])); break;
    case 7: { const Str & d = dict[r.below ((uint32_t) dict.size ())]; if (at + d.size () <= s.size ()) s.replace (at, d.size (), d); break; }
    default: s.insert (at, 1, (char) r.below (256));
    }
  }
  return s;
}
