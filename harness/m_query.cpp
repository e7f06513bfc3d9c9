// Questions about a tree: lookups, paths, iteration, content, copies and equality, annotations, instructions.
#include "model.hpp"

namespace {
struct N { MNode * m; axlNode * n; int parent; size_t item; int depth; };
static void pairup (Ctx & c, MNode * m, axlNode * n, int parent, size_t item, int depth, std::vector<N> & out) {
  CHECK (c, n, "tree", "missing node <%s>", m->name.c_str ());
  N x = { m, n, parent, item, depth }; int me = (int) out.size (); out.push_back (x); axlItem * i = axl_item_get_first_child (n); size_t k = 0;
  for (auto & q : m->items) { CHECK (c, i, "tree", "item %zu below <%s> is missing", k, m->name.c_str ()); if (q.k == K_ELEM) { CHECK (c, axl_item_get_type (i) == ITEM_NODE, "tree", "item %zu below <%s> is not an element", k, m->name.c_str ()); pairup (c, q.node.get (), (axlNode *) axl_item_get_data (i), me, k, depth + 1, out); } i = axl_item_get_next (i); k++; }
}
static axlDoc * make_doc (Ctx & c, MP & m, const GenCfg & g) {
  m = gen_tree (c.rng, g); axlDoc * d;
  if (c.rng.chance (1, 2)) { SerCfg s; s.vary = c.rng.chance (1, 2); Str x = serialize_doc (c.rng, *m, s).text; c.noteData ("document", x); axlError * e = nullptr; d = parse_mem (x, &e); Str em = err_take (e); CHECK (c, d, "reject-wellformed", "document rejected: %s", em.c_str ()); }
  else { d = axl_doc_create (NULL, NULL, axl_false); axl_doc_set_root (d, build_axl (c.rng, *m)); c.noteData ("built", canon (*m)); }
  return d;
}
static Str translate (const Str & s) {
  static const char * en[] = { "&apos;", "&quot;", "&amp;", "&gt;", "&lt;" }; static const char ch[] = "'\"&><"; Str o;
  for (size_t q = 0; q < s.size ();) { bool hit = false; for (int z = 0; z < 5 && !hit; z++) if (s.compare (q, strlen (en[z]), en[z]) == 0) { o += ch[z]; q += strlen (en[z]); hit = true; } if (!hit) o += s[q++]; }
  return o;
}
static MNode * find_model (MNode * m, const Str & name) {
  for (auto & i : m->items) if (i.k == K_ELEM && i.node->name == name) return i.node.get ();
  for (auto & i : m->items) if (i.k == K_ELEM) if (MNode * r = find_model (i.node.get (), name)) return r;
  return nullptr;
}
struct It { Ctx * c; std::vector<axlNode *> seen, parents; size_t stop; std::set<axlNode *> * removal; axlDoc * doc; axlPointer p1, p2; bool badargs; };
static axl_bool it_common (axlNode * n, axlNode * p, axlDoc * d, axl_bool * removed, It * t) {
  t->seen.push_back (n); t->parents.push_back (p); if (d != t->doc) t->badargs = true;
  bool stop = t->seen.size () >= t->stop;
  if (t->removal && t->removal->count (n)) { *removed = axl_true; axl_node_remove (n, axl_true); }
  return !stop;
}
static axl_bool it_one (axlNode * n, axlNode * p, axlDoc * d, axl_bool * r, axlPointer ptr) { return it_common (n, p, d, r, (It *) ptr); }
static axl_bool it_two (axlNode * n, axlNode * p, axlDoc * d, axl_bool * r, axlPointer ptr, axlPointer ptr2) { It * t = (It *) ptr; if (ptr2 != t->p2) t->badargs = true; return it_common (n, p, d, r, t); }

static void check_iterate (Ctx & c, axlDoc * d, std::vector<N> & v, bool removing) {
  Rng & r = c.rng; bool deep = r.chance (1, 2); size_t start = r.chance (1, 3) ? r.below ((uint32_t) v.size ()) : 0; int api = start ? 2 : (int) r.below (3);
  std::vector<size_t> end (v.size ()); for (size_t i = 0; i < v.size (); i++) { size_t k = i + 1; while (k < v.size () && v[k].depth > v[i].depth) k++; end[i] = k; }
  std::set<axlNode *> rem; if (removing) for (size_t i = start + 1; i < end[start]; i++) if (r.chance (1, 4)) rem.insert (v[i].n);
  // expected order
  std::vector<size_t> order; std::vector<size_t> pend = { start };
  while (!pend.empty ()) {
    size_t x = pend.front (); pend.erase (pend.begin ()); order.push_back (x); if (rem.count (v[x].n)) continue;
    std::vector<size_t> kids; for (size_t k = x + 1; k < end[x]; k = end[k]) kids.push_back (k);
    if (deep) pend.insert (pend.begin (), kids.begin (), kids.end ()); else pend.insert (pend.end (), kids.begin (), kids.end ());
  }
  bool stops = r.chance (1, 3); size_t stop = stops ? 1 + r.below ((uint32_t) order.size ()) : 1u << 30; int mark = 0;
  It t = { &c, {}, {}, stop, removing ? &rem : nullptr, d, nullptr, &mark, false };
  axl_bool res = api == 0 ? axl_doc_iterate (d, deep ? DEEP_ITERATION : WIDE_ITERATION, it_one, &t) : api == 1 ? axl_doc_iterate_full (d, deep ? DEEP_ITERATION : WIDE_ITERATION, it_two, &t, &mark) : axl_doc_iterate_full_from (d, v[start].n, deep ? DEEP_ITERATION : WIDE_ITERATION, it_two, &t, &mark);
  size_t want = std::min (stop, order.size ());
  CHECK (c, t.seen.size () == want, "iterate", "%s iteration visited %zu nodes, expected %zu (removing %zu)", deep ? "deep" : "wide", t.seen.size (), want, rem.size ());
  for (size_t i = 0; i < want; i++) {
    CHECK (c, t.seen[i] == v[order[i]].n, "iterate", "%s iteration: step %zu is not <%s>", deep ? "deep" : "wide", i, removing ? "?" : v[order[i]].m->name.c_str ());
    axlNode * p = i == 0 ? nullptr : v[(size_t) v[order[i]].parent].n; CHECK (c, t.parents[i] == p, "iterate-parent", "step %zu: wrong parent", i);
  }
  CHECK (c, !t.badargs, "iterate-args", "the callback got other arguments");
  CHECK (c, !!res == !stops, "iterate-result", "iteration %s but returned %d", stops ? "stopped" : "completed", (int) res);
  c.count ("iterations"); c.count ("nodes_iterated", want);
}
}

MODE (query) {
  GenCfg g; g.maxNodes = c.rng.chance (1, 3) ? 60 : 12; g.maxDepth = c.rng.range (1, 9); g.namePool = c.rng.range (1, 6); g.maxKids = c.rng.range (2, 8); MP m; DocHold d (make_doc (c, m, g)); Rng & r = c.rng;
  axlNode * root = axl_doc_get_root (d.d); check_tree (c, *m, root, "tree"); check_links (c, root, nullptr, "query");
  std::vector<N> v; pairup (c, m.get (), root, -1, 0, 0, v);
  auto idx = [&] (MNode * x) -> axlNode * { for (auto & q : v) if (q.m == x) return q.n; return nullptr; };
  for (auto & q : v) CHECK (c, axl_node_get_doc (q.n) == d.d || axl_node_get_doc (q.n) == nullptr, "doc", "<%s> says it belongs to another document", q.m->name.c_str ());
  auto name = [&] { if (r.chance (1, 10)) return Str ("nowhere"); if (r.chance (1, 10)) { Str s = v[r.below ((uint32_t) v.size ())].m->name; return r.chance (1, 2) ? s + "x" : s.substr (0, s.size () - 1) + "~"; } return v[r.below ((uint32_t) v.size ())].m->name; };
  for (int k = 0; k < 12; k++) {
    N & x = v[r.below ((uint32_t) v.size ())]; Str nm = name ();
    MNode * want = nullptr; for (auto & i : x.m->items) if (i.k == K_ELEM && i.node->name == nm) { want = i.node.get (); break; }
    CHECK (c, axl_node_get_child_called (x.n, nm.c_str ()) == (want ? idx (want) : nullptr), "child-called", "child %s of <%s> is wrong", nm.c_str (), x.m->name.c_str ());
    want = find_model (x.m, nm); CHECK (c, axl_node_find_called (x.n, nm.c_str ()) == (want ? idx (want) : nullptr), "find-called", "first %s below <%s> is wrong", nm.c_str (), x.m->name.c_str ());
    want = find_model (m.get (), nm); CHECK (c, axl_doc_find_called (d.d, nm.c_str ()) == (want ? idx (want) : nullptr), "find-called", "first %s of the document is wrong", nm.c_str ());
    MNode * nx = nullptr, * pv = nullptr;
    if (x.parent >= 0) { auto & it = v[(size_t) x.parent].m->items; for (size_t i = x.item + 1; i < it.size () && !nx; i++) if (it[i].k == K_ELEM && it[i].node->name == nm) nx = it[i].node.get (); for (size_t i = x.item; i-- > 0 && !pv;) if (it[i].k == K_ELEM && it[i].node->name == nm) pv = it[i].node.get (); }
    CHECK (c, axl_node_get_next_called (x.n, nm.c_str ()) == (nx ? idx (nx) : nullptr), "next-called", "next %s after <%s> is wrong", nm.c_str (), x.m->name.c_str ());
    CHECK (c, axl_node_get_previous_called (x.n, nm.c_str ()) == (pv ? idx (pv) : nullptr), "previous-called", "previous %s before <%s> is wrong", nm.c_str (), x.m->name.c_str ());
    CHECK (c, !!NODE_CMP_NAME (x.n, nm.c_str ()) == (x.m->name == nm), "name", "name test of <%s> with %s is wrong", x.m->name.c_str (), nm.c_str ());
    // positions and the list of children
    std::vector<MNode *> kids; for (auto & i : x.m->items) if (i.k == K_ELEM) kids.push_back (i.node.get ());
    int pos = r.range (-2, (int) kids.size () + 1); CHECK (c, axl_node_get_child_nth (x.n, pos) == (pos >= 0 && pos < (int) kids.size () ? idx (kids[(size_t) pos]) : nullptr), "child-nth", "child %d of %zu is wrong", pos, kids.size ());
    axlList * l = axl_node_get_childs (x.n); CHECK (c, l && axl_list_length (l) == (int) kids.size (), "childs", "list of children has %d of %zu", l ? axl_list_length (l) : -1, kids.size ());
    for (size_t i = 0; i < kids.size (); i++) CHECK (c, axl_list_get_nth (l, (int) i) == idx (kids[i]), "childs", "child %zu in the list is wrong", i);
    axl_list_free (l);
    // content
    const MItem * first = nullptr; Str all; int texts = 0; for (auto & i : x.m->items) if (i.k == K_TEXT || i.k == K_CDATA) { if (!first) first = &i; all += i.text; texts++; }
    int sz = -3; const char * s = axl_node_get_content (x.n, &sz); CHECK (c, s && sz == (int) (first ? first->text.size () : 0) && (first ? first->text : Str ()) == s, "content", "content of <%s>: expected %s, found %s (%d)", x.m->name.c_str (), first ? vis (first->text).c_str () : "nothing", vis (s).c_str (), sz);
    sz = -3; char * cp = axl_node_get_content_copy (x.n, r.chance (1, 2) ? &sz : NULL); CHECK (c, cp && cp != s && (first ? first->text : Str ()) == cp && (sz == -3 || sz == (int) strlen (cp)), "content-copy", "copy of the content of <%s> is wrong", x.m->name.c_str ()); axl_free (cp);
    bool ask = r.chance (1, 2); sz = -3; cp = axl_node_get_content_trans (x.n, ask ? &sz : NULL); if (!texts) CHECK (c, !cp && sz == (ask ? 0 : -3), "content-trans", "translated content for <%s>, that has none (%d)", x.m->name.c_str (), sz); else { Str w = translate (all); CHECK (c, cp && w == cp && (sz == -3 || sz == (int) w.size ()), "content-trans", "translated content of <%s>: expected %s, found %s (%d)", x.m->name.c_str (), vis (w).c_str (), vis (cp).c_str (), sz); } axl_free (cp);
    CHECK (c, !!axl_node_is_empty (x.n) == !texts, "is-empty", "<%s> with %d texts: emptiness is wrong", x.m->name.c_str (), texts);
    c.count ("lookups", 12);
    // paths
    std::vector<Str> steps; for (int i = (int) (&x - &v[0]); i >= 0; i = v[(size_t) i].parent) steps.insert (steps.begin (), v[(size_t) i].m->name);
    switch (r.below (8)) { case 0: steps.push_back (nm); break; case 1: steps[r.below ((uint32_t) steps.size ())] = nm; break; case 2: steps.pop_back (); if (steps.empty ()) steps.push_back (m->name); break; default: break; }
    if (steps.size () > 1) { if (r.chance (1, 5)) steps.back () = "*"; else if (r.chance (1, 25)) steps[1 + r.below ((uint32_t) steps.size () - 1)] = "*"; }
    bool anyRoot = r.chance (1, 6);
    Str path; for (auto & q : steps) path += "/" + (&q == &steps[0] && anyRoot ? Str () : q);
    if (!anyRoot && path.find ('*') == Str::npos && r.chance (1, 8)) path += "/"; bool bad = false; if (!anyRoot && r.chance (1, 12)) { path.erase (0, 1); bad = true; }
    MNode * at = anyRoot || steps[0] == m->name ? m.get () : nullptr; std::vector<MNode *> all2; if (at && steps.size () == 1) all2.push_back (at);
    for (size_t i = 1; at && i < steps.size (); i++) { MNode * k2 = nullptr; for (auto & q : at->items) if (q.k == K_ELEM && (q.node->name == steps[i] || (i + 1 == steps.size () && steps[i] == "*"))) { if (!k2) k2 = q.node.get (); if (i + 1 == steps.size ()) all2.push_back (q.node.get ()); } at = k2; }
    if (bad) { at = nullptr; all2.clear (); }
    axlNode * got = axl_doc_get (d.d, path.c_str ()); CHECK (c, got == (at ? idx (at) : nullptr), "path", "path %s leads to %s", vis (path).c_str (), got ? axl_node_get_name (got) : "nothing");
    axlList * pl = axl_doc_get_list (d.d, path.c_str ()); CHECK (c, (pl ? (size_t) axl_list_length (pl) : 0) == all2.size () && !!pl == !!at, "path", "the list for path %s has %d nodes, not %zu", vis (path).c_str (), pl ? axl_list_length (pl) : 0, all2.size ());
    for (size_t i = 0; i < all2.size (); i++) CHECK (c, axl_list_get_nth (pl, (int) i) == idx (all2[i]), "path", "node %zu of the list for path %s is wrong", i, vis (path).c_str ());
    if (pl) axl_list_free (pl); if (all2.size () > 1) c.count ("paths_several");
    sz = -3; const char * pc = axl_doc_get_content_at (d.d, path.c_str (), &sz); CHECK (c, !!pc == !!at && (!pc || (Str (pc) == axl_node_get_content (got, NULL) && sz == (int) strlen (pc))), "path-content", "content at path %s is wrong", vis (path).c_str ());
    c.count (at ? "paths_found" : "paths_missing");
  }
  check_iterate (c, d.d, v, false); check_iterate (c, d.d, v, false);
  CHECK (c, canon_axl (root) == canon (*m), "query-changes", "questions changed the tree");
  // trimmed content changes only surrounding white space of the first text
  N & x = v[r.below ((uint32_t) v.size ())]; MItem * first = nullptr; for (auto & i : x.m->items) if (!first && (i.k == K_TEXT || i.k == K_CDATA)) first = &i;
  int sz = -3; const char * s = axl_node_get_content_trim (x.n, &sz); if (first) first->text = trim_ws (first->text);
  CHECK (c, s && (first ? first->text : Str ()) == s && sz == (int) strlen (s), "content-trim", "trimmed content of <%s> is wrong: %s (%d)", x.m->name.c_str (), vis (s).c_str (), sz);
  CHECK (c, canon_axl (root) == canon (*m), "content-trim", "trimming changed something else");
  if (r.chance (1, 2)) { check_iterate (c, d.d, v, true); check_links (c, root, nullptr, "removal during iteration"); c.count ("removing_iterations"); }
  c.count ("documents"); c.maxi ("nodes", v.size ()); if (v.size () > 2) c.distinct (canon (*m)); if (c.index < 3) c.sample (canon (*m));
}

// --- copies do not share anything, equality is what it says
// another text, different also once trimmed
static void alter (Rng & r, Str & s) {
  std::vector<size_t> at; for (size_t i = 0; i < s.size (); i++) if ((unsigned char) s[i] > ' ' && (unsigned char) s[i] < 127) at.push_back (i);
  switch (r.below (5)) {
  case 0: s += "x"; break;
  case 1: s.insert (0, "x"); break;
  case 2: if (at.empty ()) { s += "x"; break; } { size_t i = at[r.below ((uint32_t) at.size ())]; s.insert (i, "y"); break; }
  default: { if (at.empty ()) { s += "x"; break; } char & k = s[at[r.below ((uint32_t) at.size ())]]; k = isalpha (k) && r.chance (1, 2) ? (char) (k ^ 32) : k == 'k' ? 'j' : 'k'; }
  }
}
static void mutate_model (Ctx & c, MNode & root, Str & what, bool & whiteOnly) {
  std::vector<MNode *> v; collect (root, v); Rng & r = c.rng; whiteOnly = false;
  for (int tries = 0; tries < 40; tries++) {
    MNode & n = *v[r.below ((uint32_t) v.size ())];
    switch (r.below (12)) {
    case 0: n.name += "q"; what = "name"; return;
    case 1: { bool dup = false; for (auto & a : n.attrs) if (a.first == "zz") dup = true; if (dup) break; n.attrs.push_back ({ "zz", "1" }); what = "attribute added"; return; }
    case 2: if (n.attrs.empty ()) break; n.attrs.erase (n.attrs.begin () + r.below ((uint32_t) n.attrs.size ())); what = "attribute removed"; return;
    case 3: if (n.attrs.empty ()) break; alter (r, n.attrs[r.below ((uint32_t) n.attrs.size ())].second); what = "attribute value"; return;
    case 4: { if (n.attrs.empty ()) break; auto & at = n.attrs[r.below ((uint32_t) n.attrs.size ())]; do at.first += "x"; while (std::count_if (n.attrs.begin (), n.attrs.end (), [&] (auto & o) { return o.first == at.first; }) > 1); } what = "attribute name"; return;
    case 5: { MItem i; i.k = K_ELEM; i.node = std::make_shared<MNode> (); i.node->name = "extra"; n.items.insert (n.items.begin () + r.below ((uint32_t) n.items.size () + 1), i); what = "element added"; return; }
    case 6: if (n.items.empty ()) break; n.items.erase (n.items.begin () + r.below ((uint32_t) n.items.size ())); what = "item removed"; return;
    case 7: case 8: { std::vector<MItem *> t; for (auto & i : n.items) if (i.k == K_TEXT || i.k == K_CDATA || i.k == K_COMMENT) t.push_back (&i); if (t.empty ()) break; alter (r, t[r.below ((uint32_t) t.size ())]->text); what = "text"; return; }
    case 9: { std::vector<MItem *> t; for (auto & i : n.items) if ((i.k == K_TEXT || i.k == K_CDATA || i.k == K_COMMENT) && !has_blank_only (i.text)) t.push_back (&i); if (t.empty ()) break; MItem & i = *t[r.below ((uint32_t) t.size ())]; if (r.chance (1, 2)) i.text += " \n"; else i.text = "\t " + i.text; what = "white space"; whiteOnly = true; return; }
    case 10: { std::vector<MItem *> t; for (auto & i : n.items) if (i.k == K_PI) t.push_back (&i); if (t.empty ()) break; MItem & i = *t[r.below ((uint32_t) t.size ())]; if (i.hasContent && r.chance (1, 2)) alter (r, i.text); else i.target += "x"; what = "instruction"; return; }
    default: { size_t a = n.items.size (); if (a < 2) break; size_t p = r.below ((uint32_t) a - 1); MNode w1; MItem x = n.items[p], y = n.items[p + 1]; MNode s1, s2; s1.items = { x }; s2.items = { y }; if (canon_trim (s1) == canon_trim (s2)) break; std::swap (n.items[p], n.items[p + 1]); what = "order"; return; }
    }
  }
  root.name += "r"; what = "name";
}
MODE (copyeq) {
  GenCfg g; g.maxNodes = c.rng.chance (1, 4) ? 40 : 8; g.maxDepth = 6; Rng & r = c.rng; MP m; DocHold d (make_doc (c, m, g)); axlNode * root = axl_doc_get_root (d.d); check_tree (c, *m, root, "tree");
  // copy of the whole and of a part
  std::vector<N> v; pairup (c, m.get (), root, -1, 0, 0, v); N & x = v[r.below ((uint32_t) v.size ())];
  axlNode * cp = axl_node_copy (x.n, axl_true, axl_true); Str before = canon (*x.m);
  CHECK (c, canon_axl (cp) == before, "copy", "the copy differs: expected %s, found %s", vis (before).c_str (), vis (canon_axl (cp)).c_str ());
  CHECK (c, axl_node_get_parent (cp) == nullptr, "copy", "the copy has a parent"); check_links (c, cp, nullptr, "copy");
  CHECK (c, axl_node_are_equal (cp, x.n) && axl_node_are_equal (x.n, cp), "copy-equal", "the copy is not reported equal to its original");
  { // nothing is shared
    std::set<const void *> mine; std::function<void (axlNode *, bool)> w = [&] (axlNode * n, bool add) {
      auto see = [&] (const void * p) { if (!p) return; if (add) mine.insert (p); else CHECK (c, !mine.count (p), "copy-shares", "original and copy share memory of <%s>", axl_node_get_name (n)); };
      see (n); see (axl_node_get_name (n)); axlAttrCursor * cu = axl_node_attr_cursor_new (n); for (axl_node_attr_cursor_first (cu); axl_node_attr_cursor_has_item (cu); axl_node_attr_cursor_next (cu)) { see (axl_node_attr_cursor_get_key (cu)); see (axl_node_attr_cursor_get_value (cu)); } axl_node_attr_cursor_free (cu);
      for (axlItem * i = axl_item_get_first_child (n); i; i = axl_item_get_next (i)) { see (i); if (axl_item_get_type (i) == ITEM_NODE) w ((axlNode *) axl_item_get_data (i), add); else if (axl_item_get_type (i) == ITEM_PI) { axlPI * p = (axlPI *) axl_item_get_data (i); see (p); see (axl_pi_get_name (p)); see (axl_pi_get_content (p)); } else see (axl_item_get_content (i, NULL)); } };
    w (x.n, true); w (cp, false); c.count ("sharing_checked", mine.size ());
  }
  // the original goes, the copy stays
  DocHold d2 (axl_doc_create (NULL, NULL, axl_false)); axl_doc_set_root (d2.d, cp);
  if (r.chance (1, 2)) { axl_doc_free (d.d); d.d = nullptr; CHECK (c, canon_axl (cp) == before, "copy-dies", "the copy changed when the original was released"); c.count ("original_released"); }
  else if (&x != &v[0] && r.chance (1, 2)) { axl_node_remove (x.n, axl_true); CHECK (c, canon_axl (cp) == before, "copy-dies", "the copy changed when the original was released"); c.count ("original_released"); }
  // the copy is a tree like any other: it can grow and shrink
  { std::vector<axlNode *> in; std::function<void (axlNode *)> w = [&] (axlNode * n) { in.push_back (n); for (axlNode * k = axl_node_get_first_child (n); k; k = axl_node_get_next (k)) w (k); }; w (cp); for (int k = r.range (1, 3); k > 0; k--) { axlNode * at = in[r.below ((uint32_t) in.size ())], * ad = axl_node_create ("added"); Str was = canon_axl (cp); axl_node_set_child (at, ad); axl_node_set_content (ad, "more", 4); CHECK (c, axl_node_get_parent (ad) == at, "copy-grows", "a child added to the copy has another parent"); CHECK (c, canon_axl (cp) != was, "copy-grows", "a child added to the copy is not there"); axl_node_remove (ad, axl_true); CHECK (c, canon_axl (cp) == was, "copy-grows", "the copy changed when a child was added and removed"); } }
  // equality against an equal and a changed document
  MP sub = clone_model (*x.m); DocHold d3 (axl_doc_create (NULL, NULL, axl_false));
  // attribute order does not matter
  std::vector<MNode *> all; collect (*sub, all); MP shuffled = clone_model (*sub); { std::vector<MNode *> q; collect (*shuffled, q); for (auto k : q) for (size_t i = k->attrs.size (); i > 1; i--) std::swap (k->attrs[i - 1], k->attrs[r.below ((uint32_t) i)]); }
  std::function<axlNode * (MNode &)> plain = [&] (MNode & q) { axlNode * n = axl_node_create (q.name.c_str ()); for (auto & a : q.attrs) axl_node_set_attribute_ref (n, axl_strdup (a.first.c_str ()), axl_strdup (a.second.c_str ()));
    for (auto & i : q.items) switch (i.k) { case K_ELEM: axl_node_set_child (n, plain (*i.node)); break; case K_PI: axl_node_add_pi_target (n, (char *) i.target.c_str (), i.hasContent ? (char *) i.text.c_str () : NULL); break; case K_COMMENT: axl_node_set_comment (n, (char *) i.text.c_str (), -1); break; case K_TEXT: axl_item_set_child_ref (n, axl_item_new (ITEM_CONTENT, (char *) i.text.c_str ())); break; default: axl_item_set_child_ref (n, axl_item_new (ITEM_CDATA, (char *) i.text.c_str ())); }
    return n; };
  axl_doc_set_root (d3.d, plain (*shuffled)); Str cs = canon (*shuffled); CHECK (c, canon_axl (axl_doc_get_root (d3.d)) == cs, "tree", "rebuilt tree differs");
  axlError * e = nullptr;
  CHECK (c, axl_doc_are_equal (d2.d, d3.d) && axl_doc_are_equal (d3.d, d2.d), "equal", "documents with the same content are reported different");
  CHECK (c, axl_doc_are_equal_trimmed (d2.d, d3.d) && axl_doc_are_equal_full (d2.d, d3.d, axl_false, &e) && !e && axl_doc_are_equal_full (d3.d, d2.d, axl_true, &e) && !e, "equal", "documents with the same content are reported different");
  Str what; bool white; mutate_model (c, *shuffled, what, white); c.note ("changed: %s", what.c_str ());
  DocHold d4 (axl_doc_create (NULL, NULL, axl_false)); axl_doc_set_root (d4.d, plain (*shuffled));
  CHECK (c, !axl_doc_are_equal (d2.d, d4.d) && !axl_doc_are_equal (d4.d, d2.d), "different", "documents that differ (%s) are reported equal", what.c_str ());
  CHECK (c, !!axl_doc_are_equal_trimmed (d2.d, d4.d) == white && !!axl_doc_are_equal_trimmed (d4.d, d2.d) == white, "different-trimmed", "documents that differ (%s): trimmed equality is wrong", what.c_str ());
  axl_bool f1 = axl_doc_are_equal_full (d2.d, d4.d, axl_false, &e); err_take (e); axl_bool f2 = axl_doc_are_equal_full (d4.d, d2.d, axl_true, &e); err_take (e); CHECK (c, !f1 && !!f2 == white, "different", "documents that differ (%s): full equality is wrong", what.c_str ());
  CHECK (c, canon_axl (axl_doc_get_root (d2.d)) == before && canon_axl (axl_doc_get_root (d4.d)) == canon (*shuffled), "equal-changes", "comparing changed a document");
  // items
  { std::vector<N> v4; pairup (c, shuffled.get (), axl_doc_get_root (d4.d), -1, 0, 0, v4); N & y = v4[r.below ((uint32_t) v4.size ())]; std::vector<axlItem *> it; for (axlItem * i = axl_item_get_first_child (y.n); i; i = axl_item_get_next (i)) it.push_back (i);
    for (int k = 0; k < 4 && !it.empty (); k++) { size_t a = r.below ((uint32_t) it.size ()), b = r.below ((uint32_t) it.size ()); MItem & ia = y.m->items[a], & ib = y.m->items[b]; if (ia.k == K_ELEM && ib.k == K_ELEM) continue; MNode wa, wb; wa.items = { ia }; wb.items = { ib }; bool tr = r.chance (1, 2); bool want = ia.k == ib.k && (tr ? canon_trim (wa) == canon_trim (wb) : canon (wa) == canon (wb));
      axl_bool got = r.chance (1, 2) ? axl_item_are_equal (it[a], it[b], tr) : axl_item_are_equal_full (it[a], it[b], tr, &e); err_take (e); CHECK (c, !!got == want, "item-equal", "items %s and %s: equality reported %d", vis (canon (wa)).c_str (), vis (canon (wb)).c_str (), (int) got); c.count ("items_compared"); } }
  // content set by size may hold zero bytes
  if (r.chance (1, 8)) { axlNode * n = axl_node_create ("z"); DocHold dz (axl_doc_create (NULL, NULL, axl_false)); axl_doc_set_root (dz.d, n); std::vector<std::pair<int, Str>> put; int first = -1;
    for (int i = r.range (1, 4); i > 0; i--) { Str t; for (int j = r.chance (1, 6) ? r.range (50, 3000) : r.range (0, 12); j > 0; j--) t += r.chance (1, 4) ? '\0' : (char) r.range ('a', 'z'); int k = (int) r.below (3); if (k == 0) axl_node_set_content (n, t.data (), (int) t.size ()); else if (k == 1) axl_node_set_cdata_content (n, t.data (), (int) t.size ()); else axl_node_set_comment (n, (char *) t.data (), (int) t.size ()); if (k < 2 && first < 0) first = (int) put.size (); put.push_back ({ k, t }); }
    axlNode * q = axl_node_copy (n, axl_true, axl_true); DocHold dq (axl_doc_create (NULL, NULL, axl_false)); axl_doc_set_root (dq.d, q); size_t k = 0; axlItem * o = axl_item_get_first_child (n), * i = axl_item_get_first_child (q), * big = nullptr;
    for (; i && o; i = axl_item_get_next (i), o = axl_item_get_next (o), k++) { int sz = -1, so = -1; char * t = axl_item_get_content (i, &sz), * u = axl_item_get_content (o, &so); CHECK (c, k < put.size () && so == (int) put[k].second.size () && put[k].second == Str (u, (size_t) so), "zero-bytes", "content set with a size holds other bytes"); CHECK (c, sz == so && Str (t, (size_t) sz) == put[k].second && t[sz] == 0 && t != u, "zero-bytes", "the copy of content with zero bytes holds other bytes (%d, %d)", sz, so); CHECK (c, axl_item_are_equal (i, o, axl_false) && axl_item_are_equal (o, i, axl_false), "zero-bytes", "content with zero bytes is not equal to its copy"); if (!big && sz > 0) big = i; }
    CHECK (c, !i && !o && k == put.size (), "zero-bytes", "items lost"); char * a = nullptr, * b = nullptr; int sa = 0, sb = 0; CHECK (c, axl_doc_dump (dz.d, &a, &sa) && axl_doc_dump (dq.d, &b, &sb), "zero-bytes", "dump fails"); Str da (a, (size_t) sa), db (b, (size_t) sb); axl_free (a); axl_free (b); CHECK (c, da == db, "zero-bytes", "the dump of the copy differs");
    if (first >= 0) { int sz = -1; char * t = axl_node_get_content_copy (q, &sz); bool ok = t && sz == (int) put[(size_t) first].second.size () && Str (t, (size_t) sz) == put[(size_t) first].second && t[sz] == 0; axl_free (t); CHECK (c, ok, "zero-bytes", "the content copy holds other bytes"); }
    { Str all; int k2 = 0; for (auto & x2 : put) if (x2.first < 2) { all += x2.second; k2++; } int sz = -1; char * t = axl_node_get_content_trans (q, r.chance (1, 2) ? &sz : NULL); bool ok = k2 == 0 ? !t : t && (sz == -1 || sz == (int) all.size ()) && Str (t, all.size ()) == all; axl_free (t); CHECK (c, ok, "zero-bytes", "the content, all pieces joined, holds other bytes"); }
    if (big) { int sz = 0; char * t = axl_item_get_content (big, &sz); t[r.below ((uint32_t) sz)] ^= 0x80; bool differ = false; for (i = axl_item_get_first_child (q), o = axl_item_get_first_child (n); i; i = axl_item_get_next (i), o = axl_item_get_next (o)) if (!axl_item_are_equal (i, o, axl_false)) { differ = true; CHECK (c, i == big, "zero-bytes", "equal content is reported different"); } CHECK (c, differ, "zero-bytes", "content that differs after a zero byte is reported equal"); }
    c.count ("zero_bytes"); }
  c.count ("documents"); c.count (fmt ("change.%s", what.c_str ()).c_str ()); c.count ("copies"); c.distinct (canon (*shuffled) + before); if (c.index < 3) c.sample (before);
}

// --- annotations: the newest value for a key, of the node or of the nearest ancestor that has it
namespace { struct Ann { int type; int i; Str s; double d; void * p; }; static thread_local uint64_t g_destroyed; static void on_destroy (axlPointer p) { g_destroyed++; free (p); } }
MODE (annot) {
  GenCfg g; g.maxNodes = 12; g.maxDepth = 6; g.text = g.cdata = g.comments = g.pis = false; Rng & r = c.rng; MP m; g_destroyed = 0; uint64_t given = 0;
  static const char * keys[] = { "k1", "k2", "key three", "k4", "", "Kk" };
  { DocHold d (make_doc (c, m, g)); axlNode * root = axl_doc_get_root (d.d); std::vector<N> v; pairup (c, m.get (), root, -1, 0, 0, v); std::vector<std::map<Str, Ann>> a (v.size ());
    std::vector<void *> borrowed; int steps = r.range (4, 60);
    for (int k = 0; k < steps; k++) {
      size_t x = r.below ((uint32_t) v.size ()); const char * key = keys[r.below (6)]; Ann w; w.type = (int) r.below (5); w.i = r.range (-5, 1000000); w.s = fmt ("s%d", w.i); w.d = w.i / 7.0; w.p = nullptr;
      if (r.chance (1, 2)) {
        switch (w.type) {
        case 0: if (r.chance (1, 4)) w.i = 0; axl_node_annotate_int (v[x].n, key, w.i); break;
        case 1: if (r.chance (1, 6)) w.s = ""; axl_node_annotate_string (v[x].n, key, w.s.c_str ()); break;
        case 2: axl_node_annotate_double (v[x].n, key, w.d); break;
        case 3: w.p = malloc (8); borrowed.push_back (w.p); axl_node_annotate_data (v[x].n, key, w.p); break;
        default: { w.p = malloc (8); given++; char * kk = axl_strdup (key); axl_node_annotate_data_full (v[x].n, kk, axl_free, w.p, on_destroy); }
        }
        a[x][key] = w; c.note ("annotate node %zu key %s type %d", x, key, w.type); c.count ("annotations");
      } else {
        bool up = r.chance (1, 2); const Ann * f = nullptr; for (int q = (int) x; q >= 0; q = up ? v[(size_t) q].parent : -1) { auto it = a[(size_t) q].find (key); if (it != a[(size_t) q].end ()) { f = &it->second; break; } }
        c.note ("read node %zu key %s up %d", x, key, (int) up);
        void * got = axl_node_annotate_get (v[x].n, key, up); CHECK (c, !!got == !!f, "annotation", "key %s of node %zu: %s", key, x, got ? "found but never set" : "lost");
        if (!f) { CHECK (c, axl_node_annotate_get_int (v[x].n, key, up) == 0 && !axl_node_annotate_get_string (v[x].n, key, up) && axl_node_annotate_get_double (v[x].n, key, up) == 0, "annotation", "a value for a key never set"); c.count ("reads_missing"); }
        else if (f->type >= 3) CHECK (c, got == f->p, "annotation-data", "key %s of node %zu gives other data", key, x);
        else {
          int i = axl_node_annotate_get_int (v[x].n, key, up); char * s = axl_node_annotate_get_string (v[x].n, key, up); double dd = axl_node_annotate_get_double (v[x].n, key, up);
          CHECK (c, i == (f->type == 0 ? f->i : 0), "annotation-int", "key %s of node %zu: integer %d", key, x, i);
          CHECK (c, f->type == 1 ? s && f->s == s : !s, "annotation-string", "key %s of node %zu: string %s", key, x, vis (s).c_str ());
          CHECK (c, dd == (f->type == 2 ? f->d : 0.0), "annotation-double", "key %s of node %zu: double %f", key, x, dd);
        }
        if (f) { c.count ("reads_found"); if (up && !a[x].count (key)) c.count ("reads_inherited"); }
      }
    }
    // annotations are not part of the document
    CHECK (c, canon_axl (root) == canon (*m), "annotation-changes", "annotations changed the document");
    axlNode * cp = axl_node_copy (root, axl_true, axl_true); CHECK (c, canon_axl (cp) == canon (*m), "copy", "copy of an annotated tree differs"); axl_node_free (cp);
    axl_doc_free (d.d); d.d = nullptr; for (auto p : borrowed) free (p);
  }
  CHECK (c, g_destroyed == given, "annotation-destroy", "%llu of %llu annotated values were released", (unsigned long long) g_destroyed, (unsigned long long) given);
  c.count ("values_released", given); c.count ("histories"); c.distinct (hash_str (c.trace)); if (c.index < 3) c.sample (c.trace);
}

// --- processing instructions and comments, of the document and of its nodes
MODE (pis) {
  Rng & r = c.rng; typedef std::pair<Str, Str> P; std::vector<P> dp, np; static const char * tg[] = { "pi", "style", "php", "x-target", "pi2", "XmlX", "stylesheet" };
  static const char * ct[] = { "", "a", "href=\"x\" type='y'", "<b>", "1 2  3", "a?b", "x > y", "--", "&amp;" };
  auto mk = [&] { P p; p.first = tg[r.below (7)]; p.second = ct[r.below (9)]; return p; };
  auto txt = [&] (const P & p) { Str s = "<?" + p.first; static const char * sp[] = { " ", " ", " ", "\n", "\t", "\r" }; if (!p.second.empty ()) s += sp[r.below (6)] + p.second; else if (r.chance (1, 5)) s += sp[r.below (6)]; if (r.chance (1, 3) && !p.second.empty ()) s += " "; return s + "?>"; };
  DocHold d; axlNode * n; bool parsed = r.chance (1, 2); std::vector<Str> com; std::vector<std::pair<char, Str>> seq;
  if (parsed) {
    Str t = r.chance (1, 2) ? "<?xml version='1.0'?>" : ""; auto gap = [&] { if (!t.empty () && r.chance (1, 3)) t += "\n "; };
    for (int k = r.range (0, 5); k > 0; k--) { gap (); if (r.chance (1, 3)) t += "<!-- c -->"; else { P p = mk (); dp.push_back (p); t += txt (p); } }
    if (r.chance (1, 5)) { t += "<!DOCTYPE r SYSTEM 'x'>"; for (int k = r.range (0, 2); k > 0; k--) { gap (); P p = mk (); dp.push_back (p); t += txt (p); } }
    gap (); t += "<r>"; for (int k = r.range (0, 7); k > 0; k--) { gap (); if (r.chance (1, 4)) { Str q = r.chance (1, 6) ? Str () : fmt ("com %d <x>", k); com.push_back (q); seq.push_back ({ 'c', q }); t += "<!--" + q + "-->"; } else if (r.chance (1, 4)) { t += "<e/>"; seq.push_back ({ 'e', "e" }); } else { P p = mk (); np.push_back (p); seq.push_back ({ 'p', p.first + "\1" + p.second }); t += txt (p); } }
    gap (); t += "</r>"; c.noteData ("document", t); axlError * e = nullptr; d.d = parse_mem (t, &e); Str em = err_take (e); CHECK (c, d.d, "reject-wellformed", "document rejected: %s", em.c_str ()); n = axl_doc_get_root (d.d);
  } else {
    d.d = axl_doc_create (NULL, NULL, axl_false); n = axl_node_create ("r"); axl_doc_set_root (d.d, n);
    for (int k = r.range (0, 5); k > 0; k--) { P p = mk (); dp.push_back (p); axl_doc_add_pi_target (d.d, (char *) p.first.c_str (), p.second.empty () ? NULL : (char *) p.second.c_str ()); }
    for (int k = r.range (0, 6); k > 0; k--) { if (r.chance (1, 4)) { Str q = fmt ("com %d", k); com.push_back (q); seq.push_back ({ 'c', q }); axl_node_set_comment (n, (char *) q.c_str (), -1); } else { P p = mk (); np.push_back (p); seq.push_back ({ 'p', p.first + "\1" + p.second }); axl_node_add_pi_target (n, (char *) p.first.c_str (), p.second.empty () ? NULL : (char *) p.second.c_str ()); } }
    c.note ("built with %zu and %zu instructions", dp.size (), np.size ());
  }
  auto eq = [&] (const char * got, const Str & want) { return want.empty () ? (!got || !*got) : (got && want == got); };
  axlList * l = axl_doc_get_pi_target_list (d.d); CHECK (c, l && axl_list_length (l) == (int) dp.size (), "pi-list", "the document lists %d instructions, it has %zu", l ? axl_list_length (l) : -1, dp.size ());
  for (size_t i = 0; i < dp.size (); i++) { axlPI * p = (axlPI *) axl_list_get_nth (l, (int) i); CHECK (c, p && dp[i].first == axl_pi_get_name (p) && eq (axl_pi_get_content (p), dp[i].second), "pi-list", "instruction %zu of the document is wrong: %s %s", i, p ? axl_pi_get_name (p) : "", vis (p ? axl_pi_get_content (p) : nullptr).c_str ()); }
  l = axl_node_get_pi_target_list (n); CHECK (c, (l ? axl_list_length (l) : 0) == (int) np.size (), "pi-list", "the node lists %d instructions, it has %zu", l ? axl_list_length (l) : 0, np.size ());
  for (size_t i = 0; i < np.size (); i++) { axlPI * p = (axlPI *) axl_list_get_nth (l, (int) i); CHECK (c, p && np[i].first == axl_pi_get_name (p) && eq (axl_pi_get_content (p), np[i].second), "pi-list", "instruction %zu of the node is wrong", i); }
  if (l) axl_list_free (l);
  for (int k = 0; k < 7; k++) {
    Str t = tg[k]; const P * a = nullptr, * b = nullptr; for (auto & p : dp) if (!a && p.first == t) a = &p; for (auto & p : np) if (!b && p.first == t) b = &p;
    CHECK (c, !!axl_doc_has_pi_target (d.d, (char *) tg[k]) == !!a && !!axl_node_has_pi_target (n, (char *) tg[k]) == !!b, "pi-has", "presence of %s is wrong", tg[k]);
    CHECK (c, a ? eq (axl_doc_get_pi_target_content (d.d, (char *) tg[k]), a->second) : !axl_doc_get_pi_target_content (d.d, (char *) tg[k]), "pi-content", "content of %s in the document is wrong", tg[k]);
    CHECK (c, b ? eq (axl_node_get_pi_target_content (n, (char *) tg[k]), b->second) : !axl_node_get_pi_target_content (n, (char *) tg[k]), "pi-content", "content of %s in the node is wrong", tg[k]);
  }
  for (const char * no : { "PI", "sty", "Pi2", "stylesheets", "x", "xmlx", "x-Target", "p", "php3" }) CHECK (c, !axl_doc_has_pi_target (d.d, (char *) no) && !axl_node_has_pi_target (n, (char *) no) && !axl_doc_get_pi_target_content (d.d, (char *) no) && !axl_node_get_pi_target_content (n, (char *) no), "pi-has", "%s is reported present", no);
  // everything in its place
  size_t k = 0; for (axlItem * i = axl_item_get_first_child (n); i; i = axl_item_get_next (i), k++) {
    CHECK (c, k < seq.size (), "pi-sequence", "more items than written"); auto & s = seq[k];
    switch (axl_item_get_type (i)) {
    case ITEM_PI: { axlPI * p = (axlPI *) axl_item_get_data (i); const char * q = axl_pi_get_content (p); CHECK (c, s.first == 'p' && s.second == Str (axl_pi_get_name (p)) + "\1" + (q ? q : ""), "pi-sequence", "item %zu is another instruction", k);
      { int sz = 5; char * t = axl_item_get_content (i, r.chance (1, 2) ? &sz : NULL); CHECK (c, !t && (sz == 5 || sz == -1), "comment", "an instruction has content like text"); }
      int sz = axl_pi_get_size (p); CHECK (c, sz == (int) (strlen (axl_pi_get_name (p)) + (q ? strlen (q) + 5 : 4)), "pi-size", "size of the instruction is %d", sz);
      axlPI * cp = axl_pi_copy (p); CHECK (c, cp != p && axl_pi_are_equal (cp, p) && axl_pi_are_equal (p, cp) && Str (axl_pi_get_name (cp)) == axl_pi_get_name (p), "pi-copy", "copy of the instruction differs");
      axlPI * other = axl_pi_create ((char *) (Str (axl_pi_get_name (p)) + "z").c_str (), axl_pi_get_content (p)); axlPI * oc = axl_pi_create (axl_pi_get_name (p), (char *) "other content"); CHECK (c, !axl_pi_are_equal (other, p) && !axl_pi_are_equal (p, other) && !axl_pi_are_equal (p, oc) && !axl_pi_are_equal (oc, p), "pi-equal", "different instructions are reported equal"); axl_pi_free (other); axl_pi_free (oc); axl_pi_free (cp); break; }
    case ITEM_COMMENT: { int sz = -3; const char * q = axl_item_get_content (i, &sz); CHECK (c, s.first == 'c' && q && s.second == q && sz == (int) s.second.size (), "comment", "item %zu: comment is %s (%d), not %s", k, vis (q).c_str (), sz, vis (s.second).c_str ()); break; }
    case ITEM_NODE: { int sz = 5; CHECK (c, s.first == 'e', "pi-sequence", "item %zu is an element", k); CHECK (c, !axl_item_get_content (i, &sz) && sz == -1, "comment", "an element has content like text"); break; }
    default: c.fail ("pi-sequence", "item %zu is of another kind", k);
    }
  }
  CHECK (c, k == seq.size (), "pi-sequence", "%zu of %zu items found", k, seq.size ());
  // written and read again
  char * o = nullptr; int sz = 0; CHECK (c, axl_doc_dump (d.d, &o, &sz) && o, "dump", "dump failed"); Str dump = o; axl_free (o);
  { axlError * e = nullptr; DocHold d2 (parse_mem (dump, &e)); Str em = err_take (e); CHECK (c, d2.d, "dump", "the dump cannot be parsed: %s (%s)", vis (dump).c_str (), em.c_str ()); CHECK (c, canon_axl_com (axl_doc_get_root (d2.d)) == canon_axl_com (n), "roundtrip", "instructions or comments of the node are lost: %s", vis (dump).c_str ()); }
  c.count ("documents"); c.count ("instructions", dp.size () + np.size ()); c.count ("comments", com.size ()); if (np.size () + dp.size () > 1) c.distinct (dump + fmt ("%zu", dp.size ())); if (c.index < 3) c.sample (dump);
}
