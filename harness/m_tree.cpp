// Histories of edits on live trees, followed step by step by a reference model.
#include "model.hpp"

namespace {
struct Ref { MP node; MP parent; size_t idx = 0; };
static void refs (const MP & n, const MP & p, size_t idx, std::vector<Ref> & out) {
  Ref r; r.node = n; r.parent = p; r.idx = idx; out.push_back (r);
  for (size_t i = 0; i < n->items.size (); i++) if (n->items[i].k == K_ELEM) refs (n->items[i].node, n, i, out);
}
struct Tree { MP m; axlDoc * doc = nullptr; };

struct Forest {
  Ctx & c; std::vector<Tree> trees; std::vector<axlDoc *> docs; std::map<const MNode *, axlNode *> id;
  explicit Forest (Ctx & x) : c (x) {}
  axlNode * at (const MP & m) { auto i = id.find (m.get ()); return i == id.end () ? nullptr : i->second; }
  void bind (const MP & m, axlNode * n) {
    id[m.get ()] = n; axlItem * i = axl_item_get_first_child (n);
    for (auto & k : m->items) { if (!i) c.fail ("tree", "fewer items than expected below <%s>", m->name.c_str ()); if (k.k == K_ELEM) { if (axl_item_get_type (i) != ITEM_NODE) c.fail ("tree", "element expected below <%s>", m->name.c_str ()); bind (k.node, (axlNode *) axl_item_get_data (i)); } i = axl_item_get_next (i); }
  }
  void unbind (const MP & m) { id.erase (m.get ()); for (auto & k : m->items) if (k.k == K_ELEM) unbind (k.node); }
  void identity (const MP & m, axlNode * n) {
    if (at (m) != n) c.fail ("identity", "another node stands in the place of <%s>", m->name.c_str ());
    axlItem * i = axl_item_get_first_child (n);
    for (auto & k : m->items) { if (k.k == K_ELEM) identity (k.node, (axlNode *) axl_item_get_data (i)); i = axl_item_get_next (i); }
  }
  void check (const Tree & t, const char * what) {
    axlNode * n = at (t.m);
    if (t.doc) CHECK (c, axl_doc_get_root (t.doc) == n, "root", "after %s: the root of the document is not the expected node", what);
    if (!t.m) return;
    if (canon (*t.m) != canon_axl (n)) c.fail ("tree", "after %s: expected %s, found %s", what, vis (canon (*t.m)).c_str (), vis (canon_axl (n)).c_str ());
    identity (t.m, n);
    if (!t.doc && !axl_item_node_holder (n)) { // never attached: no holder, no links upwards
      CHECK (c, !axl_node_get_parent (n) && !axl_node_get_next (n), "links", "after %s: a detached node has links", what);
    }
    check_links (c, n, nullptr, what);
    CHECK (c, axl_node_get_next (n) == nullptr, "links", "after %s: <%s> has no parent but a next node", what, axl_node_get_name (n));
    if (axl_item_node_holder (n)) CHECK (c, !axl_item_node_next (n) && !axl_item_node_previous (n), "links", "after %s: <%s> has no parent but has siblings", what, axl_node_get_name (n));
    c.count ("trees_compared");
  }
  void check_all (const char * what) { for (auto & t : trees) check (t, what); }
  size_t pick () { return c.rng.below ((uint32_t) trees.size ()); }
  // a random node of a tree that has one
  bool pick_ref (size_t & t, Ref & r, bool inner = false) {
    for (int i = 0; i < 20; i++) {
      t = pick (); if (!trees[t].m) continue;
      std::vector<Ref> v; refs (trees[t].m, nullptr, 0, v);
      if (inner) { if (v.size () < 2) continue; r = v[1 + c.rng.below ((uint32_t) v.size () - 1)]; } else r = v[c.rng.below ((uint32_t) v.size ())];
      return true;
    }
    return false;
  }
  bool below (const MP & m, const MNode * x) { if (m.get () == x) return true; for (auto & k : m->items) if (k.k == K_ELEM && below (k.node, x)) return true; return false; }
  axlItem * item (const MP & m, size_t idx) { axlItem * i = axl_item_get_first_child (at (m)); while (idx-- && i) i = axl_item_get_next (i); return i; }
  // a detached tree to insert somewhere: a fresh one or one kept from before, never one that holds `not_in`
  MP take_detached (const MNode * not_in) {
    std::vector<size_t> v; for (size_t i = 0; i < trees.size (); i++) if (!trees[i].doc && !(not_in && below (trees[i].m, not_in))) v.push_back (i);
    if (!v.empty () && c.rng.chance (1, 2)) { size_t i = v[c.rng.below ((uint32_t) v.size ())]; MP m = trees[i].m; trees.erase (trees.begin () + (long) i); c.count ("reinserted"); return m; }
    return fresh ();
  }
  MP fresh () {
    GenCfg g; g.maxNodes = c.rng.chance (1, 2) ? 0 : 5; g.maxDepth = 3; g.maxKids = 3; g.maxAttrs = 2; g.manyAttrs = c.rng.chance (1, 8); g.unicode = false; g.namePool = 4;
    MP m = gen_tree (c.rng, g); axlNode * n = build_axl (c.rng, *m); bind (m, n); return m;
  }
  void keep (const MP & m) { Tree t; t.m = m; trees.push_back (t); }
  void drop (const MP & m) { unbind (m); }
  void finish () {
    for (auto & t : trees) if (!t.doc && t.m) axl_node_free (at (t.m));
    // nodes that moved between documents: no document goes before its nodes
    if (docs.size () > 1) for (auto d : docs) if (axl_doc_get_root (d)) axl_node_remove (axl_doc_get_root (d), axl_true);
    trees.clear (); for (auto d : docs) axl_doc_free (d);
    docs.clear ();
  }
  ~Forest () {}
};
static MItem elem (const MP & m) { MItem i; i.k = K_ELEM; i.node = m; return i; }
static Str small_text (Rng & r) { static const char * w[] = { "t", "text", "a b", " lead", "trail ", "x\ny", "long text with several words", "0" }; Str s = w[r.below (8)]; if (r.chance (1, 40)) s = Str (3000, 'q'); return s; }

// a node or item put somewhere belongs to the document of what it was put in
static void check_doc (Ctx & c, axlItem * i, axlNode * parent, const char * what) { CHECK (c, i && axl_item_get_doc (i) == axl_node_get_doc (parent), "document", "%s: the item put in says it belongs to %s document", what, axl_item_get_doc (i) ? "another" : "no"); c.count ("documents_checked"); }
static void check_no_doc (Ctx & c, axlNode * n) { CHECK (c, axl_node_get_doc (n) == nullptr, "document", "a copy says it belongs to a document"); for (axlItem * i = axl_item_get_first_child (n); i; i = axl_item_get_next (i)) { CHECK (c, axl_item_get_doc (i) == nullptr, "document", "an item of a copy says it belongs to a document"); if (axl_item_get_type (i) == ITEM_NODE) check_no_doc (c, (axlNode *) axl_item_get_data (i)); } }

static void step (Forest & f, Str & what) {
  Ctx & c = f.c; Rng & r = c.rng; size_t t; Ref x;
  switch (r.below (26)) {
  case 0: case 1: { // text of each kind at the end
    if (!f.pick_ref (t, x)) return;
    Str s = small_text (r); MItem i; axlNode * n = f.at (x.node); what = "append text";
    switch (r.below (5)) {
    case 0: { i.k = K_TEXT; if (r.chance (1, 3)) s += "<&>'\""; axl_node_set_content (n, s.c_str (), r.chance (1, 2) ? -1 : (int) s.size ()); i.text = escape_defaults (s); break; }
    case 1: i.k = K_TEXT; i.text = s; axl_node_set_content_ref (n, axl_strdup (s.c_str ()), r.chance (1, 2) ? -1 : (int) s.size ()); break;
    case 2: i.k = K_CDATA; i.text = s; axl_node_set_cdata_content (n, s.c_str (), r.chance (1, 2) ? -1 : (int) s.size ()); break;
    case 3: i.k = K_COMMENT; i.text = s; axl_node_set_comment (n, (char *) s.c_str (), r.chance (1, 2) ? -1 : (int) s.size ()); break;
    default: i.k = K_PI; i.target = "pi"; i.text = s; axl_node_add_pi_target (n, (char *) "pi", (char *) s.c_str ()); break;
    }
    check_doc (c, axl_item_get_last_child (n), n, "append");
    c.note ("append kind %d to <%s>", i.k, x.node->name.c_str ()); x.node->items.push_back (i); return;
  }
  case 2: case 3: case 4: { // child at the end
    if (!f.pick_ref (t, x)) return;
    MP m = f.take_detached (x.node.get ()); what = "set child"; c.note ("set <%s> as child of <%s>", m->name.c_str (), x.node->name.c_str ());
    if (r.chance (1, 2)) axl_node_set_child (f.at (x.node), f.at (m)); else axl_item_set_child (f.at (x.node), ITEM_NODE, f.at (m));
    check_doc (c, axl_item_node_holder (f.at (m)), f.at (x.node), "set child"); x.node->items.push_back (elem (m)); return;
  }
  case 5: case 6: { // after a node
    if (!f.pick_ref (t, x, true)) return;
    MP m = f.take_detached (x.node.get ()); what = "set child after"; c.note ("set <%s> after <%s>", m->name.c_str (), x.node->name.c_str ());
    axl_node_set_child_after (f.at (x.node), f.at (m)); check_doc (c, axl_item_node_holder (f.at (m)), f.at (x.parent), "set child after"); x.parent->items.insert (x.parent->items.begin () + (long) x.idx + 1, elem (m)); return;
  }
  case 7: { // after any item
    if (!f.pick_ref (t, x) || x.node->items.empty ()) return;
    size_t k = r.below ((uint32_t) x.node->items.size ()); axlItem * it = f.item (x.node, k); what = "set item after";
    if (r.chance (2, 3)) { MP m = f.take_detached (x.node.get ()); c.note ("set <%s> after item %zu of <%s>", m->name.c_str (), k, x.node->name.c_str ()); axl_item_set_after (it, ITEM_NODE, f.at (m)); check_doc (c, axl_item_node_holder (f.at (m)), f.at (x.node), "set item after"); x.node->items.insert (x.node->items.begin () + (long) k + 1, elem (m)); }
    else { MItem i; i.k = K_PI; i.target = "after"; i.text = "c"; c.note ("set instruction after item %zu of <%s>", k, x.node->name.c_str ()); axl_item_set_after (it, ITEM_PI, axl_pi_create ((char *) "after", (char *) "c")); x.node->items.insert (x.node->items.begin () + (long) k + 1, i); }
    return;
  }
  case 8: case 9: { // remove
    if (!f.pick_ref (t, x, true)) return;
    bool de = r.chance (1, 2); what = "remove node"; c.note ("remove <%s> below <%s>, release %d", x.node->name.c_str (), x.parent->name.c_str (), (int) de);
    MP m = x.node; axlNode * n = f.at (m); x.parent->items.erase (x.parent->items.begin () + (long) x.idx);
    if (de) { f.drop (m); axl_node_remove (n, axl_true); return; }
    if (r.chance (1, 2)) axl_node_remove (n, axl_false); else axl_node_deattach (n);
    if (r.chance (1, 6)) axl_node_deattach (n);      // again: nothing left to do
    f.keep (m); c.count ("deattached"); return;
  }
  case 10: { // the root of a document
    std::vector<size_t> v; for (size_t i = 0; i < f.trees.size (); i++) if (f.trees[i].doc) v.push_back (i);
    if (v.empty ()) return;
    size_t i = v[r.below ((uint32_t) v.size ())]; MP m = f.trees[i].m; axlDoc * d = f.trees[i].doc;
    if (m) { what = "remove root"; bool de = r.chance (1, 2); axlNode * n = f.at (m); c.note ("remove the root <%s>, release %d", m->name.c_str (), (int) de); f.trees[i].m = nullptr; if (de) f.drop (m); axl_node_remove (n, de); if (!de) f.keep (m); }
    else { what = "set root"; MP k = f.take_detached (nullptr); c.note ("set the root <%s>", k->name.c_str ()); for (auto & q : f.trees) if (q.doc == d) q.m = k; axl_doc_set_root (d, f.at (k)); CHECK (c, axl_node_get_doc (f.at (k)) == d, "document", "the root says it belongs to another document"); }
    return;
  }
  case 11: { // replace a node
    if (!f.pick_ref (t, x, true)) return;
    MP m = f.take_detached (x.node.get ()); bool de = r.chance (1, 2); what = "replace node"; c.note ("replace <%s> by <%s>, release %d", x.node->name.c_str (), m->name.c_str (), (int) de);
    axlNode * n = f.at (x.node); MP old = x.node; x.parent->items[x.idx].node = m; if (de) f.drop (old);
    axl_node_replace (n, f.at (m), de); if (!de) f.keep (old); return;
  }
  case 12: { // replace the root
    size_t i = f.pick (); if (!f.trees[i].doc || !f.trees[i].m) return;
    axlDoc * d = f.trees[i].doc; MP old = f.trees[i].m; MP m = f.take_detached (nullptr); bool de = r.chance (1, 2); what = "replace root"; c.note ("replace the root <%s> by <%s>, release %d", old->name.c_str (), m->name.c_str (), (int) de);
    axlNode * n = f.at (old); for (auto & q : f.trees) if (q.doc == d) q.m = m;
    if (de) f.drop (old);
    axl_node_replace (n, f.at (m), de); if (!de) f.keep (old); return;
  }
  case 13: case 14: { // remove any item
    if (!f.pick_ref (t, x) || x.node->items.empty ()) return;
    size_t k = r.below ((uint32_t) x.node->items.size ()); MItem i = x.node->items[k]; axlItem * it = f.item (x.node, k); what = "remove item"; c.note ("remove item %zu (kind %d) of <%s>", k, i.k, x.node->name.c_str ());
    x.node->items.erase (x.node->items.begin () + (long) k);
    if (r.chance (1, 2)) { if (i.k == K_ELEM) f.drop (i.node); axl_item_remove (it, axl_true); return; }
    axl_item_remove (it, axl_false);
    if (i.k == K_ELEM) { f.keep (i.node); c.count ("deattached"); return; }
    if (r.chance (1, 3)) { axl_item_free (it, axl_true); return; }
    x.node->items.push_back (i); axl_item_set_child_ref (f.at (x.node), it); c.count ("item_moved"); return;
  }
  case 15: { // replace any item
    if (!f.pick_ref (t, x) || x.node->items.empty ()) return;
    size_t k = r.below ((uint32_t) x.node->items.size ()); MItem old = x.node->items[k]; axlItem * it = f.item (x.node, k); MItem i; axlItem * ni; what = "replace item";
    Str s = small_text (r); MP kept;
    switch (r.below (5)) {
    case 0: { i.k = K_ELEM; GenCfg g; g.maxNodes = 2; g.maxDepth = 2; g.unicode = false; i.node = gen_tree (r, g); axlNode * n = build_axl (r, *i.node);
        if (r.chance (1, 2)) { ni = axl_item_new (ITEM_NODE, n); axl_node_free (n); c.count ("item_new_copy"); } else { f.bind (i.node, n); ni = axl_item_new_ref (ITEM_NODE, n); }
        break; }
    case 1: i.k = K_PI; i.target = "rep"; i.text = "z"; { axlPI * p = axl_pi_create ((char *) "rep", (char *) "z"); if (r.chance (1, 2)) { ni = axl_item_new (ITEM_PI, p); axl_pi_free (p); } else ni = axl_item_new_ref (ITEM_PI, p); } break;
    default: { static const AxlItemType ty[] = { ITEM_CONTENT, ITEM_CDATA, ITEM_COMMENT }; static const Kind kk[] = { K_TEXT, K_CDATA, K_COMMENT }; int w = (int) r.below (3); i.k = kk[w]; i.text = s; ni = r.chance (1, 2) ? axl_item_new (ty[w], (char *) s.c_str ()) : axl_item_new_ref (ty[w], axl_strdup (s.c_str ())); }
    }
    bool de = r.chance (1, 2); c.note ("replace item %zu (kind %d) of <%s> by kind %d, release %d", k, old.k, x.node->name.c_str (), i.k, (int) de);
    x.node->items[k] = i; if (de && old.k == K_ELEM) f.drop (old.node);
    axlDoc * was = axl_item_get_doc (it); axl_item_replace (it, ni, de); CHECK (c, axl_item_get_doc (ni) == was, "document", "replace item: the new item does not belong to the document of the old one"); c.count ("documents_checked");
    if (i.k == K_ELEM) f.bind (i.node, (axlNode *) axl_item_get_data (f.item (x.node, k)));
    if (!de) { if (old.k == K_ELEM) f.keep (old.node); else axl_item_free (it, axl_true); }
    return;
  }
  case 16: case 17: { // all items of one node to the end of another
    size_t t2; Ref y; if (!f.pick_ref (t, x) || !f.pick_ref (t2, y) || x.node == y.node || f.below (x.node, y.node.get ())) return;
    what = "transfer childs"; c.note ("transfer %zu items of <%s> to <%s> (%zu)", x.node->items.size (), x.node->name.c_str (), y.node->name.c_str (), y.node->items.size ());
    axl_node_transfer_childs (f.at (x.node), f.at (y.node)); for (auto & i : x.node->items) y.node->items.push_back (i);
    x.node->items.clear (); c.count ("transfers"); return;
  }
  case 18: { // all items of one node after an item
    size_t t2; Ref y; if (!f.pick_ref (t, x) || !f.pick_ref (t2, y) || y.node->items.empty () || f.below (x.node, y.node.get ())) return;
    size_t k = r.below ((uint32_t) y.node->items.size ()); what = "transfer childs after"; c.note ("transfer %zu items of <%s> after item %zu of <%s>", x.node->items.size (), x.node->name.c_str (), k, y.node->name.c_str ());
    axl_item_transfer_childs_after (f.at (x.node), f.item (y.node, k)); std::vector<MItem> mv; mv.swap (x.node->items); y.node->items.insert (y.node->items.begin () + (long) k + 1, mv.begin (), mv.end ()); c.count ("transfers"); return;
  }
  case 19: { // a node gives place to its own content
    if (!f.pick_ref (t, x, true)) return;
    what = "unwrap"; c.note ("unwrap <%s>", x.node->name.c_str ()); axlNode * n = f.at (x.node); std::vector<MItem> mv; mv.swap (x.node->items);
    axl_item_transfer_childs_after (n, axl_item_node_holder (n)); auto & pi = x.parent->items; pi.erase (pi.begin () + (long) x.idx); pi.insert (pi.begin () + (long) x.idx, mv.begin (), mv.end ());
    f.drop (x.node); if (r.chance (1, 2)) axl_node_remove (n, axl_true); else { axl_node_remove (n, axl_false); axl_node_free_full (n, axl_false); }
    c.count ("unwraps"); return;
  }
  case 20: { if (!f.pick_ref (t, x)) return; what = "set empty"; c.note ("empty <%s>", x.node->name.c_str ()); bool e = r.chance (5, 6); axl_node_set_is_empty (f.at (x.node), e); if (e) { std::vector<MItem> v; for (auto & i : x.node->items) if (i.k != K_TEXT && i.k != K_CDATA) v.push_back (i); x.node->items.swap (v); } return; }
  case 21: { if (!f.pick_ref (t, x)) return; GenCfg g; Str nm = gen_name (r, g); what = "set name"; c.note ("rename <%s> to <%s>", x.node->name.c_str (), vis (nm).c_str ()); if (r.chance (1, 2)) axl_node_set_name (f.at (x.node), nm.c_str ()); else axl_node_set_name_ref (f.at (x.node), axl_strdup (nm.c_str ())); x.node->name = nm; return; }
  case 22: { // copies
    if (!f.pick_ref (t, x)) return;
    bool ca = r.chance (2, 3), cc = r.chance (2, 3); what = "copy node"; c.note ("copy <%s>, attributes %d, content %d", x.node->name.c_str (), (int) ca, (int) cc);
    axlNode * n = axl_node_copy (f.at (x.node), ca, cc); MP m = clone_model (*x.node); if (!ca) m->attrs.clear (); if (!cc) m->items.clear ();
    CHECK (c, canon (*m) == canon_axl (n), "copy", "the copy differs: expected %s, found %s", vis (canon (*m)).c_str (), vis (canon_axl (n)).c_str ());
    check_no_doc (c, n); f.bind (m, n); f.keep (m); c.count ("copies"); return;
  }
  case 23: { // copy of an item
    size_t t2; Ref y; if (!f.pick_ref (t, x) || x.node->items.empty () || !f.pick_ref (t2, y)) return;
    size_t k = r.below ((uint32_t) x.node->items.size ()); what = "copy item"; MItem i = x.node->items[k]; c.note ("copy item %zu (kind %d) of <%s> into <%s>", k, i.k, x.node->name.c_str (), y.node->name.c_str ());
    if (i.k == K_ELEM) i.node = clone_model (*i.node);
    axlItem * it = axl_item_copy (f.item (x.node, k), f.at (y.node)); axl_item_set_child_ref (f.at (y.node), it);
    if (i.k == K_ELEM) f.bind (i.node, (axlNode *) axl_item_get_data (it));
    y.node->items.push_back (i); c.count ("copies"); return;
  }
  case 24: { // attributes
    if (!f.pick_ref (t, x)) return;
    what = "attribute"; axlNode * n = f.at (x.node); Str a = fmt ("a%d", r.range (0, 13)); bool have = false; size_t p = 0; for (size_t i = 0; i < x.node->attrs.size (); i++) if (x.node->attrs[i].first == a) { have = true; p = i; }
    if (r.chance (1, 3)) { axl_node_remove_attribute (n, a.c_str ()); if (have) x.node->attrs.erase (x.node->attrs.begin () + (long) p); }
    else { axl_node_set_attribute (n, a.c_str (), "v<"); if (!have) x.node->attrs.push_back ({ a, "v&lt;" }); }
    return;
  }
  default: { // release a detached tree
    std::vector<size_t> v; for (size_t i = 0; i < f.trees.size (); i++) if (!f.trees[i].doc) v.push_back (i);
    if (v.empty ()) return;
    size_t i = v[r.below ((uint32_t) v.size ())]; MP m = f.trees[i].m; axlNode * n = f.at (m); what = "free"; c.note ("free detached <%s>", m->name.c_str ()); f.trees.erase (f.trees.begin () + (long) i); f.drop (m);
    if (r.chance (1, 2)) axl_node_free (n); else axl_node_free_full (n, axl_true);
    return;
  }
  }
}
}

MODE (edit) {
  Forest f (c); int nd = c.rng.range (1, 2);
  for (int i = 0; i < nd; i++) {
    GenCfg g; g.maxNodes = c.rng.chance (1, 4) ? 30 : 8; g.maxDepth = 5; g.maxKids = 5; g.unicode = false; MP m = gen_tree (c.rng, g); axlDoc * d; Tree t;
    if (c.rng.chance (1, 2)) { SerCfg s; s.vary = false; Str x = serialize_doc (c.rng, *m, s).text; c.noteData ("document", x); axlError * e = nullptr; d = parse_mem (x, &e); Str em = err_take (e); CHECK (c, d, "reject-wellformed", "document rejected: %s", em.c_str ()); }
    else { d = axl_doc_create (NULL, NULL, axl_false); axl_doc_set_root (d, build_axl (c.rng, *m)); c.noteData ("built", canon (*m)); }
    f.docs.push_back (d); t.m = m; t.doc = d; f.trees.push_back (t); f.bind (m, axl_doc_get_root (d));
  }
  if (c.rng.chance (1, 2)) f.keep (f.fresh ());
  f.check_all ("building");
  int steps = c.rng.range (3, c.thorough ? 60 : 36); Str what, ops;
  for (int i = 0; i < steps; i++) {
    what = ""; step (f, what); if (what.empty ()) continue;
    c.count ("edits"); c.count (fmt ("op.%s", what.c_str ()).c_str ()); ops += what[0];
    f.check_all (what.c_str ());
    if (!f.trees.empty ()) { size_t k = f.pick (); if (f.trees[k].m) c.state ("tree_states", hash_str (canon (*f.trees[k].m))); }
  }
  // the edited documents can still be written and read
  for (auto & t : f.trees) if (t.doc && t.m) {
    char * o = nullptr; int sz = 0; CHECK (c, axl_node_dump (f.at (t.m), &o, &sz) && o && (int) strlen (o) == sz, "dump", "the edited tree cannot be dumped"); axl_free (o); c.count ("dumped");
  }
  c.count ("histories"); c.distinct (hash_str (c.trace)); if (c.index < 3) c.sample (c.trace);
  f.finish ();
}

// --- attributes of one node as a map
MODE (attrs) {
  std::vector<std::pair<Str, Str>> m; axlNode * n; DocHold d; bool parsed = c.rng.chance (1, 3); Rng & r = c.rng; int pool = r.chance (1, 3) ? 25 : 14;
  auto nm = [&] { static const char * odd[] = { "id", "xml:lang", "x", "class", "n.a-me", "A", "a" }; return r.chance (1, 6) ? Str (odd[r.below (7)]) : fmt ("k%d", r.range (0, pool)); };
  auto find = [&] (const Str & k) { for (size_t i = 0; i < m.size (); i++) if (m[i].first == k) return (int) i; return -1; };
  GenCfg g; g.unicode = r.chance (1, 2);
  if (parsed) {
    int k = r.chance (1, 2) ? r.range (8, 14) : r.range (0, 6); Str t = "<n"; for (int i = 0; i < k; i++) { Str a = nm (); if (find (a) >= 0) continue; Str v = r.chance (1, 8) ? Str () : gen_text (r, g, 12, true); v.erase (std::remove_if (v.begin (), v.end (), [] (char x) { return x == '"' || x == '<'; }), v.end ()); m.push_back ({ a, v }); t += " " + a + "=\"" + v + "\""; }
    t += "/>"; c.noteData ("document", t); axlError * e = nullptr; d.d = parse_mem (t, &e); Str em = err_take (e); CHECK (c, d.d, "reject-wellformed", "document rejected: %s", em.c_str ()); n = axl_doc_get_root (d.d);
  } else n = axl_node_create ("n");
  std::vector<std::pair<axlNode *, std::vector<std::pair<Str, Str>>>> copies;
  auto observe = [&] (axlNode * x, const std::vector<std::pair<Str, Str>> & mm, const char * w) {
    CHECK (c, axl_node_num_attributes (x) == (int) mm.size (), "attr-count", "after %s: %d attributes reported, %zu set", w, axl_node_num_attributes (x), mm.size ());
    CHECK (c, !axl_node_has_attributes (x) == mm.empty (), "attr-count", "after %s: has_attributes is wrong", w);
    std::vector<std::pair<Str, Str>> want = mm, got; std::sort (want.begin (), want.end ());
    axlAttrCursor * cu = axl_node_attr_cursor_new (x); axl_node_attr_cursor_first (cu); size_t left = 0;
    while (axl_node_attr_cursor_has_item (cu)) {
      const char * k = axl_node_attr_cursor_get_key (cu), * v = axl_node_attr_cursor_get_value (cu); got.push_back ({ k ? k : "(null)", v ? v : "(null)" });
      left++; CHECK (c, !!axl_node_attr_cursor_has_next (cu) == (left < mm.size ()), "attr-cursor", "after %s: has_next is wrong at item %zu of %zu", w, left, mm.size ());
      CHECK (c, left <= mm.size (), "attr-cursor", "after %s: the cursor gives more than %zu items", w, mm.size ());
      axl_node_attr_cursor_next (cu);
    }
    axl_node_attr_cursor_free (cu); std::sort (got.begin (), got.end ());
    CHECK (c, got == want, "attr-cursor", "after %s: the cursor shows other attributes (%zu of %zu)", w, got.size (), want.size ());
    struct FE { std::vector<std::pair<Str, Str>> v; size_t stop; } fe; fe.stop = r.chance (1, 3) && mm.size () ? 1 + r.below ((uint32_t) mm.size ()) : 1u << 30;
    int tag = 0; std::pair<FE *, int *> pp (&fe, &tag); (void) pp;
    axl_node_attr_foreach (x, [] (const char * k, const char * v, axlPointer a, axlPointer b) -> axl_bool { FE * q = (FE *) a; ++*(int *) b; q->v.push_back ({ k, v }); return q->v.size () >= q->stop; }, &fe, &tag);
    CHECK (c, fe.v.size () == std::min (fe.stop, mm.size ()) && tag == (int) fe.v.size (), "attr-foreach", "after %s: foreach visited %zu of %zu, stop at %zu", w, fe.v.size (), mm.size (), fe.stop);
    std::sort (fe.v.begin (), fe.v.end ()); CHECK (c, std::includes (want.begin (), want.end (), fe.v.begin (), fe.v.end ()), "attr-foreach", "after %s: foreach visited something that is not there", w);
    c.count ("maps_compared");
  };
  int steps = r.range (6, c.thorough ? 90 : 50); bool grow = true; size_t peak = 0, crossings = 0; size_t before = m.size ();
  for (int i = 0; i < steps; i++) {
    if (r.chance (1, 12)) grow = !grow;
    Str k = nm (); int p = find (k); Str w;
    switch (r.below (8)) {
    case 0: case 1: case 2: case 3:
      if (grow != r.chance (1, 6)) {
        Str v = r.chance (1, 10) ? Str () : gen_text (r, g, r.chance (1, 20) ? 200 : 10, true); w = "set"; c.note ("set %s=%s", k.c_str (), vis (v).c_str ());
        if (r.chance (1, 2)) { axl_node_set_attribute (n, k.c_str (), v.c_str ()); if (p < 0) m.push_back ({ k, escape_defaults (v) }); }
        else { axl_node_set_attribute_ref (n, axl_strdup (k.c_str ()), axl_strdup (v.c_str ())); if (p < 0) m.push_back ({ k, v }); }
      } else {
        if (r.chance (1, 2) && !m.empty ()) { p = (int) r.below ((uint32_t) m.size ()); k = m[(size_t) p].first; }
        w = "remove"; c.note ("remove %s", k.c_str ()); axl_node_remove_attribute (n, k.c_str ()); if (p >= 0) m.erase (m.begin () + p);
      }
      break;
    case 4: { w = "get"; const char * v = axl_node_get_attribute_value (n, k.c_str ()); CHECK (c, !!v == (p >= 0) && (!v || m[(size_t) p].second == v), "attr-value", "%s: expected %s, found %s", k.c_str (), p >= 0 ? vis (m[(size_t) p].second).c_str () : "nothing", vis (v).c_str ());
      CHECK (c, !!axl_node_has_attribute (n, k.c_str ()) == (p >= 0), "attr-has", "%s: presence is wrong", k.c_str ());
      if (p >= 0) { CHECK (c, axl_node_has_attribute_value (n, k.c_str (), m[(size_t) p].second.c_str ()) && !axl_node_has_attribute_value (n, k.c_str (), (m[(size_t) p].second + "x").c_str ()), "attr-value", "%s: value test is wrong", k.c_str ());
        char * cp = axl_node_get_attribute_value_copy (n, k.c_str ()); CHECK (c, cp && m[(size_t) p].second == cp && cp != v, "attr-value", "copy of %s is wrong", k.c_str ()); axl_free (cp);
        char * tr = axl_node_get_attribute_value_trans (n, k.c_str ()); Str want = m[(size_t) p].second; { static const char * en[] = { "&apos;", "&quot;", "&amp;", "&gt;", "&lt;" }; static const char ch[] = "'\"&><"; Str o; for (size_t q = 0; q < want.size ();) { bool hit = false; for (int z = 0; z < 5 && !hit; z++) if (want.compare (q, strlen (en[z]), en[z]) == 0) { o += ch[z]; q += strlen (en[z]); hit = true; } if (!hit) o += want[q++]; } want = o; }
        CHECK (c, tr && want == tr, "attr-trans", "translated value of %s: expected %s, found %s", k.c_str (), vis (want).c_str (), vis (tr).c_str ()); axl_free (tr); }
      else { CHECK (c, !axl_node_get_attribute_value_copy (n, k.c_str ()) && !axl_node_get_attribute_value_trans (n, k.c_str ()), "attr-value", "a value for the missing attribute %s", k.c_str ()); CHECK (c, !axl_node_has_attribute_value (n, k.c_str (), "zz"), "attr-value", "value test passes for the missing %s", k.c_str ()); }
      c.count ("values_read"); break; }
    case 5: if (p >= 0 && r.chance (1, 2)) { w = "trim"; const char * v = axl_node_get_attribute_value_trimmed (n, k.c_str ()); m[(size_t) p].second = trim_ws (m[(size_t) p].second); CHECK (c, v && m[(size_t) p].second == v, "attr-trim", "trimmed %s: expected %s, found %s", k.c_str (), vis (m[(size_t) p].second).c_str (), vis (v).c_str ()); } break;
    case 6: if (r.chance (1, 4)) { w = "copy"; axlNode * cp = axl_node_copy (n, axl_true, axl_false); copies.push_back ({ cp, m }); CHECK (c, axl_node_are_equal (n, cp) && axl_node_are_equal (cp, n), "copy-equal", "a node and its copy are reported different"); c.count ("copies"); } break;
    default: if (!copies.empty () && r.chance (1, 2)) { // the copy is changed, the original is not
        auto & q = copies[r.below ((uint32_t) copies.size ())]; w = "edit copy"; bool have = false; size_t at = 0; for (size_t z = 0; z < q.second.size (); z++) if (q.second[z].first == k) { have = true; at = z; }
        if (r.chance (1, 2)) { axl_node_remove_attribute (q.first, k.c_str ()); if (have) q.second.erase (q.second.begin () + (long) at); } else { axl_node_set_attribute (q.first, k.c_str (), "new"); if (!have) q.second.push_back ({ k, "new" }); }
        auto s1 = q.second, s2 = m; std::sort (s1.begin (), s1.end ()); std::sort (s2.begin (), s2.end ());
        CHECK (c, !!axl_node_are_equal (n, q.first) == (s1 == s2), "attr-equal", "nodes with %zu and %zu attributes: equality reported %d", m.size (), q.second.size (), (int) axl_node_are_equal (n, q.first)); c.count ("equality_checks"); }
    }
    if (w.empty ()) continue;
    observe (n, m, w.c_str ()); for (auto & q : copies) observe (q.first, q.second, "an edit elsewhere");
    peak = std::max (peak, m.size ()); if ((before > 10) != (m.size () > 10)) { crossings++; c.count ("table_crossings"); }
    before = m.size (); c.count ("attr_ops"); { Str st; for (auto & a : m) st += a.first + ","; c.state ("attribute_sets", hash_str (st)); }
  }
  for (auto & q : copies) axl_node_free (q.first);
  if (!parsed) axl_node_free (n);
  c.maxi ("attributes", peak); c.count ("histories"); c.distinct (hash_str (c.trace)); if (c.index < 3) c.sample (c.trace);
}
