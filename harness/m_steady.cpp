// Repeating work that ends where it began: the memory in use has to stay where it is.
#include "model.hpp"
extern "C" size_t __sanitizer_get_current_allocated_bytes (void) __attribute__ ((weak));

namespace {
struct Steady {
  Ctx & c;
  // calls the cycle again and again, and looks at the bytes in use after 10, 20, 40 and 80 cycles
  void run (const char * what, const std::function<void (Rng &)> & cycle) {
    Rng seed = c.rng; c.rng.u64 (); size_t at[4]; int n = 0, k = 0;
    for (int mark : { 10, 20, 40, 80 }) {
      for (; n < mark; n++) { Rng r = seed; cycle (r); }
      at[k++] = __sanitizer_get_current_allocated_bytes ();
    }
    c.count ("cycles", 80); c.count (what);
    c.note ("%s: %zu, %zu, %zu, %zu bytes in use", what, at[0], at[1], at[2], at[3]);
    long a = (long) (at[2] - at[1]), b = (long) (at[3] - at[2]);
    if (a >= 20 && b >= 40 && b >= a + a / 2) c.fail ("growth", "%s: memory in use after 10, 20, 40 and 80 times: %zu, %zu, %zu, %zu bytes", what, at[0], at[1], at[2], at[3]);
  }
};
static void gone (axlPointer p) { free (p); }
static int up (axlPointer a, axlPointer b) { return strcmp ((char *) a, (char *) b) == 0 ? 0 : strcmp ((char *) a, (char *) b) > 0 ? -1 : 1; }
static char * text (Rng & r) { char b[20]; snprintf (b, sizeof b, "k%u", r.below (200)); return strdup (b); }
static axl_bool stop_no (axlPointer, axlPointer, axlPointer) { return axl_false; }
static void hash_cycle (axlHash * h, Rng & r, int n, bool all) {
  std::vector<Str> in;
  for (int i = 0; i < n; i++) { char * k = text (r); in.push_back (k); axl_hash_insert_full (h, k, gone, strdup ("value"), gone); }
  if (r.chance (1, 3)) { axlHash * h2 = axl_hash_copy (h, (axlHashItemCopy) NULL, (axlHashItemCopy) NULL); if (h2) axl_hash_free (h2); }
  if (r.chance (1, 3)) axl_hash_foreach (h, stop_no, NULL);
  if (r.chance (1, 2)) for (size_t i = in.size (); i > 1; i--) std::swap (in[i - 1], in[r.below ((uint32_t) i)]);
  if (all && r.chance (1, 4)) { axlHashCursor * cu = axl_hash_cursor_new (h); while (axl_hash_cursor_has_item (cu)) axl_hash_cursor_remove (cu); axl_hash_cursor_free (cu); }
  for (auto & k : in) switch (r.below (3)) {
    case 0: { axlPointer ko = nullptr, d = nullptr; axlDestroyFunc kf = nullptr, df = nullptr; if (axl_hash_remove_deferred (h, (axlPointer) k.c_str (), &ko, &kf, &d, &df)) axl_hash_deferred_cleanup (ko, kf, d, df); break; }
    default: axl_hash_remove (h, (axlPointer) k.c_str ()); }
}
static void list_cycle (axlList * l, Rng & r, int n, bool sorted) {
  for (int i = 0; i < n; i++) { char * k = text (r); if (sorted) { if (axl_list_exists (l, k)) free (k); else axl_list_add (l, k); } else if (r.chance (1, 2)) axl_list_append (l, k); else axl_list_prepend (l, k); }
  if (r.chance (1, 3)) { axlListCursor * cu = axl_list_cursor_new (l); while (axl_list_cursor_has_item (cu)) if (r.chance (1, 3)) axl_list_cursor_remove (cu); else axl_list_cursor_next (cu); axl_list_cursor_free (cu); }
  unsigned how = r.below (4);
  while (axl_list_length (l)) switch (how) { case 0: axl_list_remove_first (l); break; case 1: axl_list_remove_last (l); break; case 2: axl_list_remove_ptr (l, axl_list_get_nth (l, axl_list_length (l) / 2)); break; default: { axlPointer p = axl_list_get_first (l); axl_list_unlink_first (l); free (p); } }
}
// changes on a node that are taken back. The pieces of a document come from pools that are given back with the
// document, so only trees without one are asked to give back each removed node.
static void edit_cycle (Ctx & c, axlDoc * doc, std::vector<axlNode *> & v, Rng & r, int n) {
  for (int k = 0; k < n; k++) {
    axlNode * x = r.pick (v);
    switch (doc ? r.range (0, 6) : r.range (0, 8)) {
      case 0: case 1: { int m = r.chance (1, 3) ? r.range (9, 14) : r.range (1, 4); for (int i = 0; i < m; i++) { Str a = fmt ("zz%d", i); axl_node_set_attribute (x, a.c_str (), "a value"); if (r.chance (1, 3)) axl_node_set_attribute (x, a.c_str (), "another value & more"); }
        for (int i = m; i-- > 0;) axl_node_remove_attribute (x, fmt ("zz%d", i).c_str ()); break; }
      case 7: case 8: { axlNode * y = axl_node_create ("zz"); axl_node_set_attribute (y, "a", "b"); axl_node_set_child (x, y); axlNode * z = axl_node_parse (NULL, "<zz><zz a='b'>text<!-- c --><?pi x?></zz><zz/></zz>"); axl_node_set_child_after (y, z);
        axl_node_set_content (y, "some text <", -1); axl_node_set_cdata_content (y, "data", -1); axl_node_set_comment (y, "comment", -1); axl_node_set_is_empty (y, axl_true);
        axlNode * w = axl_node_copy (z, axl_true, axl_true); axl_node_replace (y, w, axl_true); axl_node_deattach (w); axl_node_set_child (z, w); axl_node_transfer_childs (w, x); axl_node_remove (z, axl_true);
        for (axlNode * q = axl_node_get_child_called (x, "zz"); q; q = axl_node_get_child_called (x, "zz")) axl_node_remove (q, axl_true); break; }
      case 2: { axl_node_annotate_int (x, "zz number", 7); axl_node_annotate_string (x, "zz text", "some text"); axl_node_annotate_double (x, "zz double", 7.5); axl_node_annotate_data_full (x, strdup ("zz own"), free, strdup ("data"), free); (void) axl_node_annotate_get_int (x, "zz number", axl_false); break; }
      case 3: { char * s = axl_node_get_content_trans (x, NULL); if (s) axl_free (s); s = axl_node_get_content_copy (x, NULL); if (s) axl_free (s); s = axl_node_get_attribute_value_trans (x, "id"); if (s) axl_free (s); axlList * l = axl_node_get_childs (x); if (l) axl_list_free (l); break; }
      case 4: { Str name = axl_node_get_name (x); axl_node_set_name (x, "other-name"); axl_node_set_name (x, name.c_str ()); break; }
      case 5: { axlItem * i = axl_item_get_first_child (x); if (!i || axl_item_get_type (i) == ITEM_NODE) break; axlItem * j = axl_item_copy (i, x); if (j) axl_item_free (j, axl_true); break; }
      default: { axlDoc * d2 = axl_doc_create (NULL, NULL, axl_false); axlNode * y = axl_node_copy (x, axl_true, axl_true); axl_doc_set_root (d2, y); if (doc) (void) axl_doc_are_equal (doc, d2); char * s = nullptr; int z = 0; if (axl_doc_dump (d2, &s, &z)) axl_free (s); axl_doc_free (d2); } }
  }
  (void) c;
}
}

MODE (steady) {
  if (!__sanitizer_get_current_allocated_bytes) { c.fail ("setup", "no count of the bytes in use"); }
  Rng & r = c.rng; Steady s { c }; int n = r.chance (1, 5) ? r.range (100, 300) : r.range (1, 60);
  switch (r.below (8)) {
  case 0: { axlHash * h = r.chance (1, 2) ? axl_hash_new_full (axl_hash_string, axl_hash_equal_string, r.range (1, 40)) : axl_hash_new (axl_hash_string, axl_hash_equal_string); int keep = r.range (0, 20); for (int i = 0; i < keep; i++) axl_hash_insert_full (h, strdup (fmt ("kept%d", i).c_str ()), gone, strdup ("x"), gone);
    s.run ("hash", [&] (Rng & q) { hash_cycle (h, q, n, !keep); }); CHECK (c, axl_hash_items (h) == keep, "state", "%d entries left, not %d", axl_hash_items (h), keep); axl_hash_free (h); break; }
  case 1: { bool sorted = r.chance (1, 2); axlList * l = axl_list_new (sorted ? up : axl_list_always_return_1, gone); if (r.chance (1, 3)) for (int i = 0; i < n * 2; i++) { list_cycle (l, r, 1, sorted); } s.run ("list", [&] (Rng & q) { list_cycle (l, q, n, sorted); }); axl_list_free (l); break; }
  case 2: { axlStack * k = axl_stack_new (gone); s.run ("stack", [&] (Rng & q) { for (int i = 0; i < n; i++) axl_stack_push (k, text (q)); while (!axl_stack_is_empty (k)) { axlPointer p = axl_stack_pop (k); free (p); } }); axl_stack_free (k); break; }
  case 3: { axlFactory * f = axl_factory_create (8 * r.range (1, 20)); std::vector<axlPointer> kept; for (int i = r.range (0, 50); i > 0; i--) kept.push_back (axl_factory_get (f));
    s.run ("pool", [&] (Rng & q) { std::vector<axlPointer> v; for (int i = 0; i < n; i++) { v.push_back (axl_factory_get (f)); if (q.chance (1, 3)) { size_t k = q.below ((uint32_t) v.size ()); axl_factory_release_spare (f, v[k]); v.erase (v.begin () + (long) k); } } for (auto x : v) axl_factory_release_spare (f, x); }); axl_factory_free (f); break; }
  case 4: case 5: case 6: { GenCfg g; g.maxNodes = 15; MP m = gen_tree (r, g); axlDoc * d; if (r.chance (2, 3)) { Str t = serialize_doc (r, *m, SerCfg ()).text; c.noteData ("document", t); axlError * e = nullptr; d = parse_mem (t, &e); err_take (e); } else { d = axl_doc_create (NULL, NULL, axl_false); axl_doc_set_root (d, build_axl (r, *m)); }
    CHECK (c, d, "setup", "document rejected"); DocHold h (d); std::vector<axlNode *> v; std::function<void (axlNode *)> w = [&] (axlNode * x) { v.push_back (x); for (axlNode * y = axl_node_get_first_child (x); y; y = axl_node_get_next (y)) w (y); }; w (axl_doc_get_root (d));
    if (r.chance (1, 3)) { axlNode * root = axl_node_copy (axl_doc_get_root (d), axl_true, axl_true); v.clear (); w (root); int k = r.range (1, 6); s.run ("tree", [&] (Rng & q) { edit_cycle (c, NULL, v, q, k); }); axl_node_free (root); break; }
    if (r.chance (1, 2)) { int k = r.range (1, 6); edit_cycle (c, d, v, r, 1); s.run ("edits", [&] (Rng & q) { edit_cycle (c, d, v, q, k); }); break; }
    axlDtd * dtd = axl_dtd_parse ("<!ELEMENT zz (#PCDATA)> <!ATTLIST zz id ID #IMPLIED>", -1, NULL);
    s.run ("questions", [&] (Rng & q) { char * o = nullptr; int z = 0; axlError * e = nullptr;
      if (axl_doc_dump_pretty (d, &o, &z, 2)) axl_free (o); axlList * l = axl_doc_get_list (d, "//*"); if (l) axl_list_free (l); (void) axl_doc_get (d, "/a/b"); if (!axl_ns_doc_validate (d, &e)) { if (e) axl_error_free (e); } e = nullptr; if (!axl_dtd_validate (d, dtd, &e)) { if (e) axl_error_free (e); }
      (void) axl_doc_are_equal (d, d); l = axl_doc_get_pi_target_list (d); (void) l; axlAttrCursor * cu = axl_node_attr_cursor_new (q.pick (v)); while (axl_node_attr_cursor_has_item (cu)) axl_node_attr_cursor_next (cu); axl_node_attr_cursor_free (cu); });
    axl_dtd_free (dtd); break; }
  default: { GenCfg g; g.maxNodes = 10; MP m = gen_tree (r, g); Str t = serialize_doc (r, *m, SerCfg ()).text, bad = t.substr (0, r.below ((uint32_t) t.size ())); Str f = c.path ("steady.xml"); write_file (f, t); bool on = r.chance (1, 2);
    s.run ("readings", [&] (Rng & q) { axlError * e = nullptr; if (on && !axl_babel_init (&e)) axl_error_free (e);
      axlDoc * d = axl_doc_parse (t.c_str (), (int) t.size (), &e); if (d) axl_doc_free (d); if (e) axl_error_free (e); e = nullptr;
      d = axl_doc_parse (bad.c_str (), (int) bad.size (), &e); if (d) axl_doc_free (d); if (e) axl_error_free (e); e = nullptr;
      d = axl_doc_parse_from_file (f.c_str (), &e); if (d) axl_doc_free (d); if (e) axl_error_free (e); e = nullptr;
      axlDtd * x = axl_dtd_parse (q.chance (1, 2) ? "<!ELEMENT a (b|c)*>" : "<!ELEMENT a (b|c*>", -1, &e); if (x) axl_dtd_free (x); if (e) axl_error_free (e);
      char ** p = axl_stream_split ("a,b,c", 1, ","); axl_stream_freev (p); axl_init (); if (on) axl_babel_finish (); if (q.chance (1, 4)) axl_end (); });
    unlink (f.c_str ()); } }
  c.count ("cases"); c.distinct (c.trace + fmt ("%llu", (unsigned long long) c.rng.s)); if (c.index < 4) c.sample (c.trace);
}
