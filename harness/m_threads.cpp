// Threads: the workloads of the other files run at the same time on separate objects, and read-only calls on shared ones.
#include "model.hpp"
#include <atomic>
#include <pthread.h>
#include <sched.h>
#include <sys/stat.h>
#include <unistd.h>

namespace {
struct Worker {
  Ctx c; std::function<void (Worker &)> body; bool failed = false; Failure why; std::atomic<int> * gate = nullptr; int yields = 0; uint64_t steps = 0; pthread_t t;
};
static void * enter (void * p) {
  Worker & w = *(Worker *) p; t_quiet = true; g_read = ReadPlan ();
  while (w.gate->load (std::memory_order_relaxed) == 0) sched_yield ();
  for (int i = 0; i < w.yields; i++) sched_yield ();
  try { w.body (w); } catch (Failure & f) { w.failed = true; w.why = f; }
  g_read = ReadPlan (); return nullptr;
}
// the gate is relaxed: it orders nothing between the threads
static void run (Ctx & c, std::vector<std::unique_ptr<Worker>> & v) {
  std::atomic<int> gate (0); for (size_t i = 0; i < v.size (); i++) { v[i]->gate = &gate; if (pthread_create (&v[i]->t, nullptr, enter, v[i].get ())) { fprintf (stderr, "VHERROR no thread\n"); _exit (9); } }
  gate.store (1, std::memory_order_relaxed); for (auto & w : v) pthread_join (w->t, nullptr);
  for (size_t i = 0; i < v.size (); i++) { c.count ("thread_steps", v[i]->steps); c.count ("threads"); }
  for (size_t i = 0; i < v.size (); i++) if (v[i]->failed) { if (c.verbose) fprintf (stderr, "thread %d:\n%s\n", (int) i, v[i]->c.trace.c_str ()); c.fail (v[i]->why.key.c_str (), "thread %d of %d: %s", (int) i, (int) v.size (), v[i]->why.msg.c_str ()); }
}
static std::unique_ptr<Worker> worker (Ctx & c, int i) {
  std::unique_ptr<Worker> w (new Worker); w->c.rng = Rng (c.rng.u64 ()); w->c.scratch = c.path (fmt ("t%d", i).c_str ()); mkdir (w->c.scratch.c_str (), 0700); w->c.index = c.index; w->yields = (int) c.rng.below (4); return w;
}
}

MODE (threads) {
  static const std::vector<const char *> plain = { "parse", "xmlspace", "malformed", "filemem", "dump", "escape", "edit", "attrs", "query", "copyeq", "annot", "pis", "hash", "list", "stack", "strings", "tokens", "dtd", "dtdattr", "dtdinfo", "fuzzdtd", "ns", "pool" };
  static const std::vector<const char *> coded = { "babel", "babel", "utf8gate", "utf8func", "fuzzbabel", "dtd", "edit" };
  Rng & r = c.rng; bool on = r.chance (1, 4); int n = r.range (2, 5); bool same = r.chance (1, 2); std::vector<const char *> mine; for (int i = r.range (1, 3); i > 0; i--) mine.push_back (r.pick (on ? coded : plain));
  if (on) axl_babel_init (NULL); std::vector<std::unique_ptr<Worker>> v; int steps = r.range (1, 4); Str names;
  for (int i = 0; i < n; i++) {
    auto w = worker (c, i); std::vector<CaseFn> todo; for (int k = 0; k < steps; k++) { const char * m = same ? r.pick (mine) : r.pick (on ? coded : plain); names += Str (m) + " "; c.state ("workloads", hash_str (m)); CaseFn f = vh_find (m); if (!f) { fprintf (stderr, "VHERROR no mode %s\n", m); _exit (9); } todo.push_back (f); } names += "| ";
    w->body = [todo] (Worker & w) { for (auto f : todo) { f (w.c); w.c.trace.clear (); w.steps++; } }; v.push_back (std::move (w));
  }
  c.note ("%s: %s", on ? "extension on" : "extension off", names.c_str ()); c.state ("mixes", hash_str (names)); c.distinct (names);
  try { run (c, v); } catch (Failure &) { if (on) axl_babel_finish (); throw; }
  if (on) { axl_babel_finish (); c.count ("with_extension"); } for (auto & w : v) rmdir (w->c.scratch.c_str ()); c.count ("rounds");
}

namespace {
static axl_bool collect_names (axlNode * n, axlNode *, axlDoc *, axl_bool *, axlPointer p) { *(Str *) p += Str (axl_node_get_name (n)) + ","; return axl_true; }
static axl_bool add_pair (axlPointer k, axlPointer v, axlPointer u) { *(Str *) u += Str ((char *) k) + "=" + Str ((char *) v) + ";"; return axl_false; }
static axl_bool add_attr (const char * k, const char * v, axlPointer u, axlPointer) { *(Str *) u += Str (k) + "=" + v + ";"; return axl_false; }
static Str take (char * s, int n) { Str r (s ? Str (s, (size_t) n) : Str ("?")); axl_free (s); return r; }
static axl_bool same_string (axlPointer e, axlPointer d) { return !strcmp ((char *) e, (char *) d); }
struct Shared { axlDoc * doc; axlHash * hash; axlList * list; axlDtd * dtd; std::vector<Str> names, paths, keys; };
// answers of read-only calls, in text
static Str ask (const Shared & s, int what, Rng r) {
  axlNode * root = axl_doc_get_root (s.doc); Str o; std::vector<axlNode *> all; std::function<void (axlNode *)> walk = [&] (axlNode * n) { all.push_back (n); for (axlNode * k = axl_node_get_first_child (n); k; k = axl_node_get_next (k)) walk (k); }; walk (root);
  switch (what) {
  case 0: return canon_axl (root);
  case 1: { char * t = NULL; int n = 0; axl_doc_dump (s.doc, &t, &n); return take (t, n) + fmt ("%d", axl_doc_get_flat_size (s.doc)); }
  case 2: { char * t = NULL; int n = 0; axl_doc_dump_pretty (s.doc, &t, &n, r.range (1, 8)); return take (t, n); }
  case 3: for (auto & p : s.paths) { axlNode * n = axl_doc_get (s.doc, p.c_str ()); o += n ? axl_node_get_name (n) : "-"; int z = 0; const char * t = axl_doc_get_content_at (s.doc, p.c_str (), &z); o += fmt ("%d", z) + (t ? t : "~"); } return o;
  case 4: for (auto n : all) { int z = 0; const char * t = axl_node_get_content (n, &z); o += fmt ("%d:", z) + (t ? t : "~"); o += axl_node_is_empty (n) ? "e" : "f"; o += axl_node_have_childs (n) ? "c" : "l"; } return o;
  case 5: for (auto n : all) { int z = 0; char * t = axl_node_get_content_copy (n, &z); o += take (t, z); t = axl_node_get_content_trans (n, &z); o += t ? t : "~"; axl_free (t); } return o;
  case 6: for (auto n : all) { axl_node_attr_foreach (n, add_attr, &o, NULL); o += fmt ("%d", axl_node_num_attributes (n)); for (auto & k : s.names) { o += axl_node_has_attribute (n, k.c_str ()) ? "y" : "n"; const char * t = axl_node_get_attribute_value (n, k.c_str ()); o += t ? t : "~"; char * u = axl_node_get_attribute_value_trans (n, k.c_str ()); o += u ? u : "~"; axl_free (u); } } return o;
  case 7: for (auto n : all) for (auto & k : s.names) { axlNode * x = axl_node_find_called (n, k.c_str ()); o += x ? axl_node_get_name (x) : "-"; x = axl_node_get_child_called (n, k.c_str ()); o += x ? fmt ("%d", axl_node_get_child_num (x)) : "-"; x = axl_node_get_next_called (n, k.c_str ()); o += x ? "n" : "-"; x = axl_node_get_child_nth (n, 1); o += x ? axl_node_get_name (x) : "-"; } return o;
  case 8: axl_doc_iterate (s.doc, r.chance (1, 2) ? DEEP_ITERATION : WIDE_ITERATION, collect_names, &o); return o;
  case 9: { axlNode * c = axl_node_copy (root, axl_true, axl_true); o = canon_axl (c) + (axl_node_are_equal (root, c) ? "=" : "#"); axl_node_free (c); return o; }
  case 10: for (auto n : all) { const char * t = axl_node_annotate_get_string (n, "note", axl_true); o += t ? t : "~"; o += fmt ("%d", axl_node_annotate_get_int (n, "num", axl_true)); } return o;
  case 11: for (auto n : all) { for (auto & k : s.names) { o += axl_node_has_pi_target (n, (char *) k.c_str ()) ? "y" : "n"; const char * t = axl_node_get_pi_target_content (n, (char *) k.c_str ()); o += t ? t : "~"; } axlList * l = axl_node_get_childs (n); o += fmt ("%d", axl_list_length (l)); axl_list_free (l); } o += axl_doc_get_encoding (s.doc); return o;
  case 12: { for (auto & k : s.keys) { const char * t = (const char *) axl_hash_get (s.hash, (axlPointer) k.c_str ()); o += t ? t : "~"; o += axl_hash_exists (s.hash, (axlPointer) k.c_str ()) ? "y" : "n"; } Str f; axl_hash_foreach (s.hash, add_pair, &f); o += f; axlHashCursor * c = axl_hash_cursor_new (s.hash); for (axl_hash_cursor_first (c); axl_hash_cursor_has_item (c); axl_hash_cursor_next (c)) o += (char *) axl_hash_cursor_get_key (c); axl_hash_cursor_free (c); o += fmt ("%d", axl_hash_items (s.hash)); return o; }
  case 13: { for (int i = 0; i < axl_list_length (s.list); i++) o += (char *) axl_list_get_nth (s.list, i); axlListCursor * c = axl_list_cursor_new (s.list); for (axl_list_cursor_first (c); axl_list_cursor_has_item (c); axl_list_cursor_next (c)) o += (char *) axl_list_cursor_get (c); axl_list_cursor_free (c); for (auto & k : s.keys) { char * t = (char *) axl_list_lookup (s.list, same_string, (axlPointer) k.c_str ()); o += t ? t : "~"; o += axl_list_exists (s.list, (axlPointer) k.c_str ()) ? "y" : "n"; } o += axl_list_length (s.list) ? (char *) axl_list_get_last (s.list) : "~"; return o; }
  default: { axlError * e = nullptr; bool ok = axl_dtd_validate (s.doc, s.dtd, &e); o = ok ? "valid" : "invalid"; if (e) { o += fmt ("%d", axl_error_get_code (e)); axl_error_free (e); } axlDtdElement * d = axl_dtd_get_root (s.dtd); o += d ? axl_dtd_get_element_name (d) : "-"; for (auto & k : s.names) { o += axl_dtd_get_element (s.dtd, k.c_str ()) ? "y" : "n"; o += axl_dtd_get_attr (s.dtd, k.c_str ()) ? "a" : "-"; } return o; }
  }
}
static const int ASKS = 15;
}

// threads only read one document, hash, list and DTD; the answers are those a twin gives to one thread
MODE (shared) {
  Rng & r = c.rng; GenCfg g; g.maxNodes = r.range (3, 25); MP m = gen_tree (r, g); SerCfg ser; Str x = serialize_doc (r, *m, ser).text; c.noteData ("document", x); std::vector<MNode *> v; collect (*m, v);
  Shared s[2]; Str dtd; std::set<Str> el; for (auto n : v) if (el.insert (n->name).second) { dtd += "<!ELEMENT " + n->name + " ANY>\n"; if (r.chance (1, 2)) dtd += "<!ATTLIST " + n->name + " id ID #IMPLIED k CDATA #IMPLIED>\n"; } if (r.chance (1, 3)) dtd = "<!ELEMENT " + m->name + " (zz.extra?)>\n<!ELEMENT zz.extra EMPTY>\n";
  std::vector<Str> names, paths, keys; for (int i = 0; i < 4; i++) { MNode * n = r.pick (v); names.push_back (n->name); if (!n->attrs.empty ()) names.push_back (n->attrs[r.below ((uint32_t) n->attrs.size ())].first); } names.push_back ("nothere");
  { Str p = "/" + m->name; MNode * n = m.get (); paths.push_back (p); for (int i = 0; i < 4; i++) { MNode * k = nullptr; for (auto & it : n->items) if (it.k == K_ELEM && (!k || r.chance (1, 2))) k = it.node.get (); if (!k) break; p += "/" + k->name; paths.push_back (p); n = k; } paths.push_back ("/" + m->name + "/nothere"); }
  for (int i = r.range (1, 12); i > 0; i--) keys.push_back (fmt ("key%d", (int) r.below (30)));
  for (auto & t : s) {
    axlError * e = nullptr; t.doc = parse_mem (x, &e); Str em = err_take (e); CHECK (c, t.doc, "setup", "rejected: %s", em.c_str ()); t.names = names; t.paths = paths; t.keys = keys; t.hash = axl_hash_new (axl_hash_string, axl_hash_equal_string); t.list = axl_list_new (axl_list_equal_string, NULL); for (size_t i = 0; i < keys.size (); i += 2) { axl_hash_insert (t.hash, (axlPointer) keys[i].c_str (), (axlPointer) keys[keys.size () - 1 - i].c_str ()); axl_list_append (t.list, (axlPointer) keys[i].c_str ()); }
    t.dtd = axl_dtd_parse (dtd.c_str (), (int) dtd.size (), &e); em = err_take (e); CHECK (c, t.dtd, "setup", "DTD rejected: %s", em.c_str ());
    axlNode * n = axl_doc_get_root (t.doc); axl_node_annotate_string (n, "note", "a note"); axl_node_annotate_int (n, "num", 42); if ((n = axl_node_get_first_child (n))) axl_node_annotate_string (n, "note", "another");
  }
  std::vector<int> mine; for (int i = 0; i < ASKS; i++) if (r.chance (1, 2)) mine.push_back (i); if (mine.empty ()) mine.push_back ((int) r.below (ASKS)); int n = r.range (2, 5), rounds = r.range (1, 3); std::vector<std::unique_ptr<Worker>> w; std::vector<Rng> seeds; std::vector<Str> want; for (int q : mine) { seeds.push_back (Rng (r.u64 ())); want.push_back (ask (s[1], q, seeds.back ())); c.state ("questions", (uint64_t) q); }
  bool tree = r.chance (1, 3); for (int i = 0; i < n; i++) { auto k = worker (c, i); std::vector<size_t> order; for (size_t j = 0; j < mine.size (); j++) order.push_back (j); for (size_t j = order.size (); j > 1; j--) std::swap (order[j - 1], order[r.below ((uint32_t) j)]); Shared * sh = &s[0]; k->body = [=, &want, &seeds, &m] (Worker & q) { for (int z = 0; z < rounds; z++) { for (size_t j : order) { Str a = ask (*sh, mine[j], seeds[j]); if (a != want[j]) q.c.fail ("shared-answer", "question %d: %s instead of %s", mine[j], vis (a, 300).c_str (), vis (want[j], 300).c_str ()); q.steps++; } if (tree) check_tree (q.c, *m, axl_doc_get_root (sh->doc), "shared-tree"); } }; w.push_back (std::move (k)); }
  run (c, w); Str after = canon_axl (axl_doc_get_root (s[0].doc)); CHECK (c, after == canon_axl (axl_doc_get_root (s[1].doc)), "shared-changed", "reading changed the document");
  for (auto & k : w) rmdir (k->c.scratch.c_str ()); for (auto & t : s) { axl_doc_free (t.doc); axl_hash_free (t.hash); axl_list_free (t.list); axl_dtd_free (t.dtd); } c.count ("rounds"); c.distinct (x);
}
