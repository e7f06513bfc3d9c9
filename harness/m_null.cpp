// References that are missing: every exported operation with one reference argument null, the others good.
#include "model.hpp"

namespace {
struct Fix {
  axlDoc * doc, * doc2; axlNode * node, * other; axlItem * item, * other_item; axlList * list; axlHash * hash; axlStack * stack; axlBinaryStack * bstack; axlDtd * dtd; axlStream * stream;
  axlListCursor * lcur; axlHashCursor * hcur; axlAttrCursor * acur; axlPI * pi; axlFactory * factory; axlStrFactory * strings; axlDtdElement * element; axlDtdElementList * elist; axlDtdElementListNode * enode;
  axlError * err, * error; char * out; int size; char text[8]; char file[4]; char * vec[3]; int called;
};
Fix * g_f;
Str show (int v) { return fmt ("%d", v); }
Str show (double v) { return fmt ("%g", v); }
Str show (axlPointer p) { return p ? "an object" : "null"; }
Str show (const axlPointer p, int) { return p ? "an object" : "null"; }
Str show (const char * p) { return p ? "text" : "null"; }
Str show (char * p) { return p ? "text" : "null"; }
template <class T> Str show (T * p) { return p ? "an object" : "null"; }
axl_bool nv1 (axlNode *, axlNode *, axlDoc *, axl_bool *, axlPointer) { g_f->called++; return axl_true; }
axl_bool nv2 (axlNode *, axlNode *, axlDoc *, axl_bool *, axlPointer, axlPointer) { g_f->called++; return axl_true; }
axl_bool nh1 (axlPointer, axlPointer, axlPointer) { g_f->called++; return axl_false; }
axl_bool nl (axlPointer, axlPointer) { g_f->called++; return axl_false; }
struct NullCall { const char * fn, * par; Str (*go) (Fix &); const char * expect; };
const NullCall calls[] = {
#define NULLCALL(fn, par, body, expect) { #fn, #par, [] (Fix & f) -> Str { body }, expect },
#include "null_calls.inc"
#undef NULLCALL
};
const size_t N = sizeof calls / sizeof calls[0];

// everything an operation could have changed
Str digest (Fix & f) {
  Str s; for (axlDoc * d : { f.doc, f.doc2 }) { s += canon_axl (axl_doc_get_root (d)); s += fmt ("|%s|%d|", axl_doc_get_encoding (d) ? axl_doc_get_encoding (d) : "-", axl_doc_get_standalone (d)); axlList * p = axl_doc_get_pi_target_list (d); for (int i = 0; p && i < axl_list_length (p); i++) { axlPI * pi = (axlPI *) axl_list_get_nth (p, i); s += Str ("pi ") + axl_pi_get_name (pi) + " " + (axl_pi_get_content (pi) ? axl_pi_get_content (pi) : "-"); } }
  s += fmt ("|node %s %p %p|item %p %p %p|", axl_node_get_name (f.node), (void *) axl_node_get_parent (f.node), (void *) axl_node_get_doc (f.node), (void *) axl_item_get_next (f.item), (void *) axl_item_get_previous (f.item), (void *) axl_item_get_parent (f.item));
  s += fmt ("list %d", axl_list_length (f.list)); for (int i = 0; i < axl_list_length (f.list); i++) s += fmt (" %s", (char *) axl_list_get_nth (f.list, i));
  s += fmt ("|hash %d %s %s", axl_hash_items (f.hash), vis ((char *) axl_hash_get (f.hash, (axlPointer) "k1")).c_str (), vis ((char *) axl_hash_get (f.hash, (axlPointer) "k2")).c_str ());
  s += fmt ("|stack %d %p|bits %d %d", axl_stack_size (f.stack), axl_stack_peek (f.stack), axl_binary_stack_size (f.bstack), axl_binary_stack_peek (f.bstack));
  s += fmt ("|stream %d %d %d|cursors %p %s %d", axl_stream_get_index (f.stream), axl_stream_get_size (f.stream), axl_stream_remains (f.stream), axl_list_cursor_get (f.lcur), vis ((char *) axl_hash_cursor_get_key (f.hcur)).c_str (), axl_node_attr_cursor_has_item (f.acur));
  s += fmt ("|pi %s %s|dtd %p %s %d|error %d %s", axl_pi_get_name (f.pi), axl_pi_get_content (f.pi), (void *) axl_dtd_get_root (f.dtd), axl_dtd_get_element_name (f.element), axl_dtd_item_list_count (f.elist), axl_error_get_code (f.err), axl_error_get (f.err));
  s += fmt ("|text %s %s %s %s %s", f.text, f.file, f.vec[0], f.vec[1], f.vec[2] ? "?" : "-"); return s;
}
}

MODE (nulls) {
  Rng & r = c.rng; Fix f; memset (&f, 0, sizeof f); g_f = &f; axlError * e = nullptr;
  const char * src = "<?xml version='1.0' encoding='utf-8' standalone='yes'?><?t c?><root><a x='1' y='2'>one<b/>two<!-- c --></a><a><b>three</b></a><z/></root>";
  f.doc = parse_mem (src, &e); CHECK (c, f.doc, "setup", "no document"); f.doc2 = parse_mem (src, &e); f.node = axl_doc_get (f.doc, "/root/a"); f.other = axl_node_create ("other"); f.item = axl_item_get_first_child (f.node);
  f.other_item = axl_item_get_first_child (axl_doc_get (f.doc2, "/root/a")); f.list = axl_list_new (axl_list_always_return_1, NULL); axl_list_append (f.list, (axlPointer) "l1"); axl_list_append (f.list, (axlPointer) "l2"); axl_list_append (f.list, (axlPointer) "l3");
  f.hash = axl_hash_new (axl_hash_string, axl_hash_equal_string); axl_hash_insert (f.hash, (axlPointer) "k1", (axlPointer) "v1"); axl_hash_insert (f.hash, (axlPointer) "k2", (axlPointer) "v2"); f.stack = axl_stack_new (NULL); axl_stack_push (f.stack, (axlPointer) "s1"); axl_stack_push (f.stack, (axlPointer) "s2");
  f.bstack = axl_binary_stack_new (); axl_binary_stack_push (f.bstack, axl_true); axl_binary_stack_push (f.bstack, axl_false); const char * dt = "<!ELEMENT root (a*, z)><!ELEMENT a (#PCDATA)><!ELEMENT z EMPTY><!ATTLIST a x CDATA #REQUIRED>"; f.dtd = axl_dtd_parse (dt, -1, &e); CHECK (c, f.dtd, "setup", "no dtd");
  f.stream = axl_stream_new ("text zzz", -1, NULL, -1, &e); f.lcur = axl_list_cursor_new (f.list); f.hcur = axl_hash_cursor_new (f.hash); f.acur = axl_node_attr_cursor_new (f.node); f.pi = axl_pi_create ("t", "c"); f.factory = axl_factory_create (32); f.strings = axl_string_factory_create ();
  f.element = axl_dtd_get_root (f.dtd); CHECK (c, f.element, "setup", "no element"); f.elist = axl_dtd_get_item_list (f.element); f.enode = axl_dtd_item_list_get_node (f.elist, 0); axl_error_new (-3, "message", NULL, &f.err);
  strcpy (f.text, "tzt"); strcpy (f.file, ""); static char p1[] = "p1", p2[] = "p2"; f.vec[0] = p1; f.vec[1] = p2; Str before = digest (f); const char * probe = getenv ("VH_NULL_PROBE"); int n = probe ? 1 : r.range (1, 30); Failure bad; Str done;
  for (int i = 0; i < n && bad.key.empty (); i++) {
    const NullCall & k = calls[probe ? (size_t) atoi (probe) % N : r.below ((uint32_t) N)]; f.size = 77; f.out = nullptr; f.error = nullptr; f.called = 0; c.note ("%s with %s null", k.fn, k.par); Str got = k.go (f), d = digest (f); if (probe) { printf ("PROBE\t%s\t%d\n", got.c_str (), (int) (d == before)); fflush (stdout); break; }
    if (got != k.expect) bad = Failure { "answer", fmt ("%s with %s null gave %s, and has to give %s", k.fn, k.par, got.c_str (), k.expect) };
    else if (f.out) bad = Failure { "answer", fmt ("%s with %s null left content for the caller", k.fn, k.par) };
    else if (f.called) bad = Failure { "answer", fmt ("%s with %s null called the function received", k.fn, k.par) };
    else if (d != before) bad = Failure { "changed", fmt ("%s with %s null changed an object it received or one it was not given: %s, was %s", k.fn, k.par, vis (d, 1500).c_str (), vis (before, 1500).c_str ()) };
    if (f.error) { if (bad.key.empty () && axl_error_was_ok (f.error)) bad = Failure { "answer", fmt ("%s with %s null reported an error that is none", k.fn, k.par) }; axl_error_free (f.error); }
    c.count ("refused"); c.state ("operations", hash_str (Str (k.fn) + "/" + k.par)); done += k.fn; done += k.par;
  }
  axl_error_free (f.err); axl_string_factory_free (f.strings); axl_factory_free (f.factory); axl_pi_free (f.pi); axl_node_attr_cursor_free (f.acur); axl_hash_cursor_free (f.hcur); axl_list_cursor_free (f.lcur); axl_stream_free (f.stream); axl_dtd_free (f.dtd); axl_binary_stack_free (f.bstack); axl_stack_free (f.stack); axl_hash_free (f.hash); axl_list_free (f.list); axl_node_free (f.other); axl_doc_free (f.doc2); axl_doc_free (f.doc);
  if (!bad.key.empty ()) c.fail (bad.key.c_str (), "%s", bad.msg.c_str ());
  c.distinct (done); if (c.index < 4) c.sample (c.trace.substr (0, 300));
}
