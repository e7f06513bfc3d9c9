// The amount of work of a call, counted in executed edges of the library and bytes handled by the memory and string
// functions it calls: independent of the clock, so that growth can be judged exactly.
#include "model.hpp"
#include <malloc.h>
#include <math.h>
#include <unistd.h>

static uint64_t g_work; static bool g_counting;
extern "C" void __sanitizer_cov_trace_pc_guard_init (uint32_t * a, uint32_t * b) { for (; a < b; a++) *a = 1; }
extern "C" void __sanitizer_cov_trace_pc_guard (uint32_t *) { if (g_counting) g_work++; }
#define WEAK __attribute__ ((weak))
static bool instrumented () { g_counting = true; uint64_t w = g_work; axl_memcmp ("a", "b", 1); g_counting = false; return g_work != w; }
extern "C" {
size_t __real_strlen (const char *) WEAK; void * __real_memcpy (void *, const void *, size_t) WEAK; void * __real_memmove (void *, const void *, size_t) WEAK; void * __real_memset (void *, int, size_t) WEAK; void * __real_calloc (size_t, size_t) WEAK; void * __real_realloc (void *, size_t) WEAK; int __real_strcmp (const char *, const char *) WEAK; char * __real_strstr (const char *, const char *) WEAK; char * __real_strcpy (char *, const char *) WEAK; int __real_strncmp (const char *, const char *, size_t) WEAK; int __real_memcmp (const void *, const void *, size_t) WEAK;
size_t __wrap_strlen (const char * s) { size_t n = __real_strlen (s); if (g_counting) g_work += 1 + n / 16; return n; }
void * __wrap_memcpy (void * d, const void * s, size_t n) { if (g_counting) g_work += 1 + n / 16; return __real_memcpy (d, s, n); }
void * __wrap_memmove (void * d, const void * s, size_t n) { if (g_counting) g_work += 1 + n / 16; return __real_memmove (d, s, n); }
void * __wrap_memset (void * d, int x, size_t n) { if (g_counting) g_work += 1 + n / 16; return __real_memset (d, x, n); }
void * __wrap_calloc (size_t a, size_t b) { if (g_counting) g_work += 1 + a * b / 16; return __real_calloc (a, b); }
void * __wrap_realloc (void * p, size_t n) { size_t old = p ? malloc_usable_size (p) : 0; void * q = __real_realloc (p, n); if (g_counting) g_work += 1 + (q != p ? std::min (old, n) / 16 : 0); return q; }
int __wrap_strcmp (const char * a, const char * b) { if (g_counting) { size_t i = 0; while (a[i] && a[i] == b[i]) i++; g_work += 1 + i / 16; } return __real_strcmp (a, b); }
int __wrap_strncmp (const char * a, const char * b, size_t n) { if (g_counting) { size_t i = 0; while (i < n && a[i] && a[i] == b[i]) i++; g_work += 1 + i / 16; } return __real_strncmp (a, b, n); }
int __wrap_memcmp (const void * a, const void * b, size_t n) { if (g_counting) { size_t i = 0; while (i < n && ((const char *) a)[i] == ((const char *) b)[i]) i++; g_work += 1 + i / 16; } return __real_memcmp (a, b, n); }
char * __wrap_strstr (const char * a, const char * b) { if (g_counting) g_work += 1 + __real_strlen (a) / 16; return __real_strstr (a, b); }
char * __wrap_strcpy (char * a, const char * b) { if (g_counting) g_work += 1 + __real_strlen (b) / 16; return __real_strcpy (a, b); }
}

namespace {
// one unit of a shape: what is repeated; the counter makes names and values distinct
struct Shape { Str name; std::vector<Str> parts; Str before = "<root>", after = "</root>"; bool deep = false, attrs = false, prolog = false; size_t cap = 0; };
static Str subst (const Str & s, size_t i) { Str o; for (char ch : s) if (ch == '#') o += std::to_string (i); else o += ch; return o; }
static Str rep (const Str & s, size_t n) { Str o; for (size_t i = 0; i < n; i++) o += s; return o; }
static Str build (const Shape & s, size_t bytes) {
  Str o; size_t i = 0;
  if (s.deep) { std::vector<Str> close; while (o.size () * 2 < bytes) { const Str & p = s.parts[i % s.parts.size ()]; Str t = subst (p, i); o += t; size_t e = t.find_first_of (" >"); close.push_back ("</" + t.substr (1, e - 1) + ">"); i++; } while (!close.empty ()) { o += close.back (); close.pop_back (); } return o; }
  if (s.attrs) { o = "<root"; while (o.size () < bytes) { o += " " + subst (s.parts[i % s.parts.size ()], i); i++; } return o + "/>"; }
  if (s.prolog) { o = "<?xml version='1.0'?>"; while (o.size () < bytes) { o += subst (s.parts[i % s.parts.size ()], i); i++; } return o + "<root><a>text</a></root>"; }
  o = s.before; while (o.size () < bytes) { o += subst (s.parts[i % s.parts.size ()], i); i++; } return o + s.after;
}
static const std::vector<Str> UNITS = { "<i/>", "<i#/>", "<a>text</a>", "<a b='#'/>", "<a b=\"value\" c='d' e='f'>x</a>", "<a b1='1' b2='2' b3='3' b4='4' b5='5' b6='6' b7='7' b8='8' b9='9' b10='10' b11='11' b12='#'/>", "<!-- comment -->", "<!--c#-->", "<?pi data #?>", "<?pi?>", "<![CDATA[data <#>]]>", "<![CDATA[]]>", "text<i/>", "&lt;&amp;<i/>", "  \n\t  <i/>", "<a><b><c/></b></a>", "<a>]] ]>--?></a>", "<x:i xmlns:x='urn:#' x:b='1'/>", "<a></a>\n" };
static Shape gen_shape (Rng & r) {
  Shape s; unsigned k = r.below (12);
  if (k < 5) { s.name = "wide"; for (int n = r.range (1, 4); n > 0; n--) s.parts.push_back (r.pick (UNITS)); if (r.chance (1, 2)) { s.name = "group"; static const std::vector<Str> side = { "", "<s/>", "text", "<!-- c -->", "<s><t/></s>" }; for (int n = r.range (1, 4); n > 0; n--) { Str g = r.chance (1, 2) ? "g" : "a"; s.before += r.pick (side) + "<" + g + ">"; s.after = "</" + g + ">" + r.pick (side) + s.after; } } }
  else if (k < 6) { s.name = "deep"; s.deep = true; s.cap = 1; static const std::vector<Str> d = { "<a>", "<a#>", "<i b='#'>", "<nested c='d'>text", "<x>\n  ", "<x><!-- c -->", "<y><i/>" }; for (int n = r.range (1, 3); n > 0; n--) s.parts.push_back (r.pick (d)); }
  else if (k < 7) { s.name = "attributes"; s.attrs = true; static const std::vector<Str> d = { "a#='v'", "a#=''", "b#=\"value # &amp; more\"", "xmlns:p#='urn:#'", "#a='x'" }; for (int n = r.range (1, 2); n > 0; n--) s.parts.push_back (r.pick (d)); }
  else if (k < 8) { s.name = "prolog"; s.prolog = true; static const std::vector<Str> d = { "<!-- comment # -->", "<?pi data #?>", "\n", " \n\t", "<?pi-#?>" }; for (int n = r.range (1, 2); n > 0; n--) s.parts.push_back (r.pick (d)); }
  else { s.name = "long"; static const std::vector<Str> u = { "x", "a b ", "&lt;", "]]", "-", "?", "\n", " ", "&", "'", "]", "\xc3\xa1", "some words here " }; Str c = r.pick (u); s.name = "long"; s.cap = 2; unsigned w = r.below (6);
    static const std::vector<std::pair<Str, Str>> wrap = { { "<t>", "</t>" }, { "<t><![CDATA[", "]]></t>" }, { "<!--", "c-->" }, { "<t a=\"", "\"/>" }, { "<?pi d", "z?>" }, { "<t", "/>" } }; if (w == 2 && c == "-") c = "x"; if (w == 3 && c.find ('"') != Str::npos) c = "x"; if (w == 5) c = "x"; if (w == 1 && c == "]]") c = "] "; s.parts = { wrap[w].first, c, wrap[w].second }; }
  return s;
}
static Str make (const Shape & s, size_t bytes) { if (s.cap == 2) return "<root>" + s.parts[0] + rep (s.parts[1], bytes / s.parts[1].size ()) + s.parts[2] + "</root>"; return build (s, bytes); }
struct Meter { std::vector<std::pair<Str, uint64_t>> * out; const char * name; uint64_t at; Meter (std::vector<std::pair<Str, uint64_t>> & o, const char * n) : out (&o), name (n) { at = g_work; g_counting = true; } ~Meter () { g_counting = false; out->push_back ({ name, g_work - at }); } };
static axl_bool visit (axlNode *, axlNode *, axlDoc *, axl_bool *, axlPointer p) { bool c = g_counting; g_counting = false; ++*(size_t *) p; g_counting = c; return axl_true; }
static void measure (Ctx & c, const Shape & s, const Str & text, const Str & path, std::vector<std::pair<Str, uint64_t>> & o) {
  axlError * e = nullptr; axlDoc * d, * d2, * df; char * x = nullptr; int sz = 0; size_t seen = 0;
  { Meter m (o, "parse"); d = axl_doc_parse (text.c_str (), (int) text.size (), &e); } if (!d) c.fail ("setup", "not parsed: %s: %s", err_take (e).c_str (), vis (text, 200).c_str ()); DocHold h (d);
  write_file (path, text); { Meter m (o, "parse a file"); df = axl_doc_parse_from_file (path.c_str (), &e); } CHECK (c, df, "setup", "not parsed from file: %s", err_take (e).c_str ());
  { Meter m (o, "dump"); axl_doc_dump (d, &x, &sz); } axl_free (x); { Meter m (o, "dump pretty"); axl_doc_dump_pretty (d, &x, &sz, 2); } axl_free (x); o.back ().second = (uint64_t) ((double) o.back ().second * (double) text.size () / std::max ((double) text.size (), (double) sz));   // indentation: judged by what is written
  { Meter m (o, "size"); axl_doc_get_flat_size (d); }
  axlNode * root = axl_doc_get_root (d), * k; { Meter m (o, "copy"); k = axl_node_copy (root, axl_true, axl_true); }
  { Meter m (o, "compare"); CHECK (c, axl_node_are_equal (root, k), "setup", "copy differs"); } { Meter m (o, "compare documents"); axl_doc_are_equal (d, df); }
  { Meter m (o, "free a node"); axl_node_free (k); }
  { Meter m (o, "iterate deep"); axl_doc_iterate (d, DEEP_ITERATION, visit, &seen); } { Meter m (o, "iterate wide"); axl_doc_iterate (d, WIDE_ITERATION, visit, &seen); }
  { Meter m (o, "find"); axl_node_find_called (root, "not-there"); } { Meter m (o, "query"); axl_doc_get (d, "/root/not-there"); axl_node_get_child_called (root, "not-there"); }
  axlList * l; { Meter m (o, "list"); l = axl_doc_get_list (d, "/root/a"); } if (l) axl_list_free (l); { Meter m (o, "children"); l = axl_node_get_childs (root); } if (l) axl_list_free (l);
  { Meter m (o, "content"); x = axl_node_get_content_copy (root, &sz); } if (x) axl_free (x); { Meter m (o, "content decoded"); x = axl_node_get_content_trans (root, &sz); } if (x) axl_free (x);
  axlNode * last = axl_node_get_last_child (root); if (last) { { Meter m (o, "last content"); x = axl_node_get_content_trans (last, &sz); } if (x) axl_free (x); Meter m (o, "attribute"); axl_node_get_attribute_value (root, "not-there"); axl_node_get_attribute_value (last, "b"); }
  { Meter m (o, "namespaces"); axl_ns_doc_validate (d, NULL); }
  { Meter m (o, "walk"); for (axlItem * i = axl_item_get_first_child (root); i; i = axl_item_get_next (i)) ; for (axlNode * n = axl_node_get_first_child (root); n; n = axl_node_get_next (n)) ; for (axlNode * n = axl_node_get_last_child (root); n; n = axl_node_get_previous (n)) ; axl_node_get_child_num (root); }
  { axlAttrCursor * cu; Meter m (o, "attributes"); cu = axl_node_attr_cursor_new (root); for (axl_node_attr_cursor_first (cu); axl_node_attr_cursor_has_item (cu); axl_node_attr_cursor_next (cu)) ; axl_node_attr_cursor_free (cu); }
  { Meter m (o, "trim"); axl_node_get_content_trim (root, &sz); }
  { Meter m (o, "free"); axl_doc_free (df); }
  c.count ("nodes", seen);
}
}

MODE (steps) {
  if (!instrumented ()) { fprintf (stderr, "VHERROR the library does not count its work\n"); _exit (9); }
  Rng & r = c.rng; Shape s = gen_shape (r); Str desc = s.name; if (s.name == "group") desc += " " + s.before + "..." + s.after; for (auto & p : s.parts) desc += " " + p; c.note ("shape: %s", vis (desc).c_str ());
  size_t from = s.deep ? 4000 : 24000; int doublings = s.deep ? 4 : c.thorough ? 6 : 4; std::vector<std::vector<std::pair<Str, uint64_t>>> all; Str path = c.path ("w.xml");
  for (int i = 0; i <= doublings; i++) {
    Str text = make (s, from << i); all.emplace_back (); measure (c, s, text, path, all.back ());
    for (size_t j = 0; j < all.back ().size () && i >= 2; j++) {
      double a = (double) all[(size_t) i - 2][j].second, b = (double) all[(size_t) i - 1][j].second, z = (double) all[(size_t) i][j].second, n = (double) text.size ();
      if (getenv ("VH_STEPS") && i == doublings) printf ("%-18s %-40s %10.2f/byte  x%.2f x%.2f\n", all.back ()[j].first.c_str (), vis (desc, 40).c_str (), z / n, b / std::max (a, 1.0), z / std::max (b, 1.0));
      // in proportion: two doublings of the input multiply the work by 4; by 16 when quadratic. Little work is never an alarm.
      if (z > n && z > 9.0 * a) { unlink (path.c_str ()); c.fail ("growth", "%s: work %0.f, %0.f, %0.f for %zu, %zu, %zu bytes of the shape %s", all.back ()[j].first.c_str (), a, b, z, text.size () / 4, text.size () / 2, text.size (), vis (desc, 200).c_str ()); }
      c.maxi ((all.back ()[j].first + ": work per 100 bytes").c_str (), (uint64_t) (100.0 * z / n)); c.count ("growths_judged");
    }
    c.maxi ("doc_bytes", text.size ());
  }
  unlink (path.c_str ()); c.count (s.name.c_str ()); c.distinct (desc); if (c.index < 12) c.sample (desc);
}

// the same for containers, building and taking apart, strings, DTDs and conversion: work against the number of elements
namespace {
typedef std::vector<std::pair<Str, uint64_t>> Costs;
static unsigned id_hash (axlPointer p) { return (unsigned) (uintptr_t) p; }
static int id_equal (axlPointer a, axlPointer b) { return a == b ? 0 : 1; }
static void api_costs (Ctx & c, unsigned what, size_t n, Costs & o) {
  std::vector<Str> names; for (size_t i = 0; i < n; i++) names.push_back ("name" + std::to_string (i)); char * x = nullptr; int sz = 0;
  switch (what) {
  case 0: { axlHash * h = axl_hash_new (axl_hash_string, axl_hash_equal_string); { Meter m (o, "hash: insert"); for (auto & s : names) axl_hash_insert (h, (axlPointer) s.c_str (), (axlPointer) s.c_str ()); } { Meter m (o, "hash: look up"); for (auto & s : names) axl_hash_get (h, (axlPointer) s.c_str ()); }
      axlHash * k; { Meter m (o, "hash: cursor"); axlHashCursor * cu = axl_hash_cursor_new (h); for (axl_hash_cursor_first (cu); axl_hash_cursor_has_item (cu); axl_hash_cursor_next (cu)) ; axl_hash_cursor_free (cu); } (void) k; { Meter m (o, "hash: remove"); for (auto & s : names) axl_hash_remove (h, (axlPointer) s.c_str ()); } { Meter m (o, "hash: free"); axl_hash_free (h); } break; }
  case 1: { axlHash * h = axl_hash_new_full (id_hash, id_equal, c.rng.chance (1, 2) ? 1 : 10); { Meter m (o, "hash: insert numbers"); for (size_t i = 1; i <= n; i++) axl_hash_insert (h, (axlPointer) i, (axlPointer) i); } { Meter m (o, "hash: replace"); for (size_t i = 1; i <= n; i++) axl_hash_insert (h, (axlPointer) i, (axlPointer) (i + 1)); } { Meter m (o, "hash: cursor removal"); axlHashCursor * cu = axl_hash_cursor_new (h); axl_hash_cursor_first (cu); while (axl_hash_cursor_has_item (cu)) axl_hash_cursor_remove (cu); axl_hash_cursor_free (cu); } axl_hash_free (h); break; }
  case 2: { axlList * l = axl_list_new (axl_list_always_return_1, NULL), * k; { Meter m (o, "list: append"); for (size_t i = 1; i <= n; i++) axl_list_append (l, (axlPointer) i); } { Meter m (o, "list: prepend"); for (size_t i = 1; i <= n; i++) axl_list_prepend (l, (axlPointer) i); } { Meter m (o, "list: cursor"); axlListCursor * cu = axl_list_cursor_new (l); for (axl_list_cursor_first (cu); axl_list_cursor_has_item (cu); axl_list_cursor_next (cu)) axl_list_cursor_get (cu); axl_list_cursor_free (cu); } { Meter m (o, "list: copy"); k = axl_list_copy (l, NULL); } { Meter m (o, "list: remove ends"); for (size_t i = 0; i < n; i++) { axl_list_remove_first (l); axl_list_remove_last (l); } } { Meter m (o, "list: free"); axl_list_free (k); } axl_list_free (l); break; }
  case 3: { axlStack * s = axl_stack_new (NULL); { Meter m (o, "stack: push"); for (size_t i = 1; i <= n; i++) axl_stack_push (s, (axlPointer) i); } { Meter m (o, "stack: pop"); for (size_t i = 1; i <= n; i++) axl_stack_pop (s); } axl_stack_free (s); axlBinaryStack * b = axl_binary_stack_new (); { Meter m (o, "binary stack"); for (size_t i = 0; i < n; i++) axl_binary_stack_push (b, i & 1 ? axl_true : axl_false); for (size_t i = 0; i < n; i++) axl_binary_stack_pop (b); } axl_binary_stack_free (b); break; }
  case 4: { axlFactory * f = axl_factory_create (24); std::vector<axlPointer> v; v.reserve (n); { Meter m (o, "pool: get"); for (size_t i = 0; i < n; i++) v.push_back (axl_factory_get (f)); } { Meter m (o, "pool: release and get"); for (size_t i = 0; i < n; i++) axl_factory_release_spare (f, v[i]); for (size_t i = 0; i < n; i++) axl_factory_get (f); } { Meter m (o, "pool: free"); axl_factory_free (f); } axlStrFactory * q = axl_string_factory_create (); { Meter m (o, "string pool"); for (size_t i = 0; i < n; i++) axl_string_factory_alloc (q, (int) (1 + i % 40)); } axl_string_factory_free (q); break; }
  case 5: { axlNode * r = axl_node_create ("root"); { Meter m (o, "build: children"); for (size_t i = 0; i < n; i++) axl_node_set_child (r, axl_node_create ("i")); } { Meter m (o, "build: content"); for (size_t i = 0; i < n; i++) axl_node_set_content (r, "some & text", -1); } { Meter m (o, "build: comments"); for (size_t i = 0; i < n; i++) axl_node_set_comment (r, (char *) "a comment", -1); } { Meter m (o, "take apart"); axlNode * k; while ((k = axl_node_get_first_child (r))) axl_node_remove (k, axl_true); } axl_node_free (r); break; }
  case 6: { axlNode * r = axl_node_create ("root"); { Meter m (o, "build: attributes"); for (auto & s : names) axl_node_set_attribute (r, s.c_str (), "v"); } { Meter m (o, "attributes: look up"); for (auto & s : names) axl_node_get_attribute_value (r, s.c_str ()); } axlNode * k; { Meter m (o, "attributes: copy"); k = axl_node_copy (r, axl_true, axl_true); } { Meter m (o, "attributes: compare"); axl_node_are_equal (r, k); } axl_node_free (k); { Meter m (o, "attributes: remove"); for (auto & s : names) axl_node_remove_attribute (r, s.c_str ()); } axl_node_free (r); r = axl_node_create ("a"); { Meter m (o, "annotate"); for (auto & s : names) axl_node_annotate_int (r, s.c_str (), 1); } { Meter m (o, "annotations: look up"); for (auto & s : names) axl_node_annotate_get_int (r, s.c_str (), axl_false); } axl_node_free (r); break; }
  case 7: { axlNode * a = axl_node_create ("a"), * b = axl_node_create ("b"); for (size_t i = 0; i < n; i++) axl_node_set_child (a, axl_node_create ("i")); { Meter m (o, "transfer"); axl_node_transfer_childs (a, b); } axlNode * at = axl_node_get_first_child (b); { Meter m (o, "insert after"); for (size_t i = 0; i < n; i++) { axlNode * k = axl_node_create ("k"); axl_node_set_child_after (at, k); at = k; } } { Meter m (o, "replace"); axlNode * k = axl_node_get_first_child (b); for (size_t i = 0; i < n && k; i++) { axlNode * z = axl_node_create ("z"); axl_node_replace (k, z, axl_true); k = axl_node_get_next (z); } } { Meter m (o, "detach"); axlNode * k; while ((k = axl_node_get_last_child (b))) { axl_node_deattach (k); axl_node_free (k); } } axl_node_free (a); axl_node_free (b); break; }
  case 8: { static const std::vector<Str> us = { "a,b", "x", ",", " ", "ab", "&", "a&b<" }; Str u = c.rng.pick (us), t = rep (u, n); { Meter m (o, "strings: split"); char ** v = axl_split (t.c_str (), 1, ","); axl_freev (v); } char * y = strdup (t.c_str ()); { Meter m (o, "strings: trim"); axl_stream_trim (y); } free (y); y = strdup (t.c_str ()); { Meter m (o, "strings: case"); axl_stream_to_upper (y); axl_stream_to_lower (y); } free (y); y = axl_strdup (t.c_str ()); { Meter m (o, "strings: replace"); axl_stream_replace (&y, -1, "a", -1, "bcd", -1); } axl_free (y); y = axl_strdup (t.c_str ()); { Meter m (o, "strings: remove"); axl_stream_remove (y, "a", axl_false); } axl_free (y); axlNode * r = axl_node_create ("r"); { Meter m (o, "content escaped"); axl_node_set_content (r, t.c_str (), -1); } { Meter m (o, "content decoded"); x = axl_node_get_content_trans (r, &sz); } axl_free (x); { Meter m (o, "attribute escaped"); axl_node_set_attribute (r, "a", t.c_str ()); } { Meter m (o, "attribute decoded"); x = axl_node_get_attribute_value_trans (r, "a"); } if (x) axl_free (x); axl_node_free (r); break; }
  case 9: { // validation, the DTD and the number of siblings being bounded: children are looked up by position
      axlDtd * d = axl_dtd_parse ("<!ELEMENT root (g*)><!ELEMENT g (a|g)*><!ELEMENT a (b?,c*)><!ELEMENT b (#PCDATA)><!ELEMENT c EMPTY><!ATTLIST a id ID #REQUIRED k (x|y) \"x\"><!ATTLIST c ref IDREF #IMPLIED>", -1, NULL); Str t = "<root>"; size_t i = 0;
      std::function<void (size_t)> go = [&] (size_t left) { t += "<g>"; if (left > 20) for (int k = 0; k < 4; k++) go (left / 4); else for (; left > 0; left--, i++) t += "<a id='i" + std::to_string (i) + "'><b>t</b><c ref='i" + std::to_string (i / 2) + "'/></a>"; t += "</g>"; }; go (n); t += "</root>"; axlDoc * k = axl_doc_parse (t.c_str (), -1, NULL); axlError * e = nullptr; { Meter m (o, "validate"); CHECK (c, axl_dtd_validate (k, d, &e), "setup", "not valid: %s", err_take (e).c_str ()); } axl_doc_free (k); axl_dtd_free (d); break; }
  case 10: { Str t = "<?xml version='1.0' encoding='ISO-8859-15'?><r>"; for (size_t i = 0; i < n; i++) t += "<a>\xe1\xa4 text</a>"; t += "</r>"; axlError * e = nullptr; CHECK (c, axl_babel_init (&e), "setup", "babel"); axlDoc * d; { Meter m (o, "decode"); d = axl_doc_parse (t.c_str (), (int) t.size (), &e); } Str p = c.path ("b.xml"); write_file (p, t); axlDoc * f; { Meter m (o, "decode a file"); f = axl_doc_parse_from_file (p.c_str (), NULL); } unlink (p.c_str ()); axl_babel_finish (); CHECK (c, d && f, "setup", "not parsed: %s", err_take (e).c_str ()); axl_doc_free (d); axl_doc_free (f); break; }
  default: { Str t = "<r xmlns='urn:d' xmlns:p='urn:p'>"; for (size_t i = 0; i < n; i++) t += i % 2 ? "<p:a q='1'/>" : "<a p:b='2'/>"; t += "</r>"; axlDoc * d = axl_doc_parse (t.c_str (), -1, NULL); { Meter m (o, "namespaces: validate"); CHECK (c, axl_ns_doc_validate (d, NULL), "setup", "namespaces"); } { Meter m (o, "namespaces: look up"); axl_ns_node_find_called (axl_doc_get_root (d), "urn:p", "none"); axl_ns_node_get_child_called (axl_doc_get_root (d), "urn:p", "none"); } { Meter m (o, "free"); axl_doc_free (d); } } }
}
}
MODE (stepsapi) {
  if (!instrumented ()) { fprintf (stderr, "VHERROR the library does not count its work\n"); _exit (9); }
  Rng & r = c.rng; unsigned what = (unsigned) (c.index % 12); size_t from = (size_t) r.range (1000, 3000); int doublings = c.thorough ? 6 : 4; std::vector<Costs> all; Rng keep = r;
  for (int i = 0; i <= doublings; i++) { size_t n = from << i; all.emplace_back (); r = keep; api_costs (c, what, n, all.back ());
    for (size_t j = 0; j < all.back ().size () && i >= 2; j++) { double a = (double) all[(size_t) i - 2][j].second, b = (double) all[(size_t) i - 1][j].second, z = (double) all[(size_t) i][j].second; if (getenv ("VH_STEPS") && i == doublings) printf ("%-24s %10.2f/element  x%.2f x%.2f\n", all.back ()[j].first.c_str (), z / (double) n, b / std::max (a, 1.0), z / std::max (b, 1.0));
      if (z > (double) n && z > 9.0 * a) c.fail ("growth", "%s: work %0.f, %0.f, %0.f for %zu, %zu, %zu elements", all.back ()[j].first.c_str (), a, b, z, n / 4, n / 2, n); c.maxi ((all.back ()[j].first + ": work per 100 elements").c_str (), (uint64_t) (100.0 * z / (double) n)); c.count ("growths_judged"); } 
    c.maxi ("elements", n); }
  c.distinct ((uint64_t) what * 100000 + from); static const char * names[] = { "hash", "hash numbers", "list", "stack", "pool", "children", "attributes", "moving", "strings", "validation", "decoding", "namespaces" }; c.count (names[what]);
}
