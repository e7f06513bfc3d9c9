// Hashes, lists, stacks and pools against plain models, every destruction accounted for.
#include "vh.hpp"
#include <climits>

namespace {
// Things stored in containers. They are never released before the case ends, so a second destruction is seen.
struct Tok { int val; char kind; int destroyed; bool expectDead; char text[24]; };
struct Pool {
  Ctx & c; std::vector<Tok *> all; std::map<const void *, Tok *> by; Str bad;
  static thread_local Pool * cur;
  explicit Pool (Ctx & x) : c (x) { cur = this; }
  ~Pool () { for (auto t : all) delete t; cur = nullptr; }
  Tok * make (char kind, int val) { Tok * t = new Tok; memset (t, 0, sizeof *t); t->kind = kind; t->val = val; snprintf (t->text, sizeof t->text, "%c%d", val % 3 ? 'k' : 'K', val / 2); if (val & 1) strcat (t->text, "o"); all.push_back (t); by[t] = t; by[t->text] = t; return t; }
  Tok * find (const void * p) { auto i = by.find (p); return i == by.end () ? nullptr : i->second; }
  void hit (const void * p, char kind) {
    Tok * t = find (p);
    if (!t) { if (bad.empty ()) bad = fmt ("destroy function of a %c called with %p, which was never stored", kind, p); return; }
    if (t->kind != kind && bad.empty ()) bad = fmt ("destroy function of a %c called with a %c", kind, t->kind);
    if (++t->destroyed > 1 && bad.empty ()) bad = fmt ("%c %d destroyed twice", t->kind, t->val);
    if (!t->expectDead && bad.empty ()) bad = fmt ("%c %d destroyed although it is still in use", t->kind, t->val);
  }
  void dead (Tok * t) { if (t) t->expectDead = true; }
  void settle (const char * op) {
    CHECK (c, bad.empty (), "destroy", "after %s: %s", op, bad.c_str ());
    for (auto t : all) if (t->expectDead) CHECK (c, t->destroyed == 1, "destroy", "after %s: %c %d was not destroyed", op, t->kind, t->val);
    c.count ("destructions_checked");
  }
};
thread_local Pool * Pool::cur;
static void kill_key (axlPointer p) { Pool::cur->hit (p, 'k'); }
static void kill_key2 (axlPointer p) { Pool::cur->hit (p, 'k'); Pool::cur->c.count ("replaced_destroy"); }
static void kill_data (axlPointer p) { Pool::cur->hit (p, 'd'); }
static void kill_data2 (axlPointer p) { Pool::cur->hit (p, 'd'); }

// --- hash
static unsigned int h_const (axlPointer) { return 7; }
static unsigned int h_mod3 (axlPointer p) { return (unsigned) PTR_TO_INT (p) % 3; }
static unsigned int h_high (axlPointer p) { return 0xFFFFFFFFu - (unsigned) PTR_TO_INT (p) * 5; }
static unsigned int h_tok (axlPointer p) { return (unsigned) ((Tok *) p)->val * 2654435761u; }
static unsigned int h_tok_const (axlPointer) { return 0; }
static int e_tok (axlPointer a, axlPointer b) { return ((Tok *) a)->val == ((Tok *) b)->val ? 0 : 1; }
static unsigned int h_str_const (axlPointer p) { return (unsigned) strlen ((char *) p); }

struct Entry { Tok * k; axlPointer key; axlDestroyFunc kd; Tok * d; axlDestroyFunc dd; };
struct HashCase {
  Ctx & c; Pool & p; int style; axlHash * h; std::map<int, Entry> m; int range;
  axlPointer keyOf (Tok * t, int v) { return style == 0 ? (axlPointer) t->text : style == 1 ? INT_TO_PTR (v) : (axlPointer) t; }
  int valOf (axlPointer k) { if (style == 1) return PTR_TO_INT (k); Tok * t = p.find (k); CHECK (c, t, "foreign-key", "a key that was never stored is reported"); return t->val; }
  void drop (Entry & e, bool destroy) { if (destroy) { if (e.kd) p.dead (e.k); if (e.dd) p.dead (e.d); } }
  void verify (const char * op) {
    CHECK (c, axl_hash_items (h) == (int) m.size (), "items", "after %s: %d items reported, %zu stored", op, axl_hash_items (h), m.size ());
    p.settle (op);
  }
  void probe (int v, const char * op) {
    Tok * t = p.make ('k', v); axlPointer k = keyOf (t, v); auto i = m.find (v);
    axl_bool ex = axl_hash_exists (h, k); axlPointer g = axl_hash_get (h, k);
    CHECK (c, !!ex == (i != m.end ()), "exists", "after %s: key %d reported %s", op, v, ex ? "present" : "absent");
    CHECK (c, g == (i == m.end () ? nullptr : (axlPointer) i->second.d), "get", "after %s: wrong value for key %d", op, v);
    c.count ("lookups");
  }
  void all (axlHash * hh, std::map<int, Entry> & mm, const char * op) {
    struct S { HashCase * me; std::map<int, Entry> * m; std::map<int, int> seen; int calls, stop; axlPointer a2, a3, a4; bool args; } s; s.me = this; s.m = &mm; s.calls = 0; s.stop = -1; s.args = true; s.a2 = &s; s.a3 = this; s.a4 = &mm;
    struct F {
      static axl_bool see (axlPointer k, axlPointer d, S * s) { int v = s->me->valOf (k); auto i = s->m->find (v); CHECK (s->me->c, i != s->m->end (), "iterate", "iteration reports key %d, which is not stored", v);
        CHECK (s->me->c, k == i->second.key && d == (axlPointer) i->second.d, "iterate", "iteration reports another key or value for %d", v); s->seen[v]++; return ++s->calls == s->stop; }
      static axl_bool f1 (axlPointer k, axlPointer d, axlPointer u) { return see (k, d, (S *) u); }
      static axl_bool f2 (axlPointer k, axlPointer d, axlPointer u, axlPointer u2) { S * s = (S *) u; if (u2 != s->a2) s->args = false; return see (k, d, s); }
      static axl_bool f3 (axlPointer k, axlPointer d, axlPointer u, axlPointer u2, axlPointer u3) { S * s = (S *) u; if (u2 != s->a2 || u3 != s->a3) s->args = false; return see (k, d, s); }
      static axl_bool f4 (axlPointer k, axlPointer d, axlPointer u, axlPointer u2, axlPointer u3, axlPointer u4) { S * s = (S *) u; if (u2 != s->a2 || u3 != s->a3 || u4 != s->a4) s->args = false; return see (k, d, s); } };
    if (c.rng.chance (1, 3) && !mm.empty ()) s.stop = c.rng.range (1, (int) mm.size ());
    switch (c.rng.below (4)) { case 0: axl_hash_foreach (hh, F::f1, &s); break; case 1: axl_hash_foreach2 (hh, F::f2, &s, s.a2); break; case 2: axl_hash_foreach3 (hh, F::f3, &s, s.a2, s.a3); break; default: axl_hash_foreach4 (hh, F::f4, &s, s.a2, s.a3, s.a4); }
    CHECK (c, s.args, "iterate", "iteration does not hand over the user data");
    for (auto & x : s.seen) CHECK (c, x.second == 1, "iterate", "after %s: key %d reported %d times", op, x.first, x.second);
    CHECK (c, s.calls == (s.stop > 0 ? s.stop : (int) mm.size ()), "iterate", "after %s: iteration made %d calls, %d expected", op, s.calls, s.stop > 0 ? s.stop : (int) mm.size ());
    c.count ("iterations");
  }
  void cursor () {
    axlHashCursor * cu = axl_hash_cursor_new (h); CHECK (c, axl_hash_cursor_hash (cu) == h, "cursor", "cursor reports another hash");
    int passes = c.rng.range (1, 2);
    for (int pass = 0; pass < passes; pass++) {
      if (pass) axl_hash_cursor_first (cu);
      std::set<int> seen; axlPointer last = nullptr; int want = (int) m.size (), n = 0; bool removing = c.rng.chance (1, 3); int rate = c.rng.range (1, 4);
      std::map<int, Entry> before = m;
      while (axl_hash_cursor_has_item (cu)) {
        CHECK (c, ++n <= want, "cursor", "cursor reports more items than stored");
        axlPointer k = axl_hash_cursor_get_key (cu); int v = valOf (k); auto i = m.find (v);
        CHECK (c, i != m.end () && seen.insert (v).second, "cursor", "cursor reports key %d again or after it was removed", v);
        CHECK (c, k == i->second.key && axl_hash_cursor_get_value (cu) == (axlPointer) i->second.d, "cursor", "cursor reports another value for %d", v);
        CHECK (c, !!axl_hash_cursor_has_next (cu) == (n < want), "cursor", "has_next wrong at item %d of %d", n, want);
        last = k;
        if (removing && c.rng.below (4) < (uint32_t) rate) { drop (i->second, true); m.erase (i); axl_hash_cursor_remove (cu); verify ("cursor removal"); c.count ("cursor_removals"); }
        else axl_hash_cursor_next (cu);
      }
      CHECK (c, n == want, "cursor", "cursor visited %d of %d items", n, want);
      CHECK (c, axl_hash_cursor_get_key (cu) == nullptr && axl_hash_cursor_get_value (cu) == nullptr && !axl_hash_cursor_has_next (cu), "cursor", "cursor at the end still reports an item");
      axl_hash_cursor_last (cu);
      CHECK (c, !!axl_hash_cursor_has_item (cu) == !m.empty (), "cursor-last", "cursor at the last position: item reported %d with %zu stored", (int) axl_hash_cursor_has_item (cu), m.size ());
      if (!m.empty ()) { CHECK (c, !axl_hash_cursor_has_next (cu), "cursor-last", "there are items after the last one"); if (!removing) CHECK (c, axl_hash_cursor_get_key (cu) == last, "cursor-last", "the last item is not the one visited last"); }
      c.count ("cursor_passes");
    }
    axl_hash_cursor_free (cu);
  }
  static thread_local HashCase * cur;
  static axlPointer kc (axlPointer key, axlDestroyFunc kd, axlPointer data, axlDestroyFunc dd) { HashCase * me = cur; int v = me->valOf (key); auto & e = me->m[v]; CHECK (me->c, e.key == key && e.kd == kd && (axlPointer) e.d == data && e.dd == dd, "copy-args", "copy function gets other arguments than stored for %d", v); Tok * t = me->p.make ('k', v); me->copied[v].k = t; return me->copied[v].key = me->keyOf (t, v); }
  static axlPointer vc (axlPointer key, axlDestroyFunc kd, axlPointer data, axlDestroyFunc dd) { HashCase * me = cur; int v = me->valOf (key); auto & e = me->m[v]; CHECK (me->c, e.kd == kd && (axlPointer) e.d == data && e.dd == dd, "copy-args", "copy function gets other arguments than stored for %d", v); Tok * t = me->p.make ('d', v); me->copied[v].d = t; return t; }
  std::map<int, Entry> copied; int phase = 0;
  void copy () {
    copied.clear (); cur = this; axlHash * h2; bool full = c.rng.chance (1, 2), destroy = c.rng.chance (2, 3) && style != 1;
    if (full) h2 = axl_hash_copy_full (h, kc, vc, destroy ? kill_key2 : NULL, destroy ? kill_data2 : NULL); else h2 = axl_hash_copy (h, kc, vc);
    CHECK (c, h2, "copy", "no copy made"); CHECK (c, axl_hash_items (h2) == (int) m.size () && copied.size () == m.size (), "copy", "copy holds %d items, %zu stored", axl_hash_items (h2), m.size ());
    for (auto & x : copied) { auto & e = m[x.first]; x.second.kd = full ? (destroy ? kill_key2 : nullptr) : e.kd; x.second.dd = full ? (destroy ? kill_data2 : nullptr) : e.dd; }
    std::swap (h, h2); std::swap (m, copied);
    for (auto & x : m) { CHECK (c, axl_hash_get (h, x.second.key) == (axlPointer) x.second.d, "copy", "copy has another value for %d", x.first); }
    all (h, m, "copy");
    int n = c.rng.range (0, 6); for (int i = 0; i < n; i++) step ();
    // one of both goes
    for (auto & x : copied) drop (x.second, true);
    axl_hash_free (h2); verify ("release of the other copy"); copied.clear (); c.count ("copies");
  }
  void step () {
    int v = c.rng.range (style == 1 ? -range : 0, range); unsigned o = c.rng.below (9);
    if (c.rng.chance (1, 40)) phase = c.rng.range (-1, 1);      // grows and shrinks for a while
    if (phase > 0 && o > 3 && o < 7 && c.rng.chance (4, 5)) o = 0; else if (phase < 0 && o < 4 && c.rng.chance (4, 5)) o += 3;
    if (phase < 0 && o > 3 && o < 7 && !m.empty () && c.rng.chance (3, 4)) { auto i = m.lower_bound (v); if (i == m.end ()) --i; v = i->first; }
    Tok * t = p.make ('k', v); axlPointer k = keyOf (t, v);
    switch (o) {
    case 0: case 1: case 2: case 3: { Tok * d = c.rng.chance (1, 12) ? nullptr : p.make ('d', v); Entry e { t, k, nullptr, d, nullptr };
      if (c.rng.chance (3, 4)) { e.kd = style != 1 && c.rng.chance (3, 4) ? kill_key : nullptr; e.dd = d && c.rng.chance (3, 4) ? kill_data : nullptr; }
      auto i = m.find (v); if (i != m.end ()) { drop (i->second, true); c.count ("replacements"); }
      m[v] = e; if (!e.kd && !e.dd && c.rng.chance (1, 2)) axl_hash_insert (h, k, d); else axl_hash_insert_full (h, k, e.kd, d, e.dd);
      c.note ("insert %d", v); verify ("insert"); break; }
    case 4: { auto i = m.find (v); bool had = i != m.end (); if (had) { drop (i->second, true); m.erase (i); } c.note ("remove %d", v); axl_bool r = axl_hash_remove (h, k); CHECK (c, !!r == had, "remove", "removal of key %d reported %d", v, (int) r); verify ("remove"); break; }
    case 5: { auto i = m.find (v); bool had = i != m.end (); if (had) m.erase (i); c.note ("delete %d", v); axl_bool r = axl_hash_delete (h, k); CHECK (c, !!r == had, "remove", "deletion of key %d reported %d", v, (int) r); verify ("delete"); break; }
    case 6: { auto i = m.find (v); bool had = i != m.end (); Entry e {}; if (had) { e = i->second; m.erase (i); } c.note ("deferred %d", v);
      axlPointer ok = (axlPointer) 1, od = (axlPointer) 1; axlDestroyFunc dk = kill_key, dd = kill_data; bool some = had && c.rng.chance (1, 4); bool wk = !some || c.rng.chance (1, 2), wd = !some || c.rng.chance (1, 2), wkd = !some || c.rng.chance (1, 2), wdd = !some || c.rng.chance (1, 2);
      axl_bool r = axl_hash_remove_deferred (h, k, wk ? &ok : NULL, wkd ? &dk : NULL, wd ? &od : NULL, wdd ? &dd : NULL);
      if (some) { // the rest of the pair is for the caller, who does not want it
        CHECK (c, r && (!wk || ok == e.key) && (!wd || od == (axlPointer) e.d) && (!wkd || dk == e.kd) && (!wdd || dd == e.dd), "deferred", "deferred removal of key %d hands back other things than stored when not everything is asked for", v);
        verify ("deferred removal"); if (e.kd) { p.dead (e.k); axl_hash_deferred_cleanup (e.key, e.kd, NULL, NULL); } if (e.dd) { p.dead (e.d); axl_hash_deferred_cleanup (NULL, NULL, e.d, e.dd); } verify ("deferred cleanup"); c.count ("deferred_part"); break; }
      CHECK (c, !!r == had, "remove", "deferred removal of key %d reported %d", v, (int) r);
      if (had) CHECK (c, ok == e.key && od == (axlPointer) e.d && dk == e.kd && dd == e.dd, "deferred", "deferred removal hands back other things than stored for %d", v); else CHECK (c, !ok && !od && !dk && !dd, "deferred", "deferred removal of an absent key hands back something");
      verify ("deferred removal"); if (had) { if (ok && dk) p.dead (e.k); if (od && dd) p.dead (e.d); axl_hash_deferred_cleanup (ok, dk, od, dd); verify ("deferred cleanup"); } c.count ("deferred"); break; }
    default: probe (v, "lookup");
    }
    c.count ("operations"); c.maxi ("items", m.size ()); uint64_t s = 0; for (auto & x : m) s = s * 1099511628211ULL + (uint64_t) x.first; c.state ("key_sets", s);
  }
};
thread_local HashCase * HashCase::cur;
} // namespace

MODE (hash) {
  Pool p (c); int style = (int) c.rng.below (3); HashCase hc { c, p, style, nullptr, {}, 0 }; Rng & r = c.rng;
  axlHashFunc hf; axlEqualFunc ef; const char * hn;
  if (style == 0) { ef = axl_hash_equal_string; if (r.chance (1, 4)) { hf = h_str_const; hn = "length"; } else { hf = axl_hash_string; hn = "string"; } }
  else if (style == 1) { ef = axl_hash_equal_int; switch (r.below (4)) { case 0: hf = h_const; hn = "constant"; break; case 1: hf = h_mod3; hn = "mod 3"; break; case 2: hf = h_high; hn = "high"; break; default: hf = axl_hash_int; hn = "int"; } }
  else { ef = e_tok; if (r.chance (1, 3)) { hf = h_tok_const; hn = "constant"; } else { hf = h_tok; hn = "own"; } }
  int stepn = r.chance (1, 3) ? r.range (1, 3) : r.range (1, 20); hc.range = r.chance (1, 2) ? r.range (1, 8) : r.range (10, 80); bool big = r.chance (1, 60); if (big) hc.range = r.range (100, 400);
  hc.h = r.chance (1, 5) ? axl_hash_new (hf, ef) : axl_hash_new_full (hf, ef, stepn);
  c.note ("hash %s, step %d, keys up to %d", hn, stepn, hc.range); c.count (hn);
  CHECK (c, axl_hash_items (hc.h) == 0 && !axl_hash_exists (hc.h, hc.keyOf (p.make ('k', 1), 1)) && !axl_hash_get (hc.h, hc.keyOf (p.make ('k', 1), 1)), "empty", "a new hash is not empty");
  int n = big ? r.range (300, 900) : r.chance (1, 3) ? r.range (60, 200) : r.range (1, 60);
  for (int i = 0; i < n; i++) {
    hc.step ();
    if (r.chance (1, big ? 60 : 10)) hc.all (hc.h, hc.m, "operation");
    if (r.chance (1, 12)) hc.cursor ();
    if (r.chance (1, 40)) hc.copy ();
  }
  hc.all (hc.h, hc.m, "history"); hc.cursor (); for (int v = style == 1 ? -hc.range : 0; v <= hc.range; v += r.range (1, 3)) hc.probe (v, "history");
  for (auto & x : hc.m) hc.drop (x.second, true);
  axl_hash_free (hc.h); p.settle ("release of the hash");
  c.count ("histories"); if (n > 3) c.distinct (c.trace); if (c.index < 2) c.sample (c.trace);
}

// --- the functions offered for keys
MODE (hashfn) {
  Rng & r = c.rng;
  for (int i = 0; i < 20; i++) {
    Str a, b; int n = r.range (0, 12); for (int k = 0; k < n; k++) a += (char) r.range (1, 255); b = a;
    switch (r.below (4)) { case 0: break; case 1: b += (char) r.range (1, 255); break; case 2: if (!b.empty ()) b[r.below ((uint32_t) b.size ())] ^= (char) (1 << r.below (7)); for (auto & x : b) if (!x) x = 1; break; default: b = b.substr (0, r.below ((uint32_t) b.size () + 1)); }
    char * x = strdup (a.c_str ()), * y = strdup (b.c_str ());
    int e = axl_hash_equal_string (x, y), f = axl_hash_equal_string (y, x); unsigned hx = axl_hash_string (x), hy = axl_hash_string (y);
    int n1 = axl_hash_equal_string (nullptr, x), n2 = axl_hash_equal_string (x, nullptr), n3 = axl_hash_equal_string (nullptr, nullptr);
    free (x); free (y);
    CHECK (c, (e == 0) == (a == b) && (f == 0) == (a == b), "equal", "%s and %s: compared %d and %d", vis (a).c_str (), vis (b).c_str (), e, f);
    if (a == b) CHECK (c, hx == hy, "hash", "equal keys with different hashes");
    CHECK (c, n1 != 0 && n2 != 0 && n3 == 0, "equal-null", "null keys: %d %d %d", n1, n2, n3);
    int p = r.chance (1, 2) ? r.range (-5, 5) : (int) r.u64 (), q = r.chance (1, 2) ? p : (int) r.u64 ();
    CHECK (c, (axl_hash_equal_int (INT_TO_PTR (p), INT_TO_PTR (q)) == 0) == (p == q), "equal", "%d and %d", p, q);
    if (p == q) CHECK (c, axl_hash_int (INT_TO_PTR (p)) == axl_hash_int (INT_TO_PTR (q)), "hash", "equal integers with different hashes");
    c.count ("pairs"); c.trace += a + "|" + b + "|";
  }
  c.distinct (c.trace); if (c.index < 2) c.sample (c.trace);
}

// --- list
namespace {
static int cmp_up (axlPointer a, axlPointer b) { int x = ((Tok *) a)->val, y = ((Tok *) b)->val; return x == y ? 0 : x > y ? -1 : 1; }
static int cmp_down (axlPointer a, axlPointer b) { return cmp_up (b, a); }
static int cmp_same (axlPointer a, axlPointer b) { return ((Tok *) a)->val == ((Tok *) b)->val ? 0 : 1; }
struct ListCase {
  Ctx & c; Pool & p; axlList * l; std::vector<axlPointer> m; axlEqualFunc cmp; int kind; bool destroy; int range;
  // kinds: 0 own ascending, 1 own descending, 2 integers, 3 ordered strings (sorted: only add); 4 always append, 5 pointers, 6 strings, 7 own equality (positional)
  bool sorted () { return kind < 4; }
  axlPointer fresh (Tok ** out = nullptr) { int v = c.rng.range (kind == 2 ? -range : 0, range); if (kind == 2) { if (v == 0) v = 1; if (out) *out = nullptr; return INT_TO_PTR (v); } Tok * t = p.make ('d', v); if (out) *out = t; return kind == 3 || kind == 6 ? (axlPointer) t->text : (axlPointer) t; }
  void gone (axlPointer x, bool destroyed) { if (destroyed && destroy) { Tok * t = p.find (x); if (t) p.dead (t); } }
  int find (axlPointer x) { for (size_t i = 0; i < m.size (); i++) if (cmp (m[i], x) == 0) return (int) i; return -1; }
  int findp (axlPointer x) { for (size_t i = 0; i < m.size (); i++) if (m[i] == x) return (int) i; return -1; }
  void take (int i, bool destroyed) { if (i < 0 || i >= (int) m.size ()) return; gone (m[(size_t) i], destroyed); m.erase (m.begin () + i); }
  void same (axlList * ll, const std::vector<axlPointer> & mm, const char * op) {
    CHECK (c, axl_list_length (ll) == (int) mm.size (), "length", "after %s: length %d, %zu expected", op, axl_list_length (ll), mm.size ());
    CHECK (c, !!axl_list_is_empty (ll) == mm.empty (), "empty", "after %s: emptiness wrong", op);
    CHECK (c, axl_list_get_first (ll) == (mm.empty () ? nullptr : mm[0]) && axl_list_get_last (ll) == (mm.empty () ? nullptr : mm.back ()), "ends", "after %s: first or last element wrong", op);
    axlListCursor * cu = axl_list_cursor_new (ll); size_t i = 0;
    CHECK (c, axl_list_cursor_list (cu) == ll, "cursor", "cursor of another list");
    while (axl_list_cursor_has_item (cu)) { CHECK (c, i < mm.size () && axl_list_cursor_get (cu) == mm[i], "order", "after %s: element %zu is not the expected one", op, i); CHECK (c, !!axl_list_cursor_has_next (cu) == (i + 1 < mm.size ()) && !!axl_list_cursor_has_previous (cu) == (i > 0), "cursor", "after %s: has_next/has_previous wrong at %zu of %zu", op, i, mm.size ()); i++; axl_list_cursor_next (cu); }
    CHECK (c, i == mm.size (), "order", "after %s: forward iteration sees %zu of %zu", op, i, mm.size ());
    axl_list_cursor_last (cu); i = mm.size ();
    while (axl_list_cursor_has_item (cu)) { CHECK (c, i > 0 && axl_list_cursor_get (cu) == mm[i - 1], "order-back", "after %s: backward iteration differs at %zu", op, i); i--; axl_list_cursor_previous (cu); }
    CHECK (c, i == 0, "order-back", "after %s: backward iteration misses %zu elements", op, i);
    axl_list_cursor_first (cu); CHECK (c, axl_list_cursor_get (cu) == (mm.empty () ? nullptr : mm[0]), "cursor", "first of the cursor");
    axl_list_cursor_free (cu); p.settle (op); c.count ("lists_compared");
  }
  static axl_bool is_ptr (axlPointer e, axlPointer d) { auto s = (std::pair<axlPointer, int> *) d; s->second++; return e == s->first; }
  void step () {
    Rng & r = c.rng; const char * op = "?"; Tok * t = nullptr;
    // a cursor that is somewhere while the list changes, and is placed again afterwards
    struct Cur { axlListCursor * x = nullptr; ~Cur () { if (x) axl_list_cursor_free (x); } } kept;
    unsigned o = r.below (20); if (r.chance (1, 4)) { kept.x = axl_list_cursor_new (l); for (int k = r.range (0, 3); k > 0; k--) axl_list_cursor_next (kept.x); } if (r.chance (1, 40)) phase = r.range (-1, 1); if (phase > 0 && o > 7 && o < 16 && r.chance (2, 3)) o = 0; else if (phase < 0 && o < 8 && r.chance (2, 3)) o = 8;
    if (o < 8) {
      axlPointer x = fresh (&t);
      if (sorted ()) { op = "sorted addition"; size_t i = 0; bool dup = find (x) >= 0; if (!dup) { while (i < m.size () && cmp (m[i], x) != -1) i++; m.insert (m.begin () + (long) i, x); } else c.count ("duplicates"); axl_list_add (l, x); }
      else switch (r.below (5)) {
        case 0: op = "prepend"; axl_list_prepend (l, x); m.insert (m.begin (), x); break;
        case 1: { int pos = r.range (-1, (int) m.size () + 1); op = "positional addition"; c.note ("at %d of %zu", pos, m.size ()); axl_list_add_at (l, x, pos); size_t i = pos <= 0 ? 0 : pos >= (int) m.size () ? m.size () : (size_t) pos; m.insert (m.begin () + (long) i, x); break; }
        case 2: if (kind == 4) { op = "addition at the end"; axl_list_add (l, x); m.push_back (x); break; } if (kind == 5) { op = "addition at the front"; axl_list_add (l, x); m.insert (m.begin (), x); break; } /* fallthrough */
        default: op = "append"; axl_list_append (l, x); m.push_back (x); }
    } else if (o < 16) {
      // something stored, something equal to a stored one, or something else
      axlPointer x = m.empty () || r.chance (1, 3) ? fresh (&t) : m[r.below ((uint32_t) m.size ())];
      int pos = r.range (-1, (int) m.size ());
      switch (r.below (10)) {
      case 0: op = "remove"; take (find (x), true); axl_list_remove (l, x); break;
      case 1: op = "unlink"; take (find (x), false); axl_list_unlink (l, x); break;
      case 2: op = "remove by pointer"; take (findp (x), true); axl_list_remove_ptr (l, x); break;
      case 3: op = "unlink by pointer"; take (findp (x), false); axl_list_unlink_ptr (l, x); break;
      case 4: op = "remove at"; c.note ("at %d of %zu", pos, m.size ()); take (pos, true); axl_list_remove_at (l, pos); break;
      case 5: op = "unlink at"; take (pos, false); axl_list_unlink_at (l, pos); break;
      case 6: op = "remove first"; take (0, true); axl_list_remove_first (l); break;
      case 7: op = "unlink first"; take (0, false); axl_list_unlink_first (l); break;
      case 8: op = "remove last"; take ((int) m.size () - 1, true); axl_list_remove_last (l); break;
      default: op = "unlink last"; take ((int) m.size () - 1, false); axl_list_unlink_last (l); }
    } else if (o < 18) {
      op = "lookup"; axlPointer x = m.empty () || r.chance (1, 3) ? fresh (&t) : m[r.below ((uint32_t) m.size ())];
      CHECK (c, !!axl_list_exists (l, x) == (find (x) >= 0), "exists", "existence of an element reported %d", (int) axl_list_exists (l, x));
      if (!m.empty ()) { int i = r.range (0, (int) m.size () - 1); CHECK (c, axl_list_get_nth (l, i) == m[(size_t) i], "nth", "element %d is not the expected one", i); CHECK (c, !!axl_list_exists_at (l, x, i) == (cmp (m[(size_t) i], x) == 0), "exists-at", "existence at %d wrong", i); }
      std::pair<axlPointer, int> s { x, 0 }; axlPointer g = axl_list_lookup (l, is_ptr, &s); int at = findp (x);
      CHECK (c, g == (at >= 0 ? x : nullptr) && s.second == (at >= 0 ? at + 1 : (int) m.size ()), "lookup", "lookup returned the wrong element or made %d calls", s.second);
      if (kind == 6) { Tok q; memset (&q, 0, sizeof q); Tok * z = p.find (x); strcpy (q.text, z->text); int f = find (q.text); CHECK (c, axl_list_lookup (l, axl_list_find_string, q.text) == (f < 0 ? nullptr : m[(size_t) f]), "find-string", "string %s not found where it is", q.text); }
      c.count ("lookups");
    } else if (o < 19) {
      op = "cursor sweep"; axlListCursor * cu = axl_list_cursor_new (l); size_t i = 0; int rate = r.range (1, 4), guard = 0; if (r.chance (1, 3)) { axl_list_cursor_last (cu); i = m.empty () ? 0 : m.size () - 1; }
      while (axl_list_cursor_has_item (cu) && !m.empty () && guard++ < 200) {
        CHECK (c, axl_list_cursor_get (cu) == m[i], "cursor", "cursor is not at the expected element");
        if (r.below (5) < (uint32_t) rate) { bool d = r.chance (1, 2); take ((int) i, d); if (d) axl_list_cursor_remove (cu); else axl_list_cursor_unlink (cu); if (i >= m.size () && i) i--; c.count ("cursor_removals"); CHECK (c, !!axl_list_cursor_has_item (cu) == !m.empty (), "cursor", "cursor lost its place after a removal"); }
        else if (r.chance (1, 5)) { axl_list_cursor_previous (cu); if (i == 0) { CHECK (c, !axl_list_cursor_has_item (cu), "cursor", "something before the first"); break; } i--; }
        else { axl_list_cursor_next (cu); if (++i >= m.size ()) { CHECK (c, !axl_list_cursor_has_item (cu), "cursor", "something after the last"); break; } }
      }
      axl_list_cursor_free (cu);
    } else { if (kept.x) { axl_list_cursor_free (kept.x); kept.x = nullptr; } op = "copy"; copy (); }
    if (kept.x) { bool first = r.chance (1, 2); if (first) axl_list_cursor_first (kept.x); else axl_list_cursor_last (kept.x); CHECK (c, !!axl_list_cursor_has_item (kept.x) == !m.empty () && axl_list_cursor_get (kept.x) == (m.empty () ? nullptr : first ? m[0] : m.back ()), "cursor", "a cursor placed again after %s is not at the %s", op, first ? "first" : "last"); c.count ("cursors_kept"); }
    c.note ("%s, %zu left, last %d", op, m.size (), m.empty () ? 0 : kind == 2 ? PTR_TO_INT (m.back ()) : p.find (m.back ())->val); same (l, m, op); c.count ("operations"); c.maxi ("length", m.size ());
    uint64_t s = (uint64_t) kind; for (auto x : m) { Tok * z = p.find (x); s = s * 1099511628211ULL + (uint64_t) (z ? z->val : PTR_TO_INT (x)); } c.state ("list_states", s);
  }
  static thread_local ListCase * cur;
  static axlPointer dup (axlPointer x) { ListCase * me = cur; if (me->kind == 2) return x; Tok * z = me->p.find (x); Tok * t = me->p.make (z->kind, z->val); return me->kind == 3 || me->kind == 6 ? (axlPointer) t->text : (axlPointer) t; }
  void copy () {
    cur = this; bool deep = c.rng.chance (1, 2); axlList * l2 = axl_list_copy (l, deep ? dup : NULL); std::vector<axlPointer> m2; CHECK (c, l2, "copy", "no copy made");
    axlListCursor * cu = axl_list_cursor_new (l2); for (; axl_list_cursor_has_item (cu); axl_list_cursor_next (cu)) m2.push_back (axl_list_cursor_get (cu)); axl_list_cursor_free (cu);
    CHECK (c, m2.size () == m.size (), "copy", "the copy has %zu elements, the original %zu", m2.size (), m.size ());
    for (size_t i = 0; i < m.size (); i++) { if (!deep || kind == 2) CHECK (c, m2[i] == m[i], "copy", "the copy differs at %zu", i); else { Tok * a = p.find (m[i]), * b = p.find (m2[i]); CHECK (c, b && a != b && a->val == b->val, "copy", "the copy differs at %zu", i); } }
    if (deep && c.rng.chance (1, 2)) { // go on with the copy
      std::swap (l, l2); std::swap (m, m2); if (c.rng.chance (1, 4)) { destroy = false; axl_list_set_destroy_func (l, NULL); for (auto x : m2) { Tok * t = p.find (x); if (t && odestroy) p.dead (t); } axl_list_free (l2); p.settle ("release of the original"); odestroy = false; c.count ("copies"); return; }
    }
    if (deep) for (auto x : m2) gone (x, true);
    axl_list_free (l2); p.settle ("release of a copy"); c.count ("copies");
  }
  bool odestroy; int phase = 0;
};
thread_local ListCase * ListCase::cur;
static void kill_tok (axlPointer x) { Pool::cur->hit (x, 'd'); }
}
MODE (list) {
  Pool p (c); Rng & r = c.rng; int kind = (int) r.below (8); ListCase lc { c, p, nullptr, {}, nullptr, kind, kind != 2 && r.chance (3, 4), r.chance (1, 2) ? r.range (1, 9) : r.range (20, 90), false }; lc.odestroy = lc.destroy;
  static const axlEqualFunc fs[] = { cmp_up, cmp_down, axl_list_equal_int, axl_list_order_string, axl_list_always_return_1, axl_list_equal_ptr, axl_list_equal_string, cmp_same };
  static const char * names[] = { "ascending", "descending", "integers", "ordered strings", "appending", "pointers", "strings", "own equality" };
  lc.cmp = fs[kind]; lc.l = axl_list_new (lc.cmp, lc.destroy ? kill_tok : NULL); c.note ("list of %s%s", names[kind], lc.destroy ? ", owning" : ""); c.count (names[kind]);
  int n = r.chance (1, 60) ? r.range (150, 350) : r.chance (1, 4) ? r.range (40, 120) : r.range (1, 40); if (n > 149) lc.range = 400; for (int i = 0; i < n; i++) lc.step ();
  if (kind == 3) for (size_t i = 1; i < lc.m.size (); i++) CHECK (c, strcmp ((char *) axl_list_get_nth (lc.l, (int) i - 1), (char *) axl_list_get_nth (lc.l, (int) i)) < 0, "sorted", "strings are not in order");
  for (auto x : lc.m) lc.gone (x, true);
  axl_list_free (lc.l); p.settle ("release of the list"); c.count ("histories"); if (n > 3) c.distinct (c.trace); if (c.index < 2) c.sample (c.trace);
}

// --- stacks
MODE (stack) {
  Pool p (c); Rng & r = c.rng; bool own = r.chance (2, 3); axlStack * s = axl_stack_new (own ? kill_tok : NULL); std::vector<Tok *> m; int n = r.chance (1, 40) ? r.range (400, 900) : r.chance (1, 4) ? r.range (60, 300) : r.range (1, 60), bias = r.range (1, 4);
  struct S { Ctx * c; std::vector<Tok *> * m; int at, stop; axlPointer a2, a3; };
  struct F { static axl_bool see (axlPointer x, S * s) { CHECK (*s->c, s->at < (int) s->m->size () && x == (*s->m)[s->m->size () - 1 - (size_t) s->at], "foreach", "iteration does not go from the top down"); return ++s->at == s->stop; }
    static axl_bool f2 (axlPointer x, axlPointer a, axlPointer b) { S * s = (S *) a; CHECK (*s->c, b == s->a2, "foreach", "user data not handed over"); return see (x, s); }
    static axl_bool f3 (axlPointer x, axlPointer a, axlPointer b, axlPointer d) { S * s = (S *) a; CHECK (*s->c, b == s->a2 && d == s->a3, "foreach", "user data not handed over"); return see (x, s); } };
  for (int i = 0; i < n; i++) {
    if (r.chance (1, 60)) bias = r.range (0, 6);      // grows and shrinks for a while
    if (r.below (6) < (uint32_t) bias) { Tok * t = p.make ('d', i); axl_stack_push (s, t); m.push_back (t); c.trace += "+"; }
    else if (r.chance (3, 5)) { axlPointer x = axl_stack_pop (s); CHECK (c, x == (m.empty () ? nullptr : (axlPointer) m.back ()), "pop", "popped something else than the last pushed"); if (!m.empty ()) m.pop_back (); c.trace += "-"; c.count ("pops"); }
    else { S st { &c, &m, 0, m.empty () || r.chance (1, 2) ? -1 : r.range (1, (int) m.size ()), &p, &st }; axl_bool done = r.chance (1, 2) ? axl_stack_foreach (s, F::f2, &st, st.a2) : axl_stack_foreach3 (s, F::f3, &st, st.a2, st.a3); CHECK (c, !!done == (st.stop < 0) && st.at == (st.stop < 0 ? (int) m.size () : st.stop), "foreach", "iteration saw %d of %zu", st.at, m.size ()); c.count ("iterations"); }
    CHECK (c, axl_stack_size (s) == (int) m.size () && !!axl_stack_is_empty (s) == m.empty (), "size", "size %d, %zu expected", axl_stack_size (s), m.size ());
    CHECK (c, axl_stack_peek (s) == (m.empty () ? nullptr : (axlPointer) m.back ()), "peek", "the top is not the last pushed");
    p.settle ("operation"); c.count ("operations"); c.maxi ("size", m.size ());
  }
  if (own) for (auto t : m) p.dead (t); axl_stack_free (s); p.settle ("release of the stack");
  // truth values
  axlBinaryStack * b = axl_binary_stack_new (); std::vector<bool> v; n = r.chance (1, 40) ? r.range (400, 900) : r.chance (1, 4) ? r.range (60, 400) : r.range (1, 60); bool run = true; bias = r.range (1, 4);
  for (int i = 0; i < n; i++) {
    if (r.chance (1, 4)) run = !run;
    if (r.chance (1, 60)) bias = r.range (0, 6);
    if (r.below (6) < (uint32_t) bias) { axl_binary_stack_push (b, run); v.push_back (run); c.trace += run ? "1" : "0"; }
    else if (!v.empty () && r.chance (1, 3)) { axl_binary_stack_push_the_same (b); v.push_back (v.back ()); c.trace += "="; }
    else { axl_bool x = axl_binary_stack_pop (b); CHECK (c, !!x == (v.empty () ? false : (bool) v.back ()), "bpop", "popped %d", (int) x); if (!v.empty ()) v.pop_back (); c.trace += "<"; c.count ("binary_pops"); }
    CHECK (c, axl_binary_stack_size (b) == (int) v.size () && !!axl_binary_stack_is_empty (b) == v.empty () && !!axl_binary_stack_peek (b) == (v.empty () ? false : (bool) v.back ()), "binary", "stack of truth values: size %d, %zu expected, or wrong top", axl_binary_stack_size (b), v.size ());
    c.count ("binary_operations"); c.maxi ("binary_size", v.size ());
  }
  bool drain = r.chance (1, 2); while (drain && !v.empty ()) { CHECK (c, !!axl_binary_stack_pop (b) == v.back (), "bpop", "wrong value when emptying"); v.pop_back (); } if (drain) CHECK (c, axl_binary_stack_is_empty (b) && !axl_binary_stack_pop (b), "binary", "not empty when emptied");
  axl_binary_stack_free (b); c.distinct (c.trace); c.count ("histories"); if (c.index < 2) c.sample (c.trace);
}

// --- pools
MODE (pool) {
  Rng & r = c.rng;
  { // typed
    int size = r.chance (1, 3) ? 8 * r.range (1, 20) : r.chance (1, 2) ? r.range (1, 300) : r.range (250, 3000); axlFactory * f = axl_factory_create (size); CHECK (c, f, "create", "no pool for size %d", size); c.note ("pieces of %d", size);
    std::vector<std::pair<char *, unsigned char>> m; std::set<char *> out, known; int n = r.chance (1, 4) ? r.range (100, 600) : r.range (1, 100); int rel = r.range (0, 4); if (size < 100 && r.chance (1, 400)) n = r.range (3000, 40000);
    auto ok = [&] (std::pair<char *, unsigned char> & x) { for (int i = 0; i < size; i++) CHECK (c, (unsigned char) x.first[i] == (unsigned char) (x.second + i * 7), "overlap", "a piece of %d bytes changed at %d while in use", size, i); };
    for (int i = 0; i < n; i++) {
      if (r.chance (1, 60)) rel = r.range (0, 9);
      if (!m.empty () && r.below (10) < (uint32_t) rel) { size_t k = r.below ((uint32_t) m.size ()); ok (m[k]); out.erase (m[k].first); axl_factory_release_spare (f, m[k].first); m.erase (m.begin () + (long) k); c.count ("releases"); c.trace += fmt ("-%zu ", k); continue; }
      char * x = (char *) axl_factory_get (f); CHECK (c, x && out.insert (x).second, "twice", "a piece in use is given again");
      if (size % 8 == 0) CHECK (c, (uintptr_t) x % 8 == 0, "aligned", "a piece of %d bytes is not aligned", size);
      auto next = out.upper_bound (x); if (next != out.end ()) CHECK (c, *next - x >= size, "overlap", "pieces overlap"); auto prev = out.find (x); if (prev != out.begin ()) { --prev; CHECK (c, x - *prev >= size, "overlap", "pieces overlap"); }
      if (known.insert (x).second) { for (int j = 0; j < size; j++) CHECK (c, x[j] == 0, "zero", "a new piece is not empty"); } else c.count ("reused");
      std::pair<char *, unsigned char> e { x, (unsigned char) r.below (256) }; for (int j = 0; j < size; j++) x[j] = (char) (e.second + j * 7); m.push_back (e); c.count ("pieces"); c.trace += "+";
    }
    for (auto & x : m) ok (x); c.maxi ("in_use", m.size ()); axl_factory_free (f);
  }
  { // strings
    axlStrFactory * f = axl_string_factory_create (); std::vector<std::pair<char *, Str>> m; int n = r.chance (1, 4) ? r.range (40, 300) : r.range (1, 40); int scale = (int) r.below (4); 
    for (int i = 0; i < n; i++) { int size = scale == 0 ? r.range (0, 12) : scale == 1 ? r.range (0, 300) : scale == 2 ? r.range (900, 1100) : r.range (0, 5000); if (r.chance (1, 10)) size = 1024 * r.range (1, 3) + r.range (-3, 3); if (r.chance (1, 1500)) size = r.chance (1, 2) ? r.range (32700, 70000) : 65536 + r.range (-3, 3);
      char * x = axl_string_factory_alloc (f, size); CHECK (c, x && x[size] == 0, "terminator", "a string of %d bytes is not terminated", size); Str v ((size_t) size, (char) ('a' + i % 26)); if (size) v[0] = (char) ('A' + i % 26); memcpy (x, v.c_str (), (size_t) size + 1); m.push_back ({ x, v }); c.count ("strings"); c.trace += fmt ("s%d ", size); c.maxi ("string_size", (uint64_t) size); }
    for (auto & x : m) CHECK (c, memcmp (x.first, x.second.c_str (), x.second.size () + 1) == 0, "overlap", "a string of %zu bytes changed while in use", x.second.size ());
    axl_string_factory_free (f);
  }
  c.distinct (c.trace); c.count ("histories"); if (c.index < 2) c.sample (c.trace);
}
