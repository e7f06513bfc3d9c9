// The same promises with much stored: sizes around the powers of two up to some 70000, judged at the end and not after every call.
#include "model.hpp"
#include <unistd.h>

#if defined (__has_feature)
#if __has_feature (address_sanitizer)
#define GROWS 5000      // its realloc always copies
#endif
#endif
#ifndef GROWS
#define GROWS 70000
#endif

namespace {
static int big (Rng & r, int cap) { static const int edge[] = { 127, 255, 511, 1023, 2047, 4095, 8191, 16383, 32767, 65535 }; int n; do n = r.chance (1, 4) ? r.range (100, 70000) : edge[r.below (10)] + r.range (-3, 6); while (n > cap); return n; }
static const char * size_of (int n) { return n > 65535 ? "over_65535" : n > 32767 ? "over_32767" : n > 4095 ? "over_4095" : n > 255 ? "over_255" : "small"; }
static thread_local std::vector<unsigned char> * t_dead; static thread_local int t_extra;
static void kill_number (axlPointer p) { size_t i = (size_t) PTR_TO_INT (p); if (!t_dead || i >= t_dead->size () || (*t_dead)[i]++) t_extra++; }
static axl_bool see (axlPointer key, axlPointer data, axlPointer user) { auto & v = *(std::vector<int> *) user; size_t i = (size_t) PTR_TO_INT (data) ; if (i < v.size ()) v[i]++; else v[0] += 1000; return axl_false; }
static Str longer (Rng & r, int n, bool escapes) { static const char * p[] = { "a", "bc", "x y", "\xc3\xa9", "0123456789", "\xe2\x82\xac", "-z", "q\nq" }; static const char * e[] = { "&amp;", "&lt;", "&gt;", "&quot;", "&apos;", "&#65;" }; Str s = "L"; int every = r.range (1, 400); while ((int) s.size () < n - 1) { if (escapes && r.chance (1, every)) s += e[r.below (6)]; else s += p[r.below (8)]; } return s + "E"; }
}

MODE (bighash) {
  Rng & r = c.rng; int n = big (r, 70000); bool text = r.chance (1, 2); int step = r.pick (std::vector<int> { 1, 10, 10, 100, 1000 }); if (step == 1 && n > 5000) step = 10; std::vector<unsigned char> dead ((size_t) n * 2 + 1); t_dead = &dead; t_extra = 0; std::vector<Str> names; if (text) for (int i = 0; i < n; i++) names.push_back (fmt ("%s%d", r.chance (1, 2) ? "key" : "k-", i)); auto key = [&] (int i) { return text ? (axlPointer) names[(size_t) i].c_str () : INT_TO_PTR (i * 3 + 1); };
  std::vector<int> order, val ((size_t) n, 0); for (int i = 0; i < n; i++) order.push_back (i); for (int i = n - 1; i > 0; i--) std::swap (order[(size_t) i], order[r.below ((uint32_t) i + 1)]);
  c.note ("%d entries, %s keys, step %d", n, text ? "string" : "number", step); axlHash * h = text ? axl_hash_new_full (axl_hash_string, axl_hash_equal_string, step) : axl_hash_new_full (axl_hash_int, axl_hash_equal_int, step); std::unique_ptr<axlHash, void (*) (axlHash *)> hold (h, axl_hash_free); size_t alive = 0, next = 1; std::vector<unsigned char> gone ((size_t) n * 2 + 1);
  auto put = [&] (int i) { if (next >= dead.size ()) return; int & v = val[(size_t) i]; if (v) gone[(size_t) v] = 1; else alive++; v = (int) next++; axl_hash_insert_full (h, key (i), NULL, INT_TO_PTR (v), kill_number); };
  auto judge = [&] (const char * when) { CHECK (c, axl_hash_items (h) == (int) alive, "items", "%s: %d items reported, %zu stored", when, axl_hash_items (h), alive); CHECK (c, axl_hash_capacity (h) > 0, "capacity", "%s: capacity %d", when, axl_hash_capacity (h)); for (int i = 0; i < n; i++) { CHECK (c, axl_hash_get (h, key (i)) == INT_TO_PTR (val[(size_t) i]), "get", "%s: entry %d of %d is wrong or lost", when, i, n); } for (int i = 0; i < 50; i++) { int k = (int) r.below ((uint32_t) n); CHECK (c, !!axl_hash_exists (h, key (k)) == !!val[(size_t) k], "exists", "%s: entry %d", when, k); }
    CHECK (c, !t_extra, "destroy", "%s: an item destroyed twice, or that was not stored", when); for (size_t i = 0; i < dead.size (); i++) CHECK (c, dead[i] == gone[i], "destroy", "%s: item %zu %s", when, i, dead[i] ? "destroyed while stored" : "not destroyed"); c.count ("judged"); };
  for (int i : order) put (i); judge ("filled"); for (int k = r.range (0, n / 2); k > 0; k--) put ((int) r.below ((uint32_t) n)); judge ("replaced");
  std::vector<int> seen (dead.size (), 0); axl_hash_foreach (h, see, &seen); for (size_t i = 1; i < seen.size (); i++) { bool in = i < next && !gone[i]; CHECK (c, seen[i] == (in ? 1 : 0), "foreach", "item %zu visited %d times", i, seen[i]); } CHECK (c, !seen[0], "foreach", "an item that was not stored is visited");
  { axlHashCursor * k = axl_hash_cursor_new (h); size_t m = 0; std::fill (seen.begin (), seen.end (), 0); for (axl_hash_cursor_first (k); axl_hash_cursor_has_item (k) && m <= alive; axl_hash_cursor_next (k)) { see (NULL, axl_hash_cursor_get_value (k), &seen); m++; } axl_hash_cursor_free (k); CHECK (c, m == alive, "cursor", "a cursor visits %zu entries of %zu", m, alive); for (size_t i = 1; i < seen.size (); i++) CHECK (c, seen[i] == (i < next && !gone[i] ? 1 : 0), "cursor", "item %zu visited %d times", i, seen[i]); }
  int drop = r.chance (1, 3) ? n : r.range (0, n); for (int i = n - 1; i > 0; i--) std::swap (order[(size_t) i], order[r.below ((uint32_t) i + 1)]); for (int i = 0; i < drop; i++) { int k = order[(size_t) i]; bool was = val[(size_t) k]; bool del = r.chance (1, 4); axl_bool ok = del ? axl_hash_delete (h, key (k)) : axl_hash_remove (h, key (k)); CHECK (c, !!ok == was, "remove", "removal of entry %d reports %d", k, (int) ok); if (was) { if (!del) gone[(size_t) val[(size_t) k]] = 1; alive--; } val[(size_t) k] = 0; } judge ("emptied");
  for (int k = r.range (0, n / 4); k > 0; k--) put ((int) r.below ((uint32_t) n)); judge ("refilled"); c.count (size_of (n)); c.maxi ("entries_max", (uint64_t) n); c.distinct ((uint64_t) n << 8 | (uint64_t) text << 4 | (uint64_t) step % 7);
  for (int v : val) if (v) gone[(size_t) v] = 1; hold.reset (); CHECK (c, !t_extra, "destroy", "released: an item destroyed twice"); for (size_t i = 0; i < dead.size (); i++) CHECK (c, dead[i] == gone[i], "destroy", "released: item %zu destroyed %d times", i, dead[i]); t_dead = nullptr;
  if (c.index < 3) c.sample (fmt ("%d entries, %s keys, step %d", n, text ? "string" : "number", step));
}

MODE (biglist) {
  Rng & r = c.rng; int n = big (r, GROWS); std::vector<unsigned char> dead ((size_t) n * 2 + 1), gone ((size_t) n * 2 + 1); t_dead = &dead; t_extra = 0; c.note ("%d items", n); axlList * l = axl_list_new (r.chance (1, 2) ? axl_list_always_return_1 : axl_list_equal_ptr, kill_number); std::unique_ptr<axlList, void (*) (axlList *)> hold (l, axl_list_free); std::vector<int> m, back; int next = 1;
  bool front = r.chance (1, 4); for (int i = 0; i < n; i++) { if (front) { axl_list_prepend (l, INT_TO_PTR (next)); } else axl_list_append (l, INT_TO_PTR (next)); m.push_back (next++); } if (front) std::reverse (m.begin (), m.end ());
  auto judge = [&] (const char * when) { CHECK (c, axl_list_length (l) == (int) m.size (), "length", "%s: length %d of %zu", when, axl_list_length (l), m.size ()); CHECK (c, !!axl_list_is_empty (l) == m.empty (), "length", "%s: emptiness", when); if (!m.empty ()) { CHECK (c, axl_list_get_first (l) == INT_TO_PTR (m.front ()) && axl_list_get_last (l) == INT_TO_PTR (m.back ()), "ends", "%s: the ends differ", when); for (int i = 0; i < 6; i++) { int at = r.chance (1, 4) ? (int) m.size () - 1 - (int) r.below ((uint32_t) std::min (m.size (), (size_t) 3)) : (int) r.below ((uint32_t) m.size ()); CHECK (c, axl_list_get_nth (l, at) == INT_TO_PTR (m[(size_t) at]), "nth", "%s: item %d of %zu differs", when, at, m.size ()); } CHECK (c, !axl_list_get_nth (l, (int) m.size ()), "nth", "%s: an item beyond the end", when); }
    axlListCursor * k = axl_list_cursor_new (l); size_t i = 0; bool ok = true; for (axl_list_cursor_first (k); axl_list_cursor_has_item (k) && i < m.size (); axl_list_cursor_next (k)) if (axl_list_cursor_get (k) != INT_TO_PTR (m[i++])) ok = false; bool rest = axl_list_cursor_has_item (k); size_t j = m.size (); for (axl_list_cursor_last (k); axl_list_cursor_has_item (k) && j > 0; axl_list_cursor_previous (k)) if (axl_list_cursor_get (k) != INT_TO_PTR (m[--j])) ok = false; axl_list_cursor_free (k); CHECK (c, ok && !rest && i == m.size () && j == 0, "cursor", "%s: a cursor does not see the %zu items in order (%zu, %zu)", when, m.size (), i, j);
    CHECK (c, !t_extra, "destroy", "%s: an item destroyed twice, or that was not stored", when); for (size_t q = 0; q < dead.size (); q++) CHECK (c, dead[q] == gone[q], "destroy", "%s: item %zu destroyed %d times", when, q, dead[q]); c.count ("judged"); };
  judge ("filled"); { axlList * cp = axl_list_copy (l, NULL); CHECK (c, cp && axl_list_length (cp) == (int) m.size (), "copy", "copy of %zu items has %d", m.size (), axl_list_length (cp)); axlListCursor * k = axl_list_cursor_new (cp); size_t i = 0; for (axl_list_cursor_first (k); axl_list_cursor_has_item (k) && i < m.size () && axl_list_cursor_get (k) == INT_TO_PTR (m[i]); axl_list_cursor_next (k)) i++; axl_list_cursor_free (k); axl_list_set_destroy_func (cp, NULL); axl_list_free (cp); CHECK (c, i == m.size (), "copy", "the copy differs at %zu", i); }
  for (int k = r.range (0, 12); k > 0 && !m.empty (); k--) { int at = (int) r.below ((uint32_t) m.size ()); switch (r.below (5)) { case 0: axl_list_remove_at (l, at); gone[(size_t) m[(size_t) at]] = 1; m.erase (m.begin () + at); break; case 1: axl_list_unlink_at (l, at); m.erase (m.begin () + at); break; case 2: if (next < (int) dead.size ()) { axl_list_add_at (l, INT_TO_PTR (next), at); m.insert (m.begin () + at, next++); } break; case 3: axl_list_remove_ptr (l, INT_TO_PTR (m[(size_t) at])); gone[(size_t) m[(size_t) at]] = 1; m.erase (m.begin () + at); break; default: axl_list_unlink_ptr (l, INT_TO_PTR (m[(size_t) at])); m.erase (m.begin () + at); } } judge ("some removed");
  { axlListCursor * k = axl_list_cursor_new (l); axl_list_cursor_first (k); std::vector<int> left; int one = r.range (1, 5); size_t i = 0; while (axl_list_cursor_has_item (k) && i < m.size ()) { if (r.chance (1, one)) { if (r.chance (1, 2)) { gone[(size_t) m[i]] = 1; axl_list_cursor_remove (k); } else axl_list_cursor_unlink (k); } else { left.push_back (m[i]); axl_list_cursor_next (k); } i++; } axl_list_cursor_free (k); CHECK (c, i == m.size (), "cursor", "a removing cursor sees %zu items of %zu", i, m.size ()); m = left; } judge ("cursor removed");
  for (int k = r.range (0, n / 2); k > 0 && next < (int) dead.size (); k--) { axl_list_append (l, INT_TO_PTR (next)); m.push_back (next++); } judge ("refilled"); int drop = r.chance (1, 2) ? (int) m.size () : r.range (0, (int) m.size ()); for (; drop > 0; drop--) { if (r.chance (1, 2)) { gone[(size_t) m.back ()] = 1; m.pop_back (); axl_list_remove_last (l); } else { if (m.size () > 5000 && r.chance (9, 10)) { axl_list_unlink_last (l); m.pop_back (); } else { gone[(size_t) m.front ()] = 1; m.erase (m.begin ()); axl_list_remove_first (l); } } } judge ("taken from the ends");
  for (int v : m) gone[(size_t) v] = 1; hold.reset (); CHECK (c, !t_extra, "destroy", "released: an item destroyed twice"); for (size_t q = 0; q < dead.size (); q++) CHECK (c, dead[q] == gone[q], "destroy", "released: item %zu destroyed %d times", q, dead[q]); t_dead = nullptr; c.count (size_of (n)); c.maxi ("items_max", (uint64_t) n); c.distinct ((uint64_t) n << 1 | front); if (c.index < 3) c.sample (fmt ("%d items", n));
}

MODE (bigstack) {
  Rng & r = c.rng; int n = big (r, GROWS); c.note ("%d items", n); std::vector<unsigned char> dead ((size_t) n * 2 + 1); t_dead = &dead; t_extra = 0; axlStack * s = axl_stack_new (kill_number); std::unique_ptr<axlStack, void (*) (axlStack *)> hold (s, axl_stack_free); std::vector<int> m; int next = 1; std::vector<unsigned char> gone (dead.size ());
  for (int phase = r.range (1, 4); phase > 0; phase--) { int up = phase == 1 ? n : r.range (0, n / 2); while ((int) m.size () < up && next < (int) dead.size ()) { axl_stack_push (s, INT_TO_PTR (next)); m.push_back (next++); } CHECK (c, axl_stack_size (s) == (int) m.size (), "size", "size %d of %zu", axl_stack_size (s), m.size ()); int down = r.range (0, (int) m.size ()); for (; down > 0; down--) { CHECK (c, axl_stack_peek (s) == INT_TO_PTR (m.back ()), "peek", "the top of %zu items differs", m.size ()); CHECK (c, axl_stack_pop (s) == INT_TO_PTR (m.back ()), "pop", "the item taken from %zu differs", m.size ()); m.pop_back (); } CHECK (c, axl_stack_size (s) == (int) m.size () && !!axl_stack_is_empty (s) == m.empty (), "size", "size %d of %zu after taking", axl_stack_size (s), m.size ()); }
  for (int v : m) gone[(size_t) v] = 1; hold.reset (); CHECK (c, !t_extra, "destroy", "an item destroyed twice"); for (size_t q = 0; q < dead.size (); q++) CHECK (c, dead[q] == gone[q], "destroy", "item %zu destroyed %d times", q, dead[q]); t_dead = nullptr;
  axlBinaryStack * b = axl_binary_stack_new (); std::unique_ptr<axlBinaryStack, void (*) (axlBinaryStack *)> hb (b, axl_binary_stack_free); std::vector<bool> v; int run = r.pick (std::vector<int> { 1, 300, 5000, 70000, 70000 }); bool st = r.chance (1, 2); for (int i = 0, left = r.range (1, run); i < n; i++, left--) { if (!left) { st = !st; left = r.range (1, run); } if (!v.empty () && v.back () == st && r.chance (1, 3)) axl_binary_stack_push_the_same (b); else axl_binary_stack_push (b, st); v.push_back (st); }
  CHECK (c, axl_binary_stack_size (b) == n, "binary-size", "size %d of %d", axl_binary_stack_size (b), n); while (!v.empty ()) { CHECK (c, !!axl_binary_stack_peek (b) == v.back () && !!axl_binary_stack_pop (b) == v.back (), "binary", "the top of %zu values differs", v.size ()); v.pop_back (); if (r.chance (1, 500)) CHECK (c, axl_binary_stack_size (b) == (int) v.size (), "binary-size", "size %d of %zu", axl_binary_stack_size (b), v.size ()); } CHECK (c, axl_binary_stack_is_empty (b), "binary-size", "not empty after taking all");
  c.count (size_of (n)); c.maxi ("items_max", (uint64_t) n); c.distinct ((uint64_t) n << 3 | (uint64_t) run % 7); if (c.index < 3) c.sample (fmt ("%d items", n));
}

MODE (bigattrs) {
  Rng & r = c.rng; int n = big (r, 40000); c.note ("%d attributes", n); axlNode * node = axl_node_create ("n"); std::unique_ptr<axlNode, void (*) (axlNode *)> hold (node, axl_node_free); std::vector<Str> val ((size_t) n); std::vector<int> order; for (int i = 0; i < n; i++) order.push_back (i); for (int i = n - 1; i > 0; i--) std::swap (order[(size_t) i], order[r.below ((uint32_t) i + 1)]); auto name = [&] (int i) { return fmt ("%c%d", i % 5 ? 'a' : 'B', i); }; int count = 0;
  for (int i : order) { val[(size_t) i] = fmt ("v%d", (int) r.below (1000)); if (r.chance (1, 2)) axl_node_set_attribute (node, name (i).c_str (), val[(size_t) i].c_str ()); else axl_node_set_attribute_ref (node, axl_strdup (name (i).c_str ()), axl_strdup (val[(size_t) i].c_str ())); count++; }
  auto judge = [&] (axlNode * x, const char * when) { CHECK (c, axl_node_num_attributes (x) == count, "number", "%s: %d attributes reported of %d", when, axl_node_num_attributes (x), count); for (int i = 0; i < n; i++) { const char * v = axl_node_get_attribute_value (x, name (i).c_str ()); CHECK (c, val[(size_t) i].empty () ? !v : v && val[(size_t) i] == v, "value", "%s: attribute %d of %d differs: %s", when, i, n, v ? v : "(none)"); if (i % 64 == 0) CHECK (c, !!axl_node_has_attribute (x, name (i).c_str ()) == !val[(size_t) i].empty (), "has", "%s: attribute %d", when, i); }
    axlAttrCursor * k = axl_node_attr_cursor_new (x); std::set<Str> seen; int m = 0; for (axl_node_attr_cursor_first (k); axl_node_attr_cursor_has_item (k) && m <= count; axl_node_attr_cursor_next (k)) { const char * q = axl_node_attr_cursor_get_key (k), * v = axl_node_attr_cursor_get_value (k); int i = q ? atoi (q + 1) : -1; CHECK (c, i >= 0 && i < n && name (i) == q && v && val[(size_t) i] == v && seen.insert (q).second, "cursor", "%s: the cursor shows %s=%s", when, q ? q : "(none)", v ? v : "(none)"); m++; } axl_node_attr_cursor_free (k); CHECK (c, m == count, "cursor", "%s: the cursor visits %d attributes of %d", when, m, count); c.count ("judged"); };
  judge (node, "set"); { axlNode * cp = axl_node_copy (node, axl_true, r.chance (1, 2)); CHECK (c, cp, "copy", "no copy"); std::unique_ptr<axlNode, void (*) (axlNode *)> hc (cp, axl_node_free); judge (cp, "copy"); axlError * e = nullptr; CHECK (c, axl_node_are_equal (node, cp), "equal", "the copy is not equal"); int k = (int) r.below ((uint32_t) n); axl_node_remove_attribute (cp, name (k).c_str ()); CHECK (c, !axl_node_are_equal (node, cp), "equal", "equal with one attribute less"); axl_node_set_attribute (cp, name (k).c_str (), "w"); CHECK (c, !axl_node_are_equal (node, cp), "equal", "equal with another value"); err_take (e); }
  for (int k = r.range (0, 40); k > 0; k--) { int i = (int) r.below ((uint32_t) n); if (!val[(size_t) i].empty () && r.chance (2, 3)) { axl_node_remove_attribute (node, name (i).c_str ()); val[(size_t) i].clear (); count--; } else if (val[(size_t) i].empty ()) { axl_node_set_attribute (node, name (i).c_str (), "again"); val[(size_t) i] = "again"; count++; } } judge (node, "some removed");
  { axlDoc * d = axl_doc_create (NULL, NULL, axl_true); DocHold h (d); axl_doc_set_root (d, hold.release ()); char * t = nullptr; int size = 0; CHECK (c, axl_doc_dump (d, &t, &size) && t && (int) strlen (t) == size, "dump", "dump of %d bytes where %d are reported", t ? (int) strlen (t) : -1, size); Str x (t); axl_free (t); axlError * e = nullptr; DocHold h2 (parse_mem (x, &e)); Str em = err_take (e); CHECK (c, h2.d, "dump", "the dump is rejected: %s", em.c_str ()); judge (axl_doc_get_root (h2.d), "parsed again"); axlDoc * dd = h2.d; CHECK (c, axl_doc_are_equal (d, dd), "equal", "the document parsed again is not equal"); }
  c.count (size_of (n)); c.maxi ("attributes_max", (uint64_t) n); c.distinct ((uint64_t) n); if (c.index < 3) c.sample (fmt ("%d attributes", n));
}

MODE (bigtree) {
  Rng & r = c.rng; int n = big (r, GROWS == 5000 ? 9000 : 70000); bool deep = r.chance (1, 4); if (deep && n > 3000) n = 200 + n % 2800; c.note ("%d %s", n, deep ? "levels" : "children"); static const char * names[] = { "a", "b", "cc" }; std::vector<int> kind; Str x = "<r>"; bool api = !deep && r.chance (1, 2); axlDoc * d; int pre = r.chance (1, 3) ? r.range (0, n) : -1;
  for (int i = 0; i < n; i++) kind.push_back ((int) r.below (3));
  if (deep) { for (int i = 0; i < n; i++) { x += Str ("<") + names[kind[(size_t) i]] + (i == pre ? " xml:space='preserve'" : "") + ">"; if (pre >= 0 && i >= pre) x += " "; } x += "t"; for (int i = n - 1; i >= 0; i--) x += Str ("</") + names[kind[(size_t) i]] + ">"; } else for (int i = 0; i < n; i++) { x += Str ("<") + names[kind[(size_t) i]] + "/>"; if (r.chance (1, 50)) x += "text"; } x += "</r>";
  axlError * e = nullptr; if (!api) { d = parse_mem (x, &e); } else { d = axl_doc_create (NULL, NULL, axl_true); axlNode * root = axl_node_create ("r"); axl_doc_set_root (d, root); for (int i = 0; i < n; i++) axl_node_set_child (root, axl_node_create (names[kind[(size_t) i]])); } Str em = err_take (e); DocHold h (d); CHECK (c, d, "rejected", "rejected: %s", em.c_str ());
  auto judge = [&] (axlDoc * doc, const char * when) { axlNode * root = axl_doc_get_root (doc); if (deep) { axlNode * k = root; for (int i = 0; i < n; i++) { axlNode * up = k; k = axl_node_get_first_child (k); CHECK (c, k && axl_node_get_parent (k) == up && axl_cmp (axl_node_get_name (k), names[kind[(size_t) i]]) && axl_node_get_child_num (up) == 1, "depth", "%s: level %d of %d differs", when, i, n); } int sz = 0; const char * t = axl_node_get_content (k, &sz); CHECK (c, t && !strcmp (t, pre >= 0 && pre < n ? " t" : "t"), "depth", "%s: content of the last level", when); return; }
    CHECK (c, axl_node_get_child_num (root) == n, "number", "%s: %d children reported of %d", when, axl_node_get_child_num (root), n); int i = 0; axlNode * k, * last = nullptr; int called[3] = { 0, 0, 0 }; for (k = axl_node_get_first_child (root); k && i < n; k = axl_node_get_next (k)) { CHECK (c, axl_cmp (axl_node_get_name (k), names[kind[(size_t) i]]) && axl_node_get_previous (k) == last && axl_node_get_parent (k) == root, "order", "%s: child %d of %d differs", when, i, n); called[kind[(size_t) i]]++; last = k; i++; } CHECK (c, i == n && !k && axl_node_get_last_child (root) == last, "order", "%s: %d children walked of %d", when, i, n);
    for (int q = 0; q < 3; q++) { int m = 0; for (k = axl_node_get_child_called (root, names[q]); k && m <= n; k = axl_node_get_next_called (k, names[q])) m++; CHECK (c, m == called[q], "called", "%s: %d children called %s of %d", when, m, names[q], called[q]); } for (int q = 0; q < 5; q++) { int at = r.chance (1, 3) ? n - 1 - (int) r.below (3) : (int) r.below ((uint32_t) n); k = axl_node_get_child_nth (root, at); CHECK (c, k && axl_cmp (axl_node_get_name (k), names[kind[(size_t) at]]), "nth", "%s: child %d of %d differs", when, at, n); axlNode * w = axl_node_get_first_child (root); for (int z = 0; z < at; z++) w = axl_node_get_next (w); CHECK (c, w == k, "nth", "%s: child %d of %d is another", when, at, n); } CHECK (c, !axl_node_get_child_nth (root, n), "nth", "%s: a child beyond the last", when);
    axlList * l = axl_node_get_childs (root); CHECK (c, l && axl_list_length (l) == n, "list", "%s: list of %d children of %d", when, axl_list_length (l), n); axl_list_free (l); int visited = 0; axl_doc_iterate (doc, DEEP_ITERATION, [] (axlNode *, axlNode *, axlDoc *, axl_bool *, axlPointer p) -> axl_bool { ++*(int *) p; return axl_true; }, &visited); CHECK (c, visited == n + 1, "iterate", "%s: %d nodes visited of %d", when, visited, n + 1); c.count ("judged"); };
  judge (d, api ? "built" : "parsed"); { axlNode * cp = axl_node_copy (axl_doc_get_root (d), axl_true, axl_true); CHECK (c, cp, "copy", "no copy"); axlDoc * d2 = axl_doc_create (NULL, NULL, axl_true); DocHold h2 (d2); axl_doc_set_root (d2, cp); judge (d2, "copy"); CHECK (c, axl_doc_are_equal (d, d2), "equal", "the copy is not equal"); axlNode * k = axl_node_get_last_child (cp); if (!deep) { axl_node_set_attribute (k, "z", "1"); CHECK (c, !axl_doc_are_equal (d, d2), "equal", "equal although the last of %d children differs", n); } }
  if (!deep || n < 1500) { char * t = nullptr; int size = 0; bool pretty = r.chance (1, 3) && pre < 0; CHECK (c, (pretty ? axl_doc_dump_pretty (d, &t, &size, deep ? 1 : 4) : axl_doc_dump (d, &t, &size)) && t && (int) strlen (t) == size, "dump", "dump of %d bytes where %d are reported", t ? (int) strlen (t) : -1, size); Str y (t); axl_free (t); DocHold h2 (parse_mem (y, &e)); em = err_take (e); CHECK (c, h2.d, "dump", "the dump is rejected: %s", em.c_str ()); judge (h2.d, "parsed again"); if (!pretty) CHECK (c, axl_doc_are_equal (d, h2.d), "equal", "the document parsed again is not equal"); }
  if (api) { axlNode * root = axl_doc_get_root (d); for (int q = r.range (1, 8); q > 0 && n > 4; q--) { int at = (int) r.below ((uint32_t) n); axlNode * k = axl_node_get_child_nth (root, at); axl_node_remove (k, axl_true); kind.erase (kind.begin () + at); n--; } judge (d, "some removed"); }
  c.count (deep ? "deep" : "wide"); c.count (size_of (n)); c.maxi (deep ? "levels_max" : "children_max", (uint64_t) n); c.distinct ((uint64_t) n << 2 | (uint64_t) deep << 1 | api); if (c.index < 3) c.sample (fmt ("%d %s", n, deep ? "levels" : "children"));
}

// names, values, text, sections, comments and instructions longer than any buffer or block
MODE (bigtext) {
  Rng & r = c.rng; GenCfg g; g.maxNodes = 4; g.maxAttrs = 3; g.unicode = r.chance (1, 2); MP m = gen_tree (r, g); std::vector<MNode *> v; collect (*m, v); int grown = 0, longest = 0;
  for (int k = r.range (1, 3); k > 0; k--) { MNode & x = *v[r.below ((uint32_t) v.size ())]; int n = big (r, 70000); longest = std::max (longest, n); Str plain ((size_t) n, (char) r.range ('a', 'z')); plain[r.below ((uint32_t) n)] = 'Q'; switch (r.below (4)) { case 0: if (x.name.size () < 1000) { x.name += plain; grown++; } break; case 1: if (!x.attrs.empty ()) { auto & a = x.attrs[r.below ((uint32_t) x.attrs.size ())]; if (a.first.compare (0, 4, "xml:")) { if (r.chance (1, 5)) a.first += plain; else a.second += longer (r, n, true); grown++; } } break; default: if (!x.items.empty ()) { auto & i = x.items[r.below ((uint32_t) x.items.size ())]; if (i.k == K_TEXT) { i.text += longer (r, n, true); grown++; } else if (i.k == K_PI) { if (i.hasContent && !i.text.empty ()) { i.text += plain; grown++; } } else if (i.k != K_ELEM) { i.text += plain; grown++; } } } }
  if (!grown) { MItem i; i.k = K_TEXT; i.text = longer (r, big (r, 70000), true); if (m->items.empty ()) m->items.push_back (i); else m->attrs.push_back ({ "zzz", longer (r, big (r, 70000), true) }); }
  SerCfg s; s.doctype = false; Str x = serialize_doc (r, *m, s).text; c.note ("document of %d bytes, longest piece %d", (int) x.size (), longest); axlError * e = nullptr; bool file = r.chance (1, 3); axlDoc * d; if (file) { Str p = c.path ("big.xml"); write_file (p, x); d = doc_from_file (c, p.c_str (), &e); unlink (p.c_str ()); c.count ("files"); } else d = parse_mem (x, &e); Str em = err_take (e); DocHold h (d); CHECK (c, d, "rejected", "rejected: %s", em.c_str ());
  Str want = canon (*m); CHECK (c, want == canon_axl (axl_doc_get_root (d)), "content", "the content read differs"); check_tree (c, *m, axl_doc_get_root (d), "content");
  axlDoc * b = axl_doc_create (NULL, NULL, axl_true); DocHold hb (b); MP mb = clone_model (*m); axl_doc_set_root (b, build_axl (r, *mb)); Str built = canon (*mb); CHECK (c, built == canon_axl (axl_doc_get_root (b)), "built", "the tree built differs"); if (built == want) CHECK (c, axl_doc_are_equal (d, b), "equal", "the tree built and the one read are not equal");
  { axlNode * cp = axl_node_copy (axl_doc_get_root (b), axl_true, axl_true); CHECK (c, cp && canon_axl (cp) == built, "copy", "the copy differs"); axl_node_free (cp); }
  for (int way = 0; way < 2; way++) { char * t = nullptr; int size = 0; axlDoc * src = r.chance (1, 2) ? d : b; CHECK (c, (way ? axl_doc_dump_pretty (src, &t, &size, 2) : axl_doc_dump (src, &t, &size)) && t && (int) strlen (t) == size, "dump", "dump of %d bytes where %d are reported", t ? (int) strlen (t) : -1, size); Str y (t); axl_free (t); DocHold h2 (parse_mem (y, &e)); em = err_take (e); CHECK (c, h2.d, "dump", "the dump is rejected: %s", em.c_str ()); if (!way && built == want) CHECK (c, canon_com (*m) == canon_axl_com (axl_doc_get_root (h2.d)), "dump", "the dump reads as another document"); c.count ("dumps"); }
  c.count (size_of (longest)); c.maxi ("bytes_max", x.size ()); c.distinct (x); if (c.index < 3) c.sample (fmt ("document of %d bytes", (int) x.size ()));
}

static void big_dtd (Ctx & c, int kind) {
  Rng & r = c.rng; int n = big (r, r.chance (1, 8) ? 4200 : 1100); Str dtd, doc, wrong; static const char * names[] = { "children", "identifiers", "values", "attributes", "elements", "choice" }; auto at = [&] { return r.chance (1, 3) ? n - 1 : r.chance (1, 3) ? 0 : (int) r.below ((uint32_t) n); };
  switch (kind) {
  case 0: { int a = r.range (0, n - 1), b = n - a; dtd = "<!ELEMENT r (a*, b+, c?)><!ELEMENT a EMPTY><!ELEMENT b EMPTY><!ELEMENT c EMPTY>"; Str A, Bs; for (int i = 0; i < a; i++) A += "<a/>"; for (int i = 0; i < b; i++) Bs += "<b/>"; Str tail = r.chance (1, 2) ? "<c/>" : ""; doc = "<r>" + A + Bs + tail + "</r>"; wrong = r.chance (1, 2) ? "<r>" + A + Bs + tail + "<a/></r>" : r.chance (1, 2) ? "<r>" + A + Bs + "<c/><c/></r>" : "<r>" + A + "<c/>" + Bs + "</r>"; break; }
  case 1: { bool two = r.chance (1, 2); dtd = "<!ELEMENT r (a*)><!ELEMENT a EMPTY><!ATTLIST a id ID #REQUIRED to IDREF #IMPLIED>"; int x = at (), y = at (), z = at (); auto make = [&] (int dup, int nowhere) { Str s = "<r>"; for (int i = 0; i < n; i++) { s += fmt ("<a id='i%d'", i == y && dup >= 0 ? dup : i); if (i == x) s += fmt (" to='i%d'", nowhere ? n + 5 : z); s += "/>"; } return s + "</r>"; }; doc = make (-1, 0); if (two) { int o = at (); if (o == y) o = (y + 1) % n; wrong = make (o, 0); } else wrong = make (-1, 1); break; }
  case 2: { n = std::min (n, 1100); int x = at (); dtd = "<!ELEMENT r EMPTY><!ATTLIST r v ("; for (int i = 0; i < n; i++) dtd += fmt ("%sval%d", i ? "|" : "", i); dtd += ") #REQUIRED>"; doc = fmt ("<r v='val%d'/>", x); wrong = fmt ("<r v='val%d'/>", n + r.range (0, 5)); break; }
  case 3: { n = std::min (n, 1100); dtd = "<!ELEMENT r EMPTY>"; if (r.chance (1, 2)) { dtd += "<!ATTLIST r"; for (int i = 0; i < n; i++) dtd += fmt (" a%d CDATA #REQUIRED", i); dtd += ">"; } else for (int i = 0; i < n; i++) dtd += fmt ("<!ATTLIST r a%d CDATA #REQUIRED>", i); int x = at (); bool extra = r.chance (1, 2); auto make = [&] (bool ok) { Str s = "<r"; for (int i = 0; i < n; i++) if (ok || extra || i != x) s += fmt (" a%d='v'", i); if (!ok && extra) s += fmt (" a%d='v'", n); return s + "/>"; }; doc = make (true); wrong = make (false); break; }
  case 4: { n = std::min (n, 1100); dtd = "<!ELEMENT r ("; for (int i = 0; i < n; i++) dtd += fmt ("%se%d", i ? "," : "", i); dtd += ")>"; for (int i = 0; i < n; i++) dtd += fmt ("<!ELEMENT e%d (#PCDATA)>", i); int x = at (); int way = (int) r.below (3); auto make = [&] (bool ok) { Str s = "<r>"; for (int i = 0; i < n; i++) { if (!ok && i == x) { if (way == 0) continue; if (way == 1) s += fmt ("<e%d/>", i); else { s += fmt ("<f%d/>", i); continue; } } s += fmt ("<e%d>t</e%d>", i, i); } return s + "</r>"; }; doc = make (true); wrong = make (false); break; }
  default: { n = std::min (n, 1100); dtd = "<!ELEMENT r ("; for (int i = 0; i < n; i++) dtd += fmt ("%se%d", i ? "|" : "", i); bool many = r.chance (1, 2); dtd += many ? ")+>" : ")>"; for (int i = 0; i < n; i++) dtd += fmt ("<!ELEMENT e%d EMPTY>", i); doc = "<r>"; for (int i = many ? r.range (1, 300) : 1; i > 0; i--) doc += fmt ("<e%d/>", at ()); wrong = many ? doc + "<r/></r>" : doc + fmt ("<e%d/></r>", at ()); doc += "</r>"; break; }
  }
  c.note ("%s, %d", names[kind], n); axlError * e = nullptr; axlDtd * d = axl_dtd_parse (dtd.c_str (), (int) dtd.size (), &e); Str em = err_take (e); CHECK (c, d, "dtd", "the DTD is rejected: %s", em.c_str ()); std::unique_ptr<axlDtd, void (*) (axlDtd *)> hd (d, axl_dtd_free); DocHold a (parse_mem (doc, &e)); err_take (e); DocHold b (parse_mem (wrong, &e)); err_take (e); CHECK (c, a.d && b.d, "setup", "a document is rejected");
  bool ok = axl_dtd_validate (a.d, d, &e); em = err_take (e); CHECK (c, ok, "valid-rejected", "%s, %d: a valid document is rejected: %s", names[kind], n, em.c_str ()); bool ko = axl_dtd_validate (b.d, d, &e); em = err_take (e); CHECK (c, !ko, "invalid-accepted", "%s, %d: an invalid document is accepted", names[kind], n); CHECK (c, !em.empty (), "verdict-error", "rejected without an error");
  c.count (names[kind]); c.count (size_of (n)); c.maxi ("items_max", (uint64_t) n); c.distinct (doc); if (c.index < 3) c.sample (fmt ("%s, %d", names[kind], n));
}

// annotations, instructions and namespaces, many of them
static void big_misc (Ctx & c, int kind) {
  Rng & r = c.rng; int n = big (r, 9000); static const char * names[] = { "annotations", "instructions", "namespaces" }; axlError * e = nullptr; if (kind == 2) n = big (r, 1100); c.note ("%s, %d", names[kind], n);
  if (kind == 0) { std::vector<Str> keys, texts; keys.reserve ((size_t) n); texts.reserve ((size_t) n); axlDoc * d = axl_doc_create (NULL, NULL, axl_true); DocHold h (d); axlNode * root = axl_node_create ("r"), * k = axl_node_create ("k"); axl_doc_set_root (d, root); axl_node_set_child (root, k); std::vector<int> v ((size_t) n); for (int i = 0; i < n; i++) { v[(size_t) i] = r.range (1, 1000); keys.push_back (fmt ("k%d", i)); texts.push_back (fmt ("%d", v[(size_t) i])); if (i % 2) axl_node_annotate_int (r.chance (1, 2) ? root : k, keys.back ().c_str (), v[(size_t) i]); else axl_node_annotate_string (r.chance (1, 2) ? root : k, keys.back ().c_str (), texts.back ().c_str ()); }
    for (int i = 0; i < n; i++) { if (i % 2) { int g = axl_node_annotate_get_int (k, fmt ("k%d", i).c_str (), axl_true); CHECK (c, g == v[(size_t) i], "annotation", "number %d of %d is %d instead of %d", i, n, g, v[(size_t) i]); } else { const char * g = axl_node_annotate_get_string (k, fmt ("k%d", i).c_str (), axl_true); CHECK (c, g && atoi (g) == v[(size_t) i], "annotation", "string %d of %d is %s instead of %d", i, n, g ? g : "(none)", v[(size_t) i]); } } CHECK (c, !axl_node_annotate_get_string (k, "none", axl_true), "annotation", "one that was not stored is found"); }
  else if (kind == 1) { Str x, in; int inside = r.chance (1, 2) ? n : 0; for (int i = 0; i < n; i++) (inside ? in : x) += fmt ("<?t%d v%d?>", i, i % 100); x = "<?xml version='1.0'?>" + x + "<r>" + in + "</r>"; DocHold h (parse_mem (x, &e)); Str em = err_take (e); CHECK (c, h.d, "rejected", "rejected: %s", em.c_str ()); axlNode * root = axl_doc_get_root (h.d); for (int q = 0; q < 40; q++) { int i = q == 0 ? n - 1 : q == 1 ? 0 : (int) r.below ((uint32_t) n); Str t = fmt ("t%d", i); const char * v = inside ? axl_node_get_pi_target_content (root, (char *) t.c_str ()) : axl_doc_get_pi_target_content (h.d, (char *) t.c_str ()); CHECK (c, v && fmt ("v%d", i % 100) == v, "instruction", "instruction %d of %d is %s", i, n, v ? v : "(none)"); } Str t = fmt ("t%d", n); CHECK (c, !(inside ? axl_node_has_pi_target (root, (char *) t.c_str ()) : axl_doc_has_pi_target (h.d, (char *) t.c_str ())), "instruction", "one that is not there is found");
    axlList * l = inside ? axl_node_get_pi_target_list (root) : axl_doc_get_pi_target_list (h.d); CHECK (c, l && axl_list_length (l) == n, "instruction", "list of %d instructions of %d", l ? axl_list_length (l) : -1, n); axlListCursor * k = axl_list_cursor_new (l); int i = 0; for (axl_list_cursor_first (k); axl_list_cursor_has_item (k); axl_list_cursor_next (k), i++) { axlPI * p = (axlPI *) axl_list_cursor_get (k); if (fmt ("t%d", i) != axl_pi_get_name (p)) break; } axl_list_cursor_free (k); CHECK (c, i == n, "instruction", "instruction %d of %d is out of order", i, n); }
  else { bool deep = r.chance (1, 2); int use = r.chance (1, 2) ? 0 : r.chance (1, 2) ? n - 1 : (int) r.below ((uint32_t) n); Str x, bad; if (deep) { Str open, close; for (int i = 0; i < n; i++) { open += i == use ? fmt ("<e xmlns:p='urn:p' xmlns:q%d='u'>", i) : "<e>"; close += "</e>"; } x = open + "<p:k/>" + close; bad = open + "<pp:k/>" + close; } else { Str open = "<e"; for (int i = 0; i < n; i++) open += fmt (" xmlns:p%d='urn:%d'", i, i); x = open + fmt ("><p%d:k/></e>", use); bad = open + fmt ("><p%d:k/></e>", n); } DocHold a (parse_mem (x, &e)), b (parse_mem (bad, &e)); err_take (e); CHECK (c, a.d && b.d, "setup", "a document is rejected"); bool ok = axl_ns_doc_validate (a.d, &e); Str em = err_take (e); CHECK (c, ok, "namespace", "%d %s: a declared prefix is rejected: %s", n, deep ? "levels" : "declarations", em.c_str ()); bool ko = axl_ns_doc_validate (b.d, &e); err_take (e); CHECK (c, !ko, "namespace", "%d %s: a prefix that is not declared is accepted", n, deep ? "levels" : "declarations"); }
  c.count (names[kind]); c.count (size_of (n)); c.maxi ("items_max", (uint64_t) n); c.distinct ((uint64_t) n << 2 | (uint64_t) kind); if (c.index < 3) c.sample (fmt ("%s, %d", names[kind], n));
}

MODE (bigmodel) { static const int k[] = { 0, 4, 5 }; big_dtd (c, k[c.rng.below (3)]); }
MODE (bigdecl) { big_dtd (c, 1 + (int) c.rng.below (3)); }
MODE (bigannot) { big_misc (c, 0); }
MODE (bigpis) { big_misc (c, 1); }
MODE (bigns) { big_misc (c, 2); }
