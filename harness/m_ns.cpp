// Namespaces: validation and namespace-aware lookups against declarations resolved on an independent tree.
#include "model.hpp"

namespace {
typedef std::map<Str, Str> Env;                 // prefix ("" for the default) to namespace
static const std::vector<Str> PRE = { "p", "q", "xa", "n1", "prefix", "xm", "xmla", "xmlnsp" }, URI = { "http://a", "http://b", "urn:c", "http://a/", "x" }, LOC = { "n", "item", "b", "xmlnode", "nn" };
static bool is_decl (const Str & a) { return a == "xmlns" || a.compare (0, 6, "xmlns:") == 0; }
static Str prefix_of (const Str & n) { size_t i = n.find (':'); return i == Str::npos ? "" : n.substr (0, i); }
static Str local_of (const Str & n) { size_t i = n.find (':'); return i == Str::npos ? n : n.substr (i + 1); }
// declares and uses prefixes at random; undeclared ones only when allowed
static void gen (Rng & r, MNode & n, Env env, bool wrong, int & planted) {
  std::vector<std::pair<Str, Str>> at; std::set<Str> used;
  auto put = [&] (const Str & k, const Str & v) { if (used.insert (k).second) at.push_back ({ k, v }); };
  if (r.chance (1, 3)) put ("xmlns", r.pick (URI)); else if (r.chance (1, 12)) put ("xmlns", "");
  for (int i = r.chance (1, 2) ? 0 : r.range (1, r.chance (1, 8) ? 6 : 2); i > 0; i--) put ("xmlns:" + r.pick (PRE), r.pick (URI));
  for (auto & a : at) env[a.first == "xmlns" ? "" : a.first.substr (6)] = a.second;
  std::vector<Str> ok; for (auto & e : env) if (!e.first.empty ()) ok.push_back (e.first);
  auto name = [&] (const Str & local) -> Str { if (r.chance (1, 2)) return local; if (wrong && r.chance (1, 12)) { Str p = r.chance (1, 3) ? r.pick (PRE) + "z" : r.chance (1, 2) ? r.pick (PRE) : r.pick (PRE).substr (0, 1); if (!env.count (p)) planted++; return p + ":" + local; } return ok.empty () ? local : r.pick (ok) + ":" + local; };
  n.name = r.chance (1, 30) ? "xml:" + r.pick (LOC) : name (r.pick (LOC));
  for (int i = r.chance (1, 2) ? 0 : r.range (1, r.chance (1, 6) ? 12 : 3); i > 0; i--) put (name (r.pick (LOC) + (r.chance (1, 3) ? fmt ("%d", i) : Str ())), r.pick (URI));
  if (r.chance (1, 12)) put ("xml:lang", "en"); if (r.chance (1, 20)) put ("xml:space", "preserve"); if (r.chance (1, 12)) put (r.pick (std::vector<Str> { "xmlnsa", "xmlnsab", "xmlns2", "xmlnsxyz", "xmln" }), r.pick (URI));
  for (size_t i = at.size (); i > 1; i--) std::swap (at[i - 1], at[r.below ((uint32_t) i)]); n.attrs = at;
  for (auto & i : n.items) if (i.k == K_ELEM) gen (r, *i.node, env, wrong, planted);
}
static void flatten (MNode & n, Env env, std::vector<std::pair<MNode *, Env>> & out, Str & why) {
  for (auto & a : n.attrs) if (is_decl (a.first)) env[a.first == "xmlns" ? "" : a.first.substr (6)] = a.second;
  auto check = [&] (const Str & x) { if (x.find (':') == Str::npos) return; Str p = prefix_of (x); if (p != "xml" && !env.count (p) && why.empty ()) why = x + " on <" + n.name + ">"; };
  check (n.name); for (auto & a : n.attrs) if (!is_decl (a.first)) check (a.first);
  out.push_back ({ &n, env }); for (auto & i : n.items) if (i.k == K_ELEM) flatten (*i.node, env, out, why);
}
static void pair_nodes (Ctx & c, MNode & m, axlNode * n, std::vector<axlNode *> & out) { CHECK (c, n && m.name == axl_node_get_name (n), "setup", "another node"); out.push_back (n); axlNode * k = axl_node_get_first_child (n); for (auto & i : m.items) if (i.k == K_ELEM) { pair_nodes (c, *i.node, k, out); k = axl_node_get_next (k); } }
static Str ns_of (MNode * m, const Env & e) { auto i = e.find (prefix_of (m->name)); return i == e.end () ? Str () : i->second; }
}

MODE (ns) {
  Rng & r = c.rng; GenCfg g; g.maxAttrs = 0; g.manyAttrs = false; g.maxNodes = r.chance (1, 10) ? 80 : 20; g.pis = g.comments = r.chance (1, 3); MP m = gen_tree (r, g); int planted = 0; bool wrong = r.chance (1, 2); gen (r, *m, Env (), wrong, planted);
  std::vector<std::pair<MNode *, Env>> v; Str why; flatten (*m, Env (), v, why); axlDoc * doc;
  if (r.chance (2, 3)) { SerCfg s; Str x = serialize_doc (r, *m, s).text; c.noteData ("document", x); axlError * e = nullptr; doc = parse_mem (x, &e); Str em = err_take (e); CHECK (c, doc, "setup", "document rejected: %s", em.c_str ()); } else { doc = axl_doc_create (NULL, NULL, axl_false); axl_doc_set_root (doc, build_axl (r, *m)); c.noteData ("built", canon (*m)); }
  if (r.chance (1, 10)) { DocHold nothing (axl_doc_create (NULL, NULL, axl_false)); axlError * e = nullptr; bool ok = axl_ns_doc_validate (nothing.d, r.chance (1, 2) ? &e : NULL); bool has = e != nullptr; err_take (e); CHECK (c, ok && !has, "empty", "a document without nodes is not valid"); }
  DocHold h (doc); std::vector<axlNode *> live; pair_nodes (c, *m, axl_doc_get_root (doc), live); Str before = canon_axl (axl_doc_get_root (doc)); c.note ("expected %s %s", why.empty () ? "valid" : "invalid", why.c_str ());
  int rounds = r.chance (1, 3) ? 2 : 1;
  for (int k = 0; k < rounds; k++) {
    axlError * e = nullptr; bool none = r.chance (1, 6); bool ok = axl_ns_doc_validate (doc, none ? NULL : &e); bool has = e != nullptr; int code = has ? axl_error_get_code (e) : 0; Str em = err_take (e);
    CHECK (c, ok == why.empty (), ok ? "invalid-accepted" : "valid-rejected", ok ? "a prefix without declaration is accepted: %s" : "rejected though every prefix is declared: %s", ok ? why.c_str () : em.c_str ());
    if (!none) { CHECK (c, has == !ok, "verdict-error", ok ? "accepted with an error: %s" : "rejected without an error%s", em.c_str ()); if (!ok) CHECK (c, code != 0 && !em.empty (), "verdict-error", "an error without code or text"); }
    CHECK (c, canon_axl (axl_doc_get_root (doc)) == before, "changed", "validating changed the document");
  }
  c.count (why.empty () ? "valid" : "invalid"); c.count ("documents"); if (rounds > 1) c.count ("validated_twice");
  if (why.empty ()) {
    for (size_t i = 0; i < v.size (); i++) {
      MNode * x = v[i].first; Env & env = v[i].second; axlNode * n = live[i]; int pos = 7; bool pre = axl_ns_node_is_prefixed (n, &pos); size_t colon = x->name.find (':'); CHECK (c, pre == (colon != Str::npos) && (pre ? pos == (int) colon : pos == -1), "prefixed", "<%s> reported prefixed %d at %d", x->name.c_str (), (int) pre, pos); CHECK (c, !!axl_ns_node_is_prefixed (n, NULL) == pre, "prefixed", "<%s>", x->name.c_str ());
      Str mine = ns_of (x, env), local = local_of (x->name);
      for (int k = 0; k < 4; k++) {
        Str ns = r.chance (1, 2) && !mine.empty () ? mine : r.pick (URI), nm = r.chance (2, 3) ? local : r.pick (LOC); bool want = !mine.empty () && ns == mine && nm == local;
        CHECK (c, !!axl_ns_node_cmp (n, ns.c_str (), nm.c_str ()) == want, "cmp", "<%s> (namespace %s) compared with %s in %s gives %d", x->name.c_str (), mine.c_str (), nm.c_str (), ns.c_str (), !want); c.count (want ? "equal" : "different");
        Str p = r.pick (PRE); auto d = env.find (p); CHECK (c, !!axl_ns_doc_node_check (n, p.c_str (), ns.c_str ()) == (d != env.end () && d->second == ns), "prefix-check", "prefix %s at <%s> reported %sbound to %s", p.c_str (), x->name.c_str (), d != env.end () && d->second == ns ? "not " : "", ns.c_str ());
        d = env.find (""); CHECK (c, !!axl_ns_doc_check_default (n, ns.c_str ()) == (d != env.end () && d->second == ns), "default-check", "default at <%s> reported %s%s", x->name.c_str (), d != env.end () && d->second == ns ? "not " : "", ns.c_str ());
      }
      // navigation from here
      std::vector<size_t> kids, sib; size_t self = 0; std::function<size_t (size_t)> next = [&] (size_t a) { size_t q = a + 1; for (auto & y : v[a].first->items) if (y.k == K_ELEM) q = next (q); return q; };
      auto matches = [&] (size_t a, const Str & ns, const Str & nm) { Str z = ns_of (v[a].first, v[a].second); return !z.empty () && z == ns && local_of (v[a].first->name) == nm; };
      { size_t q = i + 1; for (auto & y : x->items) if (y.k == K_ELEM) { kids.push_back (q); q = next (q); } }
      if (kids.empty () && v.size () > 8) continue;
      Str ns = r.pick (URI), nm = r.pick (LOC); if (!kids.empty () && r.chance (1, 2)) { size_t z = kids[r.below ((uint32_t) kids.size ())]; if (!ns_of (v[z].first, v[z].second).empty ()) { ns = ns_of (v[z].first, v[z].second); nm = local_of (v[z].first->name); } }
      axlNode * want = nullptr; for (size_t z : kids) if (matches (z, ns, nm)) { want = live[z]; break; } CHECK (c, axl_ns_node_get_child_called (n, ns.c_str (), nm.c_str ()) == want, "child", "child %s in %s of <%s>", nm.c_str (), ns.c_str (), x->name.c_str ()); c.count (want ? "found" : "not_found");
      for (size_t k = 0; k < kids.size (); k++) { want = nullptr; for (size_t z = k + 1; z < kids.size () && !want; z++) if (matches (kids[z], ns, nm)) want = live[kids[z]]; CHECK (c, axl_ns_node_get_next_called (live[kids[k]], ns.c_str (), nm.c_str ()) == want, "next", "next %s in %s", nm.c_str (), ns.c_str ()); want = nullptr; for (size_t z = k; z-- > 0 && !want;) if (matches (kids[z], ns, nm)) want = live[kids[z]]; CHECK (c, axl_ns_node_get_previous_called (live[kids[k]], ns.c_str (), nm.c_str ()) == want, "previous", "previous %s in %s", nm.c_str (), ns.c_str ()); if (want) c.count ("siblings_found"); }
      // anywhere below: the children first, then below each of them
      std::function<axlNode * (size_t)> find = [&] (size_t a) -> axlNode * { std::vector<size_t> ks; size_t q = a + 1; for (auto & y : v[a].first->items) if (y.k == K_ELEM) { ks.push_back (q); q = next (q); } for (size_t z : ks) if (matches (z, ns, nm)) return live[z]; for (size_t z : ks) if (axlNode * f = find (z)) return f; return nullptr; };
      if (i < 3 || r.chance (1, 4)) { want = find (i); CHECK (c, axl_ns_node_find_called (n, ns.c_str (), nm.c_str ()) == want, "find", "%s in %s below <%s>", nm.c_str (), ns.c_str (), x->name.c_str ()); c.count ("searches"); }
    }
    CHECK (c, canon_axl (axl_doc_get_root (doc)) == before, "changed", "the lookups changed the document");
  }
  c.maxi ("nodes", v.size ()); if (c.index < 3) c.sample (canon (*m)); c.distinct (canon (*m));
}
