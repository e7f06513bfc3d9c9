// DTD parsing, introspection, equality and validation against an independent model of the declarations.
#include "model.hpp"
#include <memory>
#include <unistd.h>

namespace {
enum PK { P_NAME, P_SEQ, P_CHOICE };
struct Part { PK k = P_NAME; char times = '1'; Str name; std::vector<std::shared_ptr<Part>> kids; };
typedef std::shared_ptr<Part> PP;
enum ET { E_EMPTY, E_ANY, E_PCDATA, E_MIXED, E_CHILDREN };
struct Attr { Str name; int type = 0; /* 0 cdata 1 enum 2 id 3 idref 4 nmtoken 5 nmtokens 6 entity 7 entities */ std::vector<Str> values; int def = 0; /* 0 implied 1 required 2 fixed 3 default value */ Str value; };
struct Elem { Str name; ET type = E_EMPTY; PP model; std::vector<Attr> attrs; bool hasAttlist = false; };
struct Ent { Str name, value; bool param = false; };
struct Dtd { std::vector<Elem> elems; std::vector<Ent> ents; const Elem * get (const Str & n) const { for (auto & e : elems) if (e.name == n) return &e; return nullptr; } };

// --- the oracle: the positions reachable after matching a particle from a set of positions
typedef std::set<int> Pos;
static Pos step (const Part & p, const std::vector<Str> & w, const Pos & from);
static Pos once (const Part & p, const std::vector<Str> & w, const Pos & from) {
  Pos out;
  if (p.k == P_NAME) { for (int i : from) if (i < (int) w.size () && w[(size_t) i] == p.name) out.insert (i + 1); }
  else if (p.k == P_SEQ) { out = from; for (auto & k : p.kids) out = step (*k, w, out); }
  else for (auto & k : p.kids) { Pos o = step (*k, w, from); out.insert (o.begin (), o.end ()); }
  return out;
}
static Pos step (const Part & p, const std::vector<Str> & w, const Pos & from) {
  if (p.times == '1') return once (p, w, from);
  if (p.times == '?') { Pos o = once (p, w, from); o.insert (from.begin (), from.end ()); return o; }
  Pos all = once (p, w, from), fresh = all; while (!fresh.empty ()) { Pos n = once (p, w, fresh); fresh.clear (); for (int i : n) if (all.insert (i).second) fresh.insert (i); }
  if (p.times == '*') all.insert (from.begin (), from.end ());
  return all;
}
static bool allows (const Part & p, const std::vector<Str> & w) { return step (p, w, Pos { 0 }).count ((int) w.size ()) > 0; }

// --- deterministic models only, as XML asks for: no two occurrences of a name compete (positions automaton)
struct Gl { bool nullable; std::set<int> first, last; };
struct Glushkov { std::vector<Str> names; std::vector<std::set<int>> follow;
  Gl go (const Part & p) {
    Gl g;
    if (p.k == P_NAME) { int i = (int) names.size (); names.push_back (p.name); follow.push_back ({}); g = { false, { i }, { i } }; }
    else if (p.k == P_SEQ) { g = { true, {}, {} }; for (auto & k : p.kids) { Gl x = go (*k); for (int l : g.last) follow[(size_t) l].insert (x.first.begin (), x.first.end ()); if (g.nullable) g.first.insert (x.first.begin (), x.first.end ()); if (x.nullable) g.last.insert (x.last.begin (), x.last.end ()); else g.last = x.last; g.nullable = g.nullable && x.nullable; } }
    else { g = { false, {}, {} }; for (auto & k : p.kids) { Gl x = go (*k); g.nullable |= x.nullable; g.first.insert (x.first.begin (), x.first.end ()); g.last.insert (x.last.begin (), x.last.end ()); } }
    if (p.times == '*' || p.times == '+') for (int l : g.last) follow[(size_t) l].insert (g.first.begin (), g.first.end ());
    if (p.times == '*' || p.times == '?') g.nullable = true;
    return g; }
  bool clash (const std::set<int> & s) { std::set<Str> n; for (int i : s) if (!n.insert (names[(size_t) i]).second) return true; return false; } };
static bool deterministic (const Part & p) { Glushkov g; Gl x = g.go (p); if (g.clash (x.first)) return false; for (auto & f : g.follow) if (g.clash (f)) return false; return true; }

static const char TIMES[] = { '1', '1', '1', '?', '*', '+' };
static PP gen_part (Rng & r, const std::vector<Str> & names, const std::vector<Str> & any, int depth) {
  auto p = std::make_shared<Part> ();
  if (depth == 0 || r.chance (3, 5)) { p->name = r.chance (1, 6) ? r.pick (any) : r.pick (names); p->times = TIMES[r.below (6)]; bool known = false; for (auto & n : names) known |= n == p->name; if (!known) p->times = r.chance (1, 2) ? '?' : '*'; return p; }
  p->k = r.chance (1, 2) ? P_SEQ : P_CHOICE; p->times = TIMES[r.below (6)]; int n = r.range (1, 4); for (int i = 0; i < n; i++) p->kids.push_back (gen_part (r, names, any, depth - 1)); return p;
}
static PP gen_model (Rng & r, const std::vector<Str> & names, const std::vector<Str> & any) {
  for (int t = 0; t < 60; t++) { auto p = std::make_shared<Part> (); p->k = r.chance (1, 2) ? P_SEQ : P_CHOICE; p->times = TIMES[r.below (6)]; int n = r.range (1, t > 30 ? 2 : 5); for (int i = 0; i < n; i++) p->kids.push_back (gen_part (r, names, any, t > 40 ? 0 : r.range (0, 3))); if (deterministic (*p)) return p; }
  auto p = std::make_shared<Part> (), q = std::make_shared<Part> (); p->k = P_SEQ; q->name = names[0]; p->kids.push_back (q); return p;
}
static Str sp (Rng & r, bool need = false) { static const char * s[] = { "", " ", "\n", "\t", "  ", "\r\n" }; return s[r.range (need ? 1 : 0, 5)]; }
static Str ser_part (Rng & r, const Part & p) {
  Str s; if (p.k == P_NAME) s = p.name; else { s = "(" + sp (r); for (size_t i = 0; i < p.kids.size (); i++) { if (i) s += sp (r) + (p.k == P_SEQ ? "," : "|") + sp (r); s += ser_part (r, *p.kids[i]); } s += sp (r) + ")"; }
  if (p.times != '1') s += p.times; return s;
}
static const char * ATYPES[] = { "CDATA", "", "ID", "IDREF", "NMTOKEN", "NMTOKENS", "ENTITY", "ENTITIES" };
// what a parameter entity may hold in place of the type of an attribute, or of its type and its default
static Str pe_type (const Attr & a) { if (a.type != 1) return ATYPES[a.type]; Str s = "("; for (size_t i = 0; i < a.values.size (); i++) s += (i ? " | " : "") + a.values[i]; return s + ")"; }
static Str pe_whole (const Attr & a) { return pe_type (a) + (a.def == 0 ? " #IMPLIED" : a.def == 1 ? " #REQUIRED" : a.def == 2 ? " #FIXED" : "") + (a.def >= 2 ? " '" + a.value + "'" : ""); }
static Str trimmed (const Str & s) { size_t e = s.find_last_not_of (' '); return e == Str::npos ? "" : s.substr (0, e + 1); }
static void gen_pes (Rng & r, Dtd & d) { int k = 0; for (auto & e : d.elems) for (auto & a : e.attrs) if (r.chance (1, 4)) { Ent n; n.name = fmt ("pe%d", k++); n.param = true; n.value = (r.chance (1, 2) ? pe_type (a) : pe_whole (a)) + Str (r.chance (1, 2) ? (size_t) r.range (0, 200) : 0, ' '); d.ents.push_back (n); } }
static Str ser_attlist (Rng & r, const Elem & e, const Dtd * d = nullptr) {
  Str s = "<!ATTLIST" + sp (r, true) + e.name;
  for (auto & a : e.attrs) { s += sp (r, true) + a.name + sp (r, true); Str t; if (a.type == 1) { t = "(" + sp (r); for (size_t i = 0; i < a.values.size (); i++) { if (i) t += sp (r) + "|" + sp (r); t += a.values[i]; } t += sp (r) + ")"; } else t = ATYPES[a.type];
    if (d && a.type == 0 && r.chance (1, 2)) for (auto & n : d->ents) if (n.param && n.value == "CDATA") { t = "%" + n.name + ";"; break; }
    bool whole = false; if (d && r.chance (1, 2)) for (auto & n : d->ents) if (n.param && n.name.compare (0, 2, "pe") == 0) { Str v = trimmed (n.value); if (v == pe_type (a)) { t = "%" + n.name + ";"; break; } if (v == pe_whole (a)) { t = "%" + n.name + ";"; whole = true; break; } }
    if (whole) { s += t; continue; }
    s += t + sp (r, true) + (a.def == 0 ? "#IMPLIED" : a.def == 1 ? "#REQUIRED" : a.def == 2 ? "#FIXED" : ""); if (a.def == 2) s += sp (r, true); if (a.def >= 2) { Str q = r.chance (1, 2) ? "\"" : "'"; s += q + a.value + q; } }
  return s + sp (r) + ">";
}
static Str ser_elem (Rng & r, const Elem & e) {
  Str s = "<!ELEMENT" + sp (r, true) + e.name + sp (r, true);
  switch (e.type) { case E_EMPTY: s += "EMPTY"; break; case E_ANY: s += "ANY"; break; case E_PCDATA: s += "(" + sp (r) + "#PCDATA" + sp (r) + ")"; if (e.name.back () % 3 == 0) s += "*"; break;
    case E_MIXED: { s += "(" + sp (r) + "#PCDATA"; for (auto & k : e.model->kids) s += sp (r) + "|" + sp (r) + k->name; s += sp (r) + ")*"; break; }
    case E_CHILDREN: s += ser_part (r, *e.model); }
  return s + sp (r) + ">";
}
static Str ser_dtd (Rng & r, const Dtd & d) {
  std::vector<Str> v; for (auto & e : d.ents) { Str q = r.chance (1, 2) && e.value.find ('\'') == Str::npos ? "'" : "\""; v.push_back ("<!ENTITY" + sp (r, true) + (e.param ? "%" + sp (r, true) : "") + e.name + sp (r, true) + q + e.value + q + sp (r) + ">"); }
  for (auto & e : d.elems) { v.push_back (ser_elem (r, e)); if (e.hasAttlist) v.push_back (ser_attlist (r, e, &d)); }
  Str s; for (auto & x : v) { s += sp (r); if (r.chance (1, 6)) s += "<!-- a comment -- like <!ELEMENT x (y)> -->\n" + sp (r); s += x; } s += sp (r); if (r.chance (1, 6)) s += "<!-- end -->"; return s;
}
struct DtdHold { axlDtd * d; explicit DtdHold (axlDtd * x) : d (x) {} ~DtdHold () { if (d) axl_dtd_free (d); } };
static axlDtd * parse_dtd (const Str & s, axlError ** e, bool sized) { char * z = (char *) malloc (s.size () + 1); memcpy (z, s.c_str (), s.size () + 1); axlDtd * d = axl_dtd_parse (z, sized ? (int) s.size () : -1, e); free (z); return d; }
static Dtd gen_dtd (Rng & r, bool models) {
  Dtd d; int n = r.range (1, 7); std::vector<Str> all; for (int i = 0; i < n; i++) all.push_back (fmt ("%c%d", "enxp"[r.below (4)], i));
  for (int i = 0; i < n; i++) { Elem e; e.name = all[(size_t) i]; std::vector<Str> later (all.begin () + i + 1, all.end ()); unsigned k = r.below (10);
    if (later.empty ()) e.type = k < 3 ? E_EMPTY : k < 5 ? E_ANY : k < 6 ? E_MIXED : E_PCDATA; else e.type = k < 7 ? E_CHILDREN : k < 8 ? E_MIXED : k < 9 ? (r.chance (1, 3) ? E_ANY : E_PCDATA) : E_EMPTY;
    if (!models) e.type = k < 6 ? E_ANY : k < 8 ? E_PCDATA : E_EMPTY;
    if (e.type == E_CHILDREN) e.model = gen_model (r, later, all);
    if (e.type == E_MIXED) { e.model = std::make_shared<Part> (); e.model->k = P_CHOICE; e.model->times = '*'; std::set<Str> s; for (int j = r.range (1, 3); j > 0; j--) s.insert (r.pick (all)); for (auto & x : s) { auto q = std::make_shared<Part> (); q->name = x; e.model->kids.push_back (q); } }
    d.elems.push_back (e); }
  return d;
}
// --- documents
static void sample (Rng & r, const Part & p, bool deep, std::vector<Str> & out) {
  int n = p.times == '1' ? 1 : p.times == '?' ? (deep ? 0 : r.range (0, 1)) : p.times == '*' ? (deep ? 0 : r.range (0, 3)) : r.range (1, deep ? 1 : 3);
  for (int i = 0; i < n; i++) { if (p.k == P_NAME) out.push_back (p.name); else if (p.k == P_SEQ) for (auto & k : p.kids) sample (r, *k, deep, out); else sample (r, *p.kids[r.below ((uint32_t) p.kids.size ())], deep, out); }
}
struct DNode { Str name; std::vector<std::pair<Str, Str>> attrs; std::vector<std::shared_ptr<DNode>> kids; bool text = false; };
typedef std::shared_ptr<DNode> DP;
static DP gen_doc (Rng & r, const Dtd & d, const Str & name, int depth, int & budget) {
  auto n = std::make_shared<DNode> (); n->name = name; const Elem * e = d.get (name); if (!e) return n; budget--; std::vector<Str> k; bool deep = depth > 5 || budget < 0;
  if (e->type == E_CHILDREN || e->type == E_MIXED) sample (r, *e->model, deep, k);
  if (e->type == E_ANY && !deep) for (int i = r.range (0, 3); i > 0; i--) k.push_back (r.chance (1, 6) ? Str ("free") : d.elems[r.below ((uint32_t) d.elems.size ())].name);
  if (e->type == E_PCDATA || e->type == E_MIXED || e->type == E_ANY) n->text = r.chance (1, 2);
  for (auto & x : k) n->kids.push_back (gen_doc (r, d, x, depth + 1, budget)); return n;
}
static void flat (const DP & n, std::vector<DNode *> & v) { v.push_back (n.get ()); for (auto & k : n->kids) flat (k, v); }
static Str ser_doc (Rng & r, const DNode & n) {
  Str s = "<" + n.name; for (auto & a : n.attrs) { Str q = r.chance (1, 2) ? "\"" : "'"; s += " " + a.first + "=" + q + a.second + q; } if (n.kids.empty () && !n.text && r.chance (1, 2)) return s + "/>";
  s += ">"; size_t at = n.text ? r.below ((uint32_t) n.kids.size () + 1) : ~(size_t) 0; for (size_t i = 0; i <= n.kids.size (); i++) { if (at == i) s += r.chance (1, 4) ? "<![CDATA[some data]]>" : "some data"; if (i < n.kids.size ()) { if (r.chance (1, 6)) s += "\n  "; if (r.chance (1, 12)) s += "<!-- note -->"; if (r.chance (1, 20)) s += "<?pi data?>"; s += ser_doc (r, *n.kids[i]); } } return s + "</" + n.name + ">";
}
static bool valid_models (const Dtd & d, const DNode & n, Str & why) {
  const Elem * e = d.get (n.name); if (!e) { why = "<" + n.name + "> is not declared"; return false; }
  if (e->type == E_ANY) return true;
  if (e->type == E_EMPTY && (n.text || !n.kids.empty ())) { why = "<" + n.name + "> is not empty"; return false; }
  if (e->type == E_PCDATA && !n.kids.empty ()) { why = "<" + n.name + "> has children"; return false; }
  if (e->type == E_CHILDREN || e->type == E_MIXED) { std::vector<Str> w; for (auto & k : n.kids) w.push_back (k->name); if (!allows (*e->model, w)) { why = "children of <" + n.name + ">:"; for (auto & x : w) why += " " + x; return false; } }
  for (auto & k : n.kids) if (!valid_models (d, *k, why)) return false;
  return true;
}
static Str dump (axlDoc * d) { char * x = nullptr; int n = 0; if (!axl_doc_dump (d, &x, &n)) return "?"; Str s (x, (size_t) n); axl_free (x); return s; }
static bool verdict (Ctx & c, axlDoc * doc, axlDtd * dtd) {
  axlError * e = nullptr; bool v = axl_dtd_validate (doc, dtd, &e); bool has = e != nullptr; int code = has ? axl_error_get_code (e) : 0; Str m = has ? err_take (e) : "";
  CHECK (c, v == !has, "verdict-error", v ? "accepted, but with the error %s" : "rejected without an error", m.c_str ()); if (!v) CHECK (c, code != 0 && !m.empty (), "verdict-error", "rejected with an error without code or text"); return v;
}
}

// verdicts on content models
MODE (dtd) {
  Rng & r = c.rng; Dtd d = gen_dtd (r, true); Str text = ser_dtd (r, d); c.noteData ("dtd", text); axlError * e = nullptr; DtdHold h (parse_dtd (text, &e, r.chance (1, 2)));
  if (!h.d) c.fail ("parse", "a DTD is rejected: %s", err_take (e).c_str ()); CHECK (c, !e, "parse", "accepted with an error");
  int docs = r.range (1, 5), ok = 0, bad = 0; c.count ("dtds");
  std::vector<std::pair<std::shared_ptr<DocHold>, bool>> keep;
  for (int i = 0; i < docs; i++) {
    int budget = 40; DP root = gen_doc (r, d, d.elems[r.chance (3, 4) ? 0 : r.below ((uint32_t) d.elems.size ())].name, 0, budget); std::vector<DNode *> v; flat (root, v);
    for (int k = r.chance (1, 3) ? 0 : r.range (1, 2); k > 0; k--) { DNode * n = r.pick (v); auto & q = n->kids; Str other = r.chance (1, 10) ? Str ("undeclared") : d.elems[r.below ((uint32_t) d.elems.size ())].name; int b2 = 5;
      switch (r.below (6)) {
        case 0: if (!q.empty ()) q.erase (q.begin () + (long) r.below ((uint32_t) q.size ())); break;
        case 1: q.insert (q.begin () + (long) r.below ((uint32_t) q.size () + 1), gen_doc (r, d, other, 4, b2)); break;
        case 2: if (q.size () > 1) std::swap (q[r.below ((uint32_t) q.size ())], q[r.below ((uint32_t) q.size ())]); break;
        case 3: if (!q.empty ()) { auto x = q[r.below ((uint32_t) q.size ())]; q.insert (q.begin () + (long) r.below ((uint32_t) q.size () + 1), x); } break;
        case 4: if (!q.empty ()) q.resize (r.below ((uint32_t) q.size ())); break;
        default: if (!q.empty ()) q[r.below ((uint32_t) q.size ())] = gen_doc (r, d, other, 4, b2); else { const Elem * el = d.get (n->name); if (el && el->type == E_EMPTY) n->text = true; } }
      v.clear (); flat (root, v); }
    Str why, x = ser_doc (r, *root); bool want = valid_models (d, *root, why); c.noteData ("document", x); c.note ("expected %s %s", want ? "valid" : "invalid", why.c_str ());
    auto doc = std::make_shared<DocHold> (parse_mem (x, nullptr)); CHECK (c, doc->d, "setup", "document not parsed"); Str before = dump (doc->d);
    bool got = verdict (c, doc->d, h.d); CHECK (c, got == want, want ? "valid-rejected" : "invalid-accepted", "%s by %s: %s", want ? "a valid document is rejected" : "an invalid document is accepted", vis (text, 700).c_str (), want ? vis (x, 600).c_str () : (why + " in " + vis (x, 500)).c_str ());
    CHECK (c, dump (doc->d) == before, "changed", "validating changed the document"); (want ? ok : bad)++; keep.push_back ({ doc, want }); c.maxi ("nodes", v.size ());
  }
  for (auto & k : keep) if (r.chance (1, 2)) { CHECK (c, (bool) axl_dtd_validate (k.first->d, h.d, NULL) == k.second, "repeat", "a second validation of the same document differs"); c.count ("repeated"); }
  c.count ("valid", (uint64_t) ok); c.count ("invalid", (uint64_t) bad); for (auto & el : d.elems) { static const char * n[] = { "EMPTY", "ANY", "PCDATA", "mixed", "children" }; c.count (n[el.type]); }
  if (c.index < 3) c.sample (text); c.distinct (text);
}

// attributes, identifiers and references
namespace {
static void gen_attrs (Rng & r, Dtd & d, bool & ids, bool & refs) {
  ids = refs = false; for (auto & e : d.elems) { if (r.chance (1, 4)) continue; e.hasAttlist = true; int n = r.range (1, r.chance (1, 8) ? 14 : 5); bool id = false; for (int i = 0; i < n; i++) { Attr a; a.name = fmt ("a%d", i); unsigned k = r.below (12); a.type = k < 4 ? 0 : k < 6 ? 1 : k < 8 && !id ? 2 : k < 10 ? 3 : (int) r.range (4, 7);
      if (a.type == 2) id = true; if (a.type == 1) for (int j = r.range (1, 4); j >= 0; j--) a.values.push_back (fmt ("v%d", j)); a.def = a.type >= 2 && a.type != 4 ? r.range (0, 1) : r.range (0, 3); if (a.def >= 2) a.value = a.type == 1 ? r.pick (a.values) : a.type == 0 && r.chance (1, 4) ? r.pick (std::vector<Str> { "a > b", ">", "a (b|c)", "#FIXED", "" }) : fmt ("v%d", r.range (0, 3)); ids |= a.type == 2; refs |= a.type == 3; e.attrs.push_back (a); } }
  if (refs && !ids) { Elem & e = d.elems[0]; e.hasAttlist = true; Attr a; a.name = "theid"; a.type = 2; e.attrs.push_back (a); ids = true; }
}
static void fill_attrs (Rng & r, const Dtd & d, DNode & n, int & next, const std::vector<Str> & pool) {
  const Elem * e = d.get (n.name); n.attrs.clear ();
  if (e && e->hasAttlist) for (auto & a : e->attrs) { if (a.def != 1 && a.def != 2 && r.chance (1, 2)) continue; Str v; switch (a.type) { case 1: v = a.def == 2 ? a.value : r.pick (a.values); break; case 2: v = fmt ("id%d", next++); break; case 3: v = pool.empty () ? "id0" : r.pick (pool); break; default: v = a.def == 2 ? a.value : fmt ("v%d", r.range (0, 9)); } n.attrs.push_back ({ a.name, v }); }
  else if (e && r.chance (1, 4)) n.attrs.push_back ({ "free", "value" });
  for (size_t i = n.attrs.size (); i > 1; i--) std::swap (n.attrs[i - 1], n.attrs[r.below ((uint32_t) i)]);
}
static void walk_attrs (const Dtd & d, const DNode & n, std::set<Str> & ids, std::vector<Str> & refs, Str & why) {
  const Elem * e = d.get (n.name); std::map<Str, Str> m (n.attrs.begin (), n.attrs.end ());
  if (e && e->hasAttlist) {
    for (auto & x : m) { const Attr * a = nullptr; for (auto & y : e->attrs) if (y.name == x.first) a = &y; if (!a) { why = x.first + " is not declared for " + n.name; return; } if (a->type == 1 && std::find (a->values.begin (), a->values.end (), x.second) == a->values.end ()) { why = x.first + " of " + n.name + " is not one of its values"; return; } }
    for (auto & a : e->attrs) { if (a.def == 1 && !m.count (a.name)) { why = a.name + " missing in " + n.name; return; } if (a.def == 2 && (!m.count (a.name) || m[a.name] != a.value)) { why = a.name + " of " + n.name + " does not have its fixed value"; return; }
      if (a.type == 2 && m.count (a.name) && !ids.insert (m[a.name]).second) { why = "identifier " + m[a.name] + " repeated"; return; } if (a.type == 3 && m.count (a.name)) refs.push_back (m[a.name]); } }
  if (e && e->type == E_ANY) return;
  for (auto & k : n.kids) { if (!why.empty ()) return; walk_attrs (d, *k, ids, refs, why); }
}
}
MODE (dtdattr) {
  Rng & r = c.rng; Dtd d = gen_dtd (r, true); bool ids, refs; gen_attrs (r, d, ids, refs); if (r.chance (1, 3)) { Ent n; n.name = "type"; n.value = "CDATA"; n.param = true; d.ents.push_back (n); }
  if (r.chance (1, 3)) gen_pes (r, d);
  Str text = ser_dtd (r, d); c.noteData ("dtd", text); axlError * e = nullptr; DtdHold h (parse_dtd (text, &e, r.chance (1, 2))); if (!h.d) c.fail ("parse", "a DTD is rejected: %s", err_take (e).c_str ());
  for (int i = r.range (1, 5); i > 0; i--) {
    int budget = 40; DP root = gen_doc (r, d, d.elems[0].name, 0, budget); Str w0; if (!valid_models (d, *root, w0)) continue; std::vector<DNode *> v; flat (root, v); int next = 0; for (auto n : v) fill_attrs (r, d, *n, next, {}); next = 0; std::vector<Str> pool;
    // the identifiers that will be there: those of validated elements
    for (auto n : v) for (auto & a : n->attrs) if (a.second.compare (0, 2, "id") == 0) { const Elem * el = d.get (n->name); for (auto & y : el->attrs) if (y.name == a.first && y.type == 2) pool.push_back (a.second); }
    for (auto n : v) { const Elem * el = d.get (n->name); if (el) for (size_t k = 0; k < n->attrs.size (); k++) for (auto & y : el->attrs) if (y.name == n->attrs[k].first && y.type == 3 && !pool.empty ()) n->attrs[k].second = r.pick (pool); }
    if (r.chance (2, 3)) { DNode * n = r.pick (v); const Elem * el = d.get (n->name); std::vector<DNode *> w; for (auto x : v) if (!x->attrs.empty ()) w.push_back (x); if (!w.empty () && r.chance (3, 4)) { n = r.pick (w); el = d.get (n->name); }
      switch (r.below (6)) { case 0: n->attrs.push_back ({ "unknown", "x" }); break; case 1: if (!n->attrs.empty ()) n->attrs.erase (n->attrs.begin () + (long) r.below ((uint32_t) n->attrs.size ())); break; case 2: if (!n->attrs.empty ()) n->attrs[r.below ((uint32_t) n->attrs.size ())].second = r.chance (1, 2) ? "" : "other"; break; case 3: if (!n->attrs.empty () && !pool.empty ()) n->attrs[r.below ((uint32_t) n->attrs.size ())].second = r.pick (pool); break; case 4: if (!n->attrs.empty ()) { auto & x = n->attrs[r.below ((uint32_t) n->attrs.size ())].second; x += "x"; } break; default: { (void) el; if (!n->attrs.empty ()) { Str & x = n->attrs[r.below ((uint32_t) n->attrs.size ())].second; if (!x.empty ()) x = x.substr (0, x.size () - 1); } } } }
    std::set<Str> idset; std::vector<Str> rf; Str why; walk_attrs (d, *root, idset, rf, why); if (why.empty ()) for (auto & x : rf) if (!idset.count (x)) why = "reference " + x + " to nothing"; bool want = why.empty ();
    Str x = ser_doc (r, *root); c.noteData ("document", x); c.note ("expected %s %s", want ? "valid" : "invalid", why.c_str ()); DocHold doc (parse_mem (x, nullptr)); CHECK (c, doc.d, "setup", "document not parsed"); Str before = dump (doc.d);
    bool got = verdict (c, doc.d, h.d); CHECK (c, got == want, want ? "valid-rejected" : "invalid-accepted", "%s by %s: %s", want ? "a valid document is rejected" : "an invalid document is accepted", vis (text, 700).c_str (), want ? vis (x, 600).c_str () : (why + " in " + vis (x, 500)).c_str ());
    CHECK (c, dump (doc.d) == before, "changed", "validating changed the document"); CHECK (c, (bool) axl_dtd_validate (doc.d, h.d, NULL) == want, "repeat", "a second validation of the same document differs");
    c.count (want ? "valid" : "invalid"); if (!want) { static const char * ks[] = { "not declared", "one of its values", "missing", "fixed value", "repeated", "to nothing" }; for (auto k : ks) if (why.find (k) != Str::npos) c.count (k); } c.count ("identifiers", idset.size ()); c.count ("references", rf.size ());
  }
  c.count ("dtds"); if (c.index < 3) c.sample (text); c.distinct (text);
}

// what the DTD reports, equality, files
namespace {
static AxlDtdTimes times_of (char t) { return t == '1' ? ONE_AND_ONLY_ONE : t == '?' ? ZERO_OR_ONE : t == '*' ? ZERO_OR_MANY : ONE_OR_MANY; }
static void check_list (Ctx & c, const Str & el, const Part & p, axlDtdElementList * l) {
  CHECK (c, l && axl_dtd_item_list_count (l) == (int) p.kids.size (), "model-count", "a list of <%s> reports %d particles, %zu expected", el.c_str (), l ? axl_dtd_item_list_count (l) : -1, p.kids.size ());
  if (p.kids.size () > 1) CHECK (c, axl_dtd_item_list_type (l) == (p.k == P_SEQ ? SEQUENCE : CHOICE), "model-type", "a list of <%s> reports the kind %d", el.c_str (), (int) axl_dtd_item_list_type (l));
  CHECK (c, axl_dtd_item_list_repeat (l) == times_of (p.times), "model-times", "a list of <%s> reports the repetition %d for %c", el.c_str (), (int) axl_dtd_item_list_repeat (l), p.times);
  for (size_t i = 0; i < p.kids.size (); i++) { axlDtdElementListNode * n = axl_dtd_item_list_get_node (l, (int) i); const Part & k = *p.kids[i]; CHECK (c, n && axl_dtd_item_node_get_repeat (n) == times_of (k.times), "model-times", "particle %zu of <%s> reports another repetition", i, el.c_str ());
    if (k.k == P_NAME) CHECK (c, axl_dtd_item_node_get_type (n) == AXL_ELEMENT_NODE && k.name == axl_dtd_item_node_get_value (n), "model-name", "particle %zu of <%s>", i, el.c_str ()); else { CHECK (c, axl_dtd_item_node_get_type (n) == AXL_ELEMENT_LIST, "model-name", "particle %zu of <%s> is not a list", i, el.c_str ()); check_list (c, el, k, axl_dtd_item_node_get_list (n)); } }
}
static void uses (const Part & p, std::set<Str> & s) { if (p.k == P_NAME) s.insert (p.name); for (auto & k : p.kids) uses (*k, s); }
static void check_info (Ctx & c, const Dtd & d, axlDtd * x) {
  std::map<Str, std::set<Str>> kids; std::set<Str> used; for (auto & e : d.elems) if (e.type == E_CHILDREN || e.type == E_MIXED) { uses (*e.model, kids[e.name]); used.insert (kids[e.name].begin (), kids[e.name].end ()); }
  for (auto & e : d.elems) {
    axlDtdElement * q = axl_dtd_get_element (x, e.name.c_str ()); CHECK (c, q && e.name == axl_dtd_get_element_name (q), "element", "<%s> is not found", e.name.c_str ()); AxlDtdElementType t = axl_dtd_get_element_type (q);
    static const AxlDtdElementType want[] = { ELEMENT_TYPE_EMPTY, ELEMENT_TYPE_ANY, ELEMENT_TYPE_PCDATA, ELEMENT_TYPE_MIXED, ELEMENT_TYPE_CHILDREN }; CHECK (c, t == want[e.type], "element-type", "<%s> reports the type %d, %d expected", e.name.c_str (), (int) t, (int) want[e.type]);
    if (e.type == E_CHILDREN) check_list (c, e.name, *e.model, axl_dtd_get_item_list (q));
    if (e.type == E_MIXED) { Part m; m.k = P_CHOICE; m.times = '*'; auto t0 = std::make_shared<Part> (); t0->name = "#PCDATA"; m.kids.push_back (t0); for (auto & k : e.model->kids) m.kids.push_back (k); check_list (c, e.name, m, axl_dtd_get_item_list (q)); }
    CHECK (c, !!axl_dtd_element_is_toplevel (x, q) == !used.count (e.name), "toplevel", "<%s> reported %stop level", e.name.c_str (), axl_dtd_element_is_toplevel (x, q) ? "" : "not ");
    axlDtdAttribute * a = axl_dtd_get_attr (x, e.name.c_str ()); CHECK (c, !!a == e.hasAttlist, "attlist", "attributes of <%s>", e.name.c_str ()); CHECK (c, axl_dtd_get_attr_contraints (x, e.name.c_str ()) == (int) (e.hasAttlist ? e.attrs.size () : 0), "attlist-count", "<%s> reports %d attributes", e.name.c_str (), axl_dtd_get_attr_contraints (x, e.name.c_str ()));
  }
  CHECK (c, !axl_dtd_get_element (x, "nothing") && !axl_dtd_get_attr (x, "nothing") && axl_dtd_get_attr_contraints (x, "nothing") == 0, "element", "an element not declared is found");
  for (auto & n : d.ents) { axlDtdEntityType t = n.param ? PARAMETER_ENTITY : GENERAL_ENTITY; CHECK (c, axl_dtd_entity_exists (x, n.name.c_str (), t), "entity", "entity %s not found", n.name.c_str ()); const char * v = axl_dtd_entity_value (x, n.name.c_str (), t); Str first; for (auto & m : d.ents) if (m.name == n.name && m.param == n.param) { first = m.value; break; } CHECK (c, v && first == v, "entity", "entity %s is %s", n.name.c_str (), vis (v).c_str ()); c.count ("entities"); }
  CHECK (c, !axl_dtd_entity_exists (x, "nothing", GENERAL_ENTITY) && !axl_dtd_entity_value (x, "nothing", GENERAL_ENTITY), "entity", "an entity not declared is found");
  axlDtdElement * root = axl_dtd_get_root (x); if (d.elems.empty ()) { CHECK (c, !root, "root", "a root without elements"); return; }
  CHECK (c, root && d.get (axl_dtd_get_element_name (root)), "root", "no root");
  // when one element only is no child of others and all come from it, that is the root
  std::vector<Str> tops; for (auto & e : d.elems) if (!used.count (e.name)) tops.push_back (e.name);
  if (tops.size () == 1) { std::set<Str> reach { tops[0] }; std::vector<Str> todo { tops[0] }; while (!todo.empty ()) { Str t = todo.back (); todo.pop_back (); for (auto & k : kids[t]) if (d.get (k) && reach.insert (k).second) todo.push_back (k); } 
    bool cyc = false; for (auto & e : d.elems) { std::set<Str> re; std::vector<Str> td (kids[e.name].begin (), kids[e.name].end ()); while (!td.empty ()) { Str t = td.back (); td.pop_back (); if (!re.insert (t).second) continue; for (auto & k : kids[t]) td.push_back (k); } if (re.count (e.name)) cyc = true; }
    if (reach.size () == d.elems.size () && !cyc) { CHECK (c, tops[0] == axl_dtd_get_element_name (root), "root", "root <%s>, <%s> expected", axl_dtd_get_element_name (root), tops[0].c_str ()); c.count ("roots"); } else if (cyc) c.count ("cyclic"); }
  c.count ("elements", d.elems.size ());
}
static Dtd deep_copy (const Dtd & d) { std::function<PP (const PP &)> cp = [&] (const PP & p) -> PP { if (!p) return p; auto q = std::make_shared<Part> (*p); for (auto & k : q->kids) k = cp (k); return q; }; Dtd o = d; for (auto & e : o.elems) e.model = cp (e.model); return o; }
}
MODE (dtdinfo) {
  Rng & r = c.rng; Dtd d = gen_dtd (r, true); bool ids = false, refs = false; if (r.chance (2, 3)) gen_attrs (r, d, ids, refs); for (int i = r.range (0, 3); i > 0; i--) { Ent n; n.name = fmt ("ent%d", i); n.value = gen_text (r, GenCfg (), 30, true); for (auto & x : n.value) if (x == '"') x = '.'; n.param = r.chance (1, 2); d.ents.push_back (n); }
  if (r.chance (1, 3)) gen_pes (r, d);
  if (r.chance (1, 8)) { d.elems.clear (); if (d.ents.empty ()) { Ent n; n.name = "e"; n.value = "v"; d.ents.push_back (n); } }
  Rng r2 = r; Str text = ser_dtd (r, d); c.noteData ("dtd", text); axlError * e = nullptr; DtdHold h (parse_dtd (text, &e, r.chance (1, 2))); if (!h.d) c.fail ("parse", "a DTD is rejected: %s", err_take (e).c_str ()); CHECK (c, !e, "parse", "accepted with an error"); check_info (c, d, h.d);
  // another reading of the same declarations: other lexical form, or from a file
  Str text2 = r.chance (1, 2) ? text : ser_dtd (r, d); Str path = c.path ("d.dtd"); bool file = r.chance (1, 2); if (file && r.chance (1, 3)) { Str pad = "<!-- " + Str ((size_t) r.range (7000, 9000), 'p') + " -->"; text2 = pad + text2; } if (file) { write_file (path, text2); g_read = ReadPlan (); g_read.active = true; if (r.chance (2, 3)) { int n = r.range (1, 8); for (int i = 0; i < n; i++) g_read.sizes.push_back (r.chance (1, 3) ? 1 : r.range (1, 600)); } }
  DtdHold h2 (file ? dtd_from_file (c, path.c_str (), &e) : parse_dtd (text2, &e, false)); g_read.active = false; if (file) { unlink (path.c_str ()); c.count ("files"); } if (!h2.d) c.fail ("parse", "a DTD is rejected: %s %s", vis (text2).c_str (), err_take (e).c_str ()); check_info (c, d, h2.d);
  CHECK (c, axl_dtd_are_equal (h.d, h2.d) && axl_dtd_are_equal (h2.d, h.d) && axl_dtd_are_equal (h.d, h.d), "equal", "two readings of the same DTD are not equal"); CHECK (c, !axl_dtd_are_equal (h.d, NULL) && !axl_dtd_are_equal (NULL, h.d), "equal", "equal to nothing");
  // one declaration changed
  Dtd o = deep_copy (d); Str what; switch (r.below (16)) {
    case 0: { Elem x; x.name = "added"; x.type = E_EMPTY; o.elems.push_back (x); what = "element added"; break; }
    case 1: if (!o.elems.empty ()) { bool id = false; for (auto & y : o.elems.back ().attrs) id |= y.type == 2; if (id) break; o.elems.pop_back (); what = "element dropped"; } break;
    case 2: for (auto & x : o.elems) if (x.type == E_EMPTY) { x.type = E_ANY; what = "element type"; break; } break;
    case 3: case 4: { std::vector<Part *> ps; std::function<void (Part &)> col = [&] (Part & p) { ps.push_back (&p); for (auto & k : p.kids) col (*k); }; for (auto & x : o.elems) if (x.type == E_CHILDREN) col (*x.model); if (!ps.empty ()) { Part * p = ps[r.below ((uint32_t) ps.size ())]; if (r.chance (1, 2)) { p->times = p->times == '1' ? '+' : p->times == '+' ? '*' : p->times == '*' ? '?' : '1'; what = "repetition"; } else if (p->k == P_NAME) { p->name += "x"; what = "particle name"; } else if (p->kids.size () > 1 && r.chance (1, 2)) { p->k = p->k == P_SEQ ? P_CHOICE : P_SEQ; what = "list kind"; } else { auto q = std::make_shared<Part> (); q->name = "more"; p->kids.push_back (q); what = "particle added"; } } break; }
    case 5: for (auto & x : o.ents) { x.value += "x"; what = "entity value"; break; } break;
    case 6: { std::vector<Attr *> as; for (auto & x : o.elems) for (auto & a : x.attrs) as.push_back (&a); if (!as.empty ()) { Attr * a = as[r.below ((uint32_t) as.size ())]; if (a->def >= 2) { if (a->type == 1) break; a->value += "x"; what = "default value"; } else if (a->type != 2) { a->name += "x"; what = "attribute name"; } } break; }
    case 7: { std::vector<Attr *> as; for (auto & x : o.elems) for (auto & a : x.attrs) as.push_back (&a); if (!as.empty ()) { Attr * a = as[r.below ((uint32_t) as.size ())]; bool had = a->def >= 2; // also given a value, or left without one
      if (a->type == 0 || a->type == 1 || a->type == 4) { static const int other[4][3] = { { 1, 2, 3 }, { 0, 2, 3 }, { 0, 1, 3 }, { 0, 1, 2 } }; int was = a->def; a->def = other[was][r.below (3)]; if (a->def >= 2 && !had) a->value = a->type == 1 ? r.pick (a->values) : r.chance (1, 3) ? "" : "v0"; } else a->def = 1 - a->def; what = "attribute default"; } break; }
    case 8: if (!o.ents.empty ()) { Ent & x = o.ents[r.below ((uint32_t) o.ents.size ())]; if (r.chance (1, 2)) { x.name += "x"; what = "entity name"; } else if (x.value.find ('%') == Str::npos && x.value != "CDATA") { x.param = !x.param; what = "entity kind"; } } break;
    case 12: { Ent n; n.name = "more"; n.value = "x"; n.param = r.chance (1, 2); o.ents.push_back (n); what = "entity added"; break; }
    case 13: if (!o.ents.empty ()) { o.ents.erase (o.ents.begin () + (long) r.below ((uint32_t) o.ents.size ())); what = "entity dropped"; } break;
    case 14: { Elem * from = nullptr, * to = nullptr; for (auto & x : o.elems) { if (x.hasAttlist && !from) from = &x; else if (!x.hasAttlist) to = &x; } // the attributes of another element
      if (from && to) { to->hasAttlist = true; to->attrs = from->attrs; from->hasAttlist = false; from->attrs.clear (); what = "element that has the attributes"; } break; }
    case 15: if (!o.elems.empty ()) { bool id = false; Elem & x = o.elems[r.below ((uint32_t) o.elems.size ())]; for (auto & y : x.attrs) id |= y.type == 2; if (id) break; if (x.hasAttlist && r.chance (1, 2)) { x.hasAttlist = false; x.attrs.clear (); what = "attributes dropped"; } else if (!x.hasAttlist) { x.name += "-x"; what = "element name"; } } break;
    case 9: { std::vector<Attr *> as; for (auto & x : o.elems) for (auto & a : x.attrs) if (a.type == 0 || a.type >= 4) as.push_back (&a); if (!as.empty ()) { Attr * a = as[r.below ((uint32_t) as.size ())]; a->type = a->type == 0 ? 4 : 0; what = "attribute type"; } break; }
    default: { std::vector<Attr *> as; for (auto & x : o.elems) for (auto & a : x.attrs) if (a.type == 1) as.push_back (&a); if (!as.empty ()) { Attr * a = as[r.below ((uint32_t) as.size ())]; if (r.chance (1, 3)) { a->values.push_back ("other"); what = "enumeration, one more"; } else { size_t k = r.below ((uint32_t) a->values.size ()); if (a->def >= 2 && a->value == a->values[k]) a->value += "x"; a->values[k] += "x"; what = "enumeration value"; } } } }
  if (!what.empty ()) { Str t3 = ser_dtd (r, o); c.noteData ("changed", t3); DtdHold h3 (parse_dtd (t3, &e, false)); if (!h3.d) { Str m = err_take (e); CHECK (c, o.elems.empty () && o.ents.empty (), "parse", "a DTD is rejected: %s", m.c_str ()); } else { CHECK (c, !axl_dtd_are_equal (h.d, h3.d) && !axl_dtd_are_equal (h3.d, h.d), "equal", "DTDs that differ in a declaration (%s) are reported equal", what.c_str ()); c.count ("differences"); } }
  // cut in the middle of a declaration
  { std::vector<std::pair<size_t, size_t>> at; size_t i = 0; while ((i = text.find ("<!", i)) != Str::npos) { size_t j; if (text.compare (i, 4, "<!--") == 0) j = text.find ("-->", i) + 2; else { char q = 0; for (j = i; j < text.size (); j++) { if (q) { if (text[j] == q) q = 0; } else if (text[j] == '"' || text[j] == '\'') q = text[j]; else if (text[j] == '>') break; } } at.push_back ({ i, j }); i = j; }
    if (!at.empty ()) { auto x = r.pick (at); Str t = text.substr (0, x.first + (size_t) r.range (1, (int) (x.second - x.first))); c.noteData ("cut", t); DtdHold h4 (parse_dtd (t, &e, r.chance (1, 2))); bool has = e != nullptr; Str m = has ? err_take (e) : ""; CHECK (c, !h4.d, "cut", "a DTD that ends inside of a declaration is accepted: %s", vis (t).c_str ()); CHECK (c, has && !m.empty (), "cut", "a DTD that ends inside of a declaration is rejected without an error"); c.count ("cut"); } }
  // a declaration that is not allowed
  { Str w, bad; bool hasId = false; for (auto & x : d.elems) for (auto & y : x.attrs) hasId |= y.type == 2; Str z = sp (r, true), o = sp (r);
    switch (r.below (10)) {
      case 0: if (!d.elems.empty ()) { w = "an element declared twice"; Elem x = r.pick (d.elems); if (r.chance (1, 2)) { x.type = E_EMPTY; x.model = nullptr; } bad = ser_elem (r, x); } break;
      case 1: { w = "both separators in a list"; Str n[4] = { "a", "(b)", "(c|d)*", "e+" }; bool first = r.chance (1, 2); bad = "<!ELEMENT" + z + "mixsep" + z + "(" + o + r.pick (std::vector<Str> (n, n + 4)) + o + (first ? "," : "|") + o + r.pick (std::vector<Str> (n, n + 4)) + o + (first ? "|" : ",") + o + r.pick (std::vector<Str> (n, n + 4)) + o + ")>"; break; }
      case 2: { w = "two ID attributes"; Str def[2] = { "#IMPLIED", "#REQUIRED" }, mid = r.chance (1, 3) ? z + "other" + z + "CDATA" + z + "'a>b'" : ""; Str again = r.chance (1, 4) ? o + ">" + o + "<!ATTLIST" + z + "twoids" : ""; bad = "<!ATTLIST" + z + "twoids" + z + "one" + z + "ID" + z + def[r.below (2)] + mid + again + z + "two" + z + "ID" + z + def[r.below (2)] + o + ">"; break; }
      case 3: { w = "a default that is not in the enumeration"; std::vector<Str> v { "x", "y", "xyz", "y.1", "_x" }; int m = r.range (1, 5); Str l; for (int i = 0; i < m; i++) l += (i ? o + "|" + o : "") + v[(size_t) i]; std::vector<Str> no { "z", "xy", "X", "x|y", "x y", "" }; for (int i = m; i < 5; i++) no.push_back (v[(size_t) i]); Str q = r.chance (1, 2) ? "\"" : "'";
        bad = "<!ATTLIST" + z + "enu" + (r.chance (1, 3) ? z + "before" + z + "(x|q)" + z + "'q'" : "") + z + "one" + z + "(" + o + l + o + ")" + z + (r.chance (1, 2) ? "#FIXED" + z : "") + q + r.pick (no) + q + (r.chance (1, 3) ? z + "after" + z + "CDATA" + z + "#IMPLIED" : "") + o + ">"; break; }
      case 4: if (!hasId) { w = "IDREF without ID"; bad = "<!ATTLIST" + z + "ref" + z + "one" + z + (r.chance (1, 2) ? "IDREF" : "IDREFS") + z + (r.chance (1, 2) ? "#IMPLIED" : "#REQUIRED") + o + ">"; } break;
      case 5: w = "an element without content"; bad = "<!ELEMENT" + z + "nocontent" + o + ">"; break;
      case 6: w = "an unknown attribute type"; bad = "<!ATTLIST" + z + "unk" + z + "one" + z + "WHATEVER" + z + "#IMPLIED" + o + ">"; break;
      case 7: w = "an unknown default"; bad = "<!ATTLIST" + z + "unk" + z + "one" + z + "CDATA" + z + "#WHATEVER" + o + ">"; break;
      case 8: w = "an ID with a value"; bad = "<!ATTLIST" + z + "idv" + z + "one" + z + "ID" + z + (r.chance (1, 2) ? "#FIXED" + z : "") + (r.chance (1, 2) ? "\"i\"" : "'i'") + o + ">"; break;
      default: w = "an unknown declaration"; bad = r.chance (1, 2) ? "<!WHATEVER one>" : "text"; }
    if (!bad.empty ()) { Str t = r.chance (1, 3) ? text + bad : text + bad + "<!ELEMENT zz EMPTY>"; c.noteData ("wrong", t); DtdHold h5 (parse_dtd (t, &e, r.chance (1, 2))); bool has = e != nullptr; Str m = has ? err_take (e) : ""; CHECK (c, !h5.d, "wrong", "a DTD having %s is accepted: %s", w.c_str (), vis (t).c_str ()); CHECK (c, has && !m.empty (), "wrong", "a DTD having %s is rejected without an error", w.c_str ()); c.count ("wrong"); } }
  c.count ("dtds"); if (c.index < 3) c.sample (text); c.distinct (text);
}

// any bytes as a DTD
MODE (fuzzdtd) {
  Rng & r = c.rng; Str s; static const std::vector<Str> dict = { "<!ELEMENT ", "<!ATTLIST ", "<!ENTITY ", "<!--", "-->", "(", ")", ",", "|", "*", "+", "?", "#PCDATA", "EMPTY", "ANY", "CDATA", "ID ", "IDREF ", "IDREFS", "NMTOKEN", "ENTITY", "ENTITIES", "NOTATION", "#REQUIRED", "#IMPLIED", "#FIXED", "\"", "'", ">", "<", "%", "%e;", ";", " ", "a", "b", "SYSTEM", "PUBLIC", "\"v\"", "<?xml version='1.0'?>", "<![INCLUDE[", "]]>", "((", "))" };
  unsigned k = r.below (8); if (k == 0) { int n = r.range (0, 40); for (int i = 0; i < n; i++) s += r.pick (dict); } else if (k == 1) { int n = r.range (0, 60); for (int i = 0; i < n; i++) s += (char) r.below (256); }
  else { Dtd d = gen_dtd (r, true); bool a, b; gen_attrs (r, d, a, b); if (r.chance (1, 2)) { Ent n; n.name = "e"; n.value = "CDATA"; n.param = true; d.ents.push_back (n); } s = ser_dtd (r, d); if (k < 6) s = mutate_bytes (r, s, dict); else if (k == 6) s.resize (r.below ((uint32_t) s.size () + 1)); }
  c.noteData ("dtd", s); axlError * e = nullptr; axlDtd * x; if (r.chance (1, 5)) { Str path = c.path ("f.dtd"); write_file (path, s); g_read = ReadPlan (); g_read.active = true; if (r.chance (1, 2)) for (int i = 0; i < 5; i++) g_read.sizes.push_back (r.range (1, 50)); if (r.chance (1, 3)) g_read.fail_at = r.range (0, 12); x = dtd_from_file (c, path.c_str (), &e); g_read.active = false; unlink (path.c_str ()); c.count ("files"); if (g_read.failed) { c.count ("read_errors"); if (x) { axl_dtd_free (x); c.fail ("read-error", "a DTD whose file cannot be read until its end is accepted: %s", vis (s).c_str ()); } } } else x = parse_dtd (s, r.chance (1, 8) ? NULL : &e, r.chance (1, 2));
  DtdHold h (x); bool has = e != nullptr; if (has) { int code = axl_error_get_code (e); Str m = err_take (e); CHECK (c, !x, "both", "a DTD and the error %s", m.c_str ()); CHECK (c, code != 0 && !m.empty (), "error", "an error without code or text"); }
  if (x) {
    static const char * docs[] = { "<a/>", "<a><b/></a>", "<e0/>", "<e0><n1/><p1/></e0>", "<x0 a0='v1'>text<x1 a1='id0'/></x0>", "<n0><e1/><e1/><x2/></n0>", "<p0>text</p0>" };
    for (int i = 0; i < 3; i++) { DocHold doc (axl_doc_parse (docs[r.below (7)], -1, NULL)); axlError * e2 = nullptr; bool v = axl_dtd_validate (doc.d, x, &e2); if (e2) err_take (e2); (void) v; c.count ("validations"); }
    DtdHold y (parse_dtd (s, NULL, false)); if (y.d) { (void) axl_dtd_are_equal (x, y.d); } axlDtdElement * root = axl_dtd_get_root (x); if (root) { (void) axl_dtd_element_is_toplevel (x, root); (void) axl_dtd_get_item_list (root); }
    (void) axl_dtd_get_attr_contraints (x, "a"); (void) axl_dtd_entity_value (x, "e", PARAMETER_ENTITY); }
  c.count (x ? "accepted" : "rejected"); c.distinct (s);
}

// for other workloads: the text of a random DTD
Str vh_gen_dtd_text (Rng & r) {
  Dtd d = gen_dtd (r, true); bool a = false, b = false; if (r.chance (2, 3)) gen_attrs (r, d, a, b);
  for (int i = r.range (0, 3); i > 0; i--) { Ent n; n.name = fmt ("ent%d", i); n.value = gen_text (r, GenCfg (), 30, true); for (auto & x : n.value) { if (x == '"') x = '.'; if (x == '\n' || x == '\r' || x == '\t') x = ' '; } n.param = r.chance (1, 2); d.ents.push_back (n); }
  if (r.chance (1, 3)) gen_pes (r, d);
  return ser_dtd (r, d);
}
