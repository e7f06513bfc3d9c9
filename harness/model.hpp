// Reference model of an XML document, generator, text form with lexical variation, and comparison with a live tree.
#pragma once
#include "vh.hpp"

enum Kind { K_TEXT, K_CDATA, K_COMMENT, K_PI, K_ELEM };
struct MNode;
struct MItem { Kind k = K_TEXT; Str text; Str target; bool hasContent = true; std::shared_ptr<MNode> node; };
struct MNode {
  Str name;
  std::vector<std::pair<Str, Str>> attrs;   // raw values, in document order
  std::vector<MItem> items;
  bool preserve = false;                    // xml:space in force for the content
};
typedef std::shared_ptr<MNode> MP;

struct GenCfg {
  int maxNodes = 30, maxDepth = 8, maxKids = 6, maxAttrs = 5;
  bool manyAttrs = true;      // sometimes around and over the 10/11 boundary
  bool text = true, cdata = true, comments = true, pis = true, pisNoContent = true;
  bool xmlspace = false;
  bool oddAttrs = false;       // attributes named almost like xml:space, or as the ones other calls read
  bool bigText = false;       // sometimes text longer than a read buffer
  bool unicode = true;
  bool entities = true;
  bool emptyCdata = true;
  int namePool = 6;           // small pools give equal names
  bool deep = false;          // one long chain of elements
};
Str gen_name (Rng & r, const GenCfg & g);
Str gen_text (Rng & r, const GenCfg & g, int maxlen, bool attr);   // legal raw character data, never blank
MP gen_tree (Rng & r, const GenCfg & g);
size_t count_nodes (const MNode & n);
size_t tree_depth (const MNode & n);
Str canon (const MNode & n);                 // canonical form of the model
Str canon_trim (const MNode & n);            // same, all character data trimmed
Str canon_com (const MNode & n);             // same, only comments trimmed: dumps pad them
MP clone_model (const MNode & n);
Str escape_defaults (const Str & s);         // the five predefined entities

struct SerCfg { bool vary = true; bool header = true; bool blank = true; bool doctype = true; bool prolog = true; bool trailer = true; };
struct DocText { Str text; Str encoding; bool hasEncoding = false; bool standalone = false; size_t rootAt = 0; };
DocText serialize_doc (Rng & r, const MNode & n, const SerCfg & s);
void serialize_node (Rng & r, const MNode & n, const SerCfg & s, Str & out);

Str canon_axl (axlNode * n);                 // canonical form of a live tree
Str canon_axl_trim (axlNode * n);
Str canon_axl_com (axlNode * n);
// builds the tree through the API, with random choice among equivalent calls; the text of the model is raw
axlNode * build_axl (Rng & r, MNode & m);
void collect (MNode & n, std::vector<MNode *> & out);
bool has_blank_only (const Str & s);
Str trim_ws (const Str & s);
Str ws (struct Rng & r, int min, int max);
inline bool is_ws (char ch) { return ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r'; }

// structural invariants of a live tree: parent, sibling, first/last and count agreement
void check_links (Ctx & c, axlNode * n, axlNode * parent, const char * where);
// every query of the node API agrees with the model
void check_tree (Ctx & c, const MNode & m, axlNode * n, const char * key);
struct DocHold { axlDoc * d; explicit DocHold (axlDoc * x = nullptr) : d (x) {} ~DocHold () { if (d) axl_doc_free (d); } DocHold (const DocHold &) = delete; };
Str err_take (axlError * & e);
axlDoc * parse_mem (const Str & s, axlError ** e);   // exact-size buffer: a read past the end is seen
Str mutate_bytes (Rng & r, const Str & s, const std::vector<Str> & dict);
