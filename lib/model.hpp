// Reference semantics of libecoli grammars, written from the documentation
// (and the observable behaviour of the base commit where it is silent),
// independent of the library's code: grammar AST, generators, builder that
// realises the AST through the public API, reference parser and completer.
#pragma once
#include "ec.hpp"
#include "engine.hpp"
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace model {

using pbt::Ctx;
using pbt::Src;

// ------------------------------------------------------------- regexps
struct Re {
	enum K { LIT, ANY, CLASS, SEQ, ALT, STAR, PLUS, OPT } k = LIT;
	char c = 'a';
	std::string cls;   // CLASS members
	bool neg = false;
	std::vector<Re> ch;
	std::string text() const;                 // POSIX ERE
	void ends(const std::string &s, size_t from, std::set<size_t> &out) const; // all match ends
	bool full(const std::string &s) const;
	int longest(const std::string &s, size_t from) const; // -1: no match
	std::string sample(Src &s) const;
};
Re gen_re(Src &s, int depth = 3, const std::string &alpha = "ab1 ");

// ------------------------------------------------------------- tokens
struct Tok {
	std::string s, attr;
	bool operator==(const Tok &o) const { return s == o.s && attr == o.attr; }
};
typedef std::vector<Tok> Toks;
std::string show(const Toks &t);
Toks from_strvec(const struct ec_strvec *v);
struct ec_strvec *to_strvec(const Toks &t);

// ------------------------------------------------------------ shell lexer
struct ShLex {
	bool unterminated = false;    // open quote or trailing backslash
	char quote = 0;               // opening quote left open
	std::vector<std::string> tokens; // non-strict result, without TRAILSP
	bool last_open = false;       // last token is being typed (no space after)
	bool trail = false;           // TRAILSP adds ""
	bool trail_ambiguous = false; // ends inside/just after a comment
};
ShLex sh_lex(const std::string &s);
std::string sh_quote(Src &s, const std::string &word); // random equivalent quoting

// ---------------------------------------------------------------- int
bool ref_int(const std::string &s, unsigned base, __int128 &v, bool is_signed);

// ------------------------------------------------------------- conditions
struct Cond {
	enum K { FUNC, STR, INT } k = INT;
	std::string name;  // function or string
	int64_t i = 0;
	std::string raw;   // INT: literal, when not the plain decimal
	std::vector<Cond> args;
	std::string text(Src *s = nullptr) const;
};

// ------------------------------------------------------------- grammar
enum Kind { STR, INT, UINT, ANY, SPACE, EMPTY, NONE, RE, FILE_, SEQ, OR, MANY, OPTION, ONCE, SUBSET,
	BYPASS, SHLEX, RELEX, DYN, COND,
	// types of our own, registered through the public API (user.cpp)
	ULOWER, UPARENT, UERR, UNOPARSE, UWRAP, ULONGEST, UNOT, NKINDS };
extern const char *kind_name[];

struct Pat { Re re; bool keep = true; std::string attr; };

struct G {
	Kind k = STR;
	std::string id;         // "" = EC_NO_ID
	std::string str;        // STR string, ANY attr, COND text
	int64_t min = 0, max = 0; // INT/UINT/MANY
	unsigned base = 0;
	Re re;
	std::vector<Pat> pats;
	Cond cond;
	std::vector<G *> ch;
	int uid = -1;           // -1: instantiated by a dynamic node
	struct ec_node *node = nullptr;
	bool is_ref = false;    // BYPASS closing a loop
};

struct Arena {
	std::deque<G> all;
	G *make(Kind k) { all.emplace_back(); all.back().k = k; return &all.back(); }
};

struct GenOpt {
	std::vector<unsigned> w = std::vector<unsigned>(NKINDS, 0); // weight of every kind
	int depth = 4;
	size_t max_ch = 4;
	bool loops = true;
	bool share = true;
	bool cond_wild = false;    // conditions that cannot be evaluated too
	int cond_depth = 3;
	size_t big = 0;            // blow some dimension up to about this size
	std::vector<std::string> words = {"a", "ab", "abc", "b", "ba", "foo", "foobar", "", "1", "x y", "-1"};
	std::vector<std::string> ids = {"i0", "i1", "i2", "i3"};
	static GenOpt core();      // everything deterministic except lexers/dyn/cond
};

struct Grammar {
	Arena a;
	G *root = nullptr;
	std::vector<G *> nodes;    // static nodes, index = uid
	std::string text() const;
	bool loops = false;
	size_t shared = 0;
};
void gen_grammar(Src &s, const GenOpt &o, Grammar &g);
std::string text(const G *g, int maxdepth = 12);
// Build all nodes through the public API. Returns a root reference owned by
// the caller; NULL if the library refused (err says what).
struct ec_node *build(Grammar &g, std::string &err);
struct ec_node *build_node(G *g);     // fresh tree, no sharing, for DYN templates
void sample(Src &s, const G *g, Toks &out, int budget = 24, size_t cap = 12);
Toks gen_input(Src &s, const Grammar &g, const GenOpt &o);
void complete_cut(Src &s, Toks &t, const GenOpt &o); // turn a sentence into completion input

// ---------------------------------------------------------- reference tree
struct P {
	const G *g = nullptr;
	P *parent = nullptr;
	std::vector<std::unique_ptr<P>> ch;
	bool matched = false;
	Toks toks;
	P *root() { P *p = this; while (p->parent) p = p->parent; return p; }
};
static const int NOMATCH = INT_MAX;

struct Ref {
	Arena dyn;                 // instances built by dynamic nodes
	uint64_t steps = 0, limit = 30000;
	bool cond_error = false;   // a condition could not be evaluated
	void step() { if (++steps > limit) throw pbt::Discard(); }
	int parse(const G *g, P *parent, const Toks &t, P *as_root = nullptr);
	std::unique_ptr<P> parse_root(const G *g, const Toks &t);
	struct Item {
		std::string str, completion, display; // for UNKNOWN: "<null>"
		int type;
		const G *node;
		std::string pstate;
		int grp = -1;          // completion call it comes from
		std::string text() const;
	};
	std::vector<Item> items;
	int calls = 0;
	P *cur = nullptr;
	// what a file node offers for a path: (name of the entry, is a directory); false: unspecified
	std::function<bool(const std::string &, std::vector<std::pair<std::string, bool>> &)> files;
	void complete(const G *g, const Toks &t);
	void complete_root(const G *g, const Toks &t) { cur = nullptr; items.clear(); complete(g, t); }
	const G *instantiate(const G *tmpl);
	const G *dyn_pick(const G *g, P *at);
	// condition evaluation
	struct V { int t; int64_t i = 0; bool b = false; std::string s; std::set<P *> ns; };
	bool eval(const Cond &c, P *at, V &out);
	static bool truth(const V &v);
private:
	void comp_seq(const G *g, size_t i, const Toks &t);
	void comp_many(const G *g, unsigned max, const Toks &t);
	void comp_subset(std::vector<const G *> table, const Toks &t);
	struct SubRes { size_t n = 0; int len = 0; std::vector<std::unique_ptr<P>> sel; };
	SubRes subset(std::vector<const G *> table, P *at, const Toks &t);
};
std::string render(const P *p, const P *mark = nullptr);
struct UserErr { int err; };      // a callback of ours reports an error

// ------------------------------------------------------------ actual trees
struct Names { std::map<const struct ec_node *, int> uid; };
Names names(const Grammar &g);
std::string render(const struct ec_pnode *p, const Names &n, const struct ec_pnode *mark = nullptr);
std::vector<Ref::Item> actual_items(const struct ec_comp *c, const Names &n);

// ------------------------------------------------- node types of our own
struct User {
	std::string broken;        // first broken promise seen by a callback
	uint64_t inits = 0, frees = 0, parses = 0, completes = 0;
	int fired = 0;             // errno a callback reported, 0: none
	uint64_t fail_init = 0;    // fail the n-th init_priv from now
};
User &user();
void user_register();
bool user_kind(Kind k);
struct ec_node *user_node(const G *g, const char *id, std::vector<struct ec_node *> ch); // takes the references
struct ec_node_type *user_type(Kind k);

} // namespace model
