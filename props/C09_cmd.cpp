#include "model.hpp"
using namespace pbt;
using namespace model;

typedef std::vector<std::string> SV;
static const SV WORDS = {"a", "b", "foo", "x", "y", "n1", "opt-a", "1", "_", "-z", "A9", "X", "Foo", "n10", "opt"};
static const SV IDS = {"x", "y", "n1", "opt-a", "foo", "X", "Foo", "n10", "opt"};

struct World {
	Arena a;
	std::vector<G *> table;                 // user nodes, in order
	bool lists = false;                     // a user node is a command with a list
	std::vector<struct ec_node *> nodes;    // one reference each
	const G *find(const std::string &id) { for (G *g : table) if (g->id == id) return g; return nullptr; }
	~World() { for (auto *n : nodes) ec_node_free(n); }
};

static G *str(Arena &a, const std::string &s) { G *g = a.make(STR); g->str = s; return g; }

static G *gen_user(Src &s, Arena &a) {
	G *g;
	switch (s.draw(7)) {
	case 0: g = str(a, s.pick(WORDS)); break;
	case 1: g = a.make(INT); g->min = 0; g->max = 20; g->base = 10; break;
	case 2: g = a.make(SEQ); break;
	case 3: g = a.make(OR); break;
	case 4: g = a.make(SUBSET); break;
	case 5: g = a.make(MANY); g->min = s.draw(2); break;
	default: g = a.make(OPTION); break;
	}
	size_t lo = g->k == STR || g->k == INT ? 0 : 1, hi = g->k == MANY || g->k == OPTION ? 1 : lo ? 3 : 0;
	while (s.more(g->ch.size(), lo, hi)) g->ch.push_back(str(a, s.pick(WORDS)));
	return g;
}

// ------------------------------------------------ expression text
static std::string gen_expr(Src &s, int depth) {
	auto sp = [&](int num) { return s.chance(num, 10) ? std::string(s.draw(3) ? " " : "\t ") : std::string(); };
	switch (depth <= 0 ? 0 : s.weighted({3, 4, 3, 3, 2, 2, 2})) {
	case 1: return gen_expr(s, depth - 1) + " " + gen_expr(s, depth - 1);
	case 2: return gen_expr(s, depth - 1) + sp(3) + "|" + sp(3) + gen_expr(s, depth - 1);
	case 3: return gen_expr(s, depth - 1) + sp(2) + "," + sp(6) + gen_expr(s, depth - 1);
	case 4: return "(" + sp(2) + gen_expr(s, depth - 1) + sp(2) + ")";
	case 5: return "[" + sp(2) + gen_expr(s, depth - 1) + sp(2) + "]";
	case 6: return gen_expr(s, depth - 1) + sp(1) + (s.draw(2) ? "+" : "*");
	default: return s.pick(WORDS);
	}
}
// long sequences and choices, deep brackets, many names
static std::string big_expr(Src &s, int depth) {
	static const size_t K[] = {7, 8, 9, 15, 16, 17, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129};
	size_t n = K[s.draw(17)];
	auto word = [&]() { return s.draw(3) ? s.pick(WORDS) : "u" + std::to_string(s.draw(60)); };
	std::string e;
	switch (depth <= 0 ? s.draw(2) : s.draw(5)) {
	case 0: for (size_t i = 0; i < n; i++) e += (i ? " " : "") + word(); break;
	case 1: for (size_t i = 0; i < n; i++) e += (i ? "|" : "") + word(); break;
	case 2: { // brackets
		n = std::min<size_t>(n, 33);
		for (size_t i = 0; i < n; i++) e += "[(["[i % 3];
		e += big_expr(s, depth - 1);
		for (size_t i = n; i-- > 0;) e += "])]"[i % 3];
		break;
	}
	case 3: e = big_expr(s, depth - 1) + " " + big_expr(s, depth - 1); break;
	case 4: e = std::string(300 + s.draw(800), 'w') + " " + gen_expr(s, 3); break;
	}
	return e;
}
static bool wordc(char c) { return isalnum((unsigned char)c) || c == '_' || c == '-'; }

// ------------------------------------------------ reference
struct RefC {
	World &w;
	SV t;
	std::set<const G *> mine, grouped;
	bool group_seq = false;
	bool subset = false;
	int steps = 0;
	explicit RefC(World &w) : w(w) {}
	bool lex(const std::string &e) {
		for (size_t i = 0; i < e.size();) {
			if (wordc(e[i])) { size_t j = i; while (j < e.size() && wordc(e[j])) j++; t.push_back(e.substr(i, j - i)); i = j; }
			else if (strchr("+*|,()[]", e[i])) t.push_back(std::string(1, e[i++]));
			else if (e[i] == ' ' || e[i] == '\t') i++;
			else return false;
		}
		return true;
	}
	G *prim(size_t &i) {
		if (++steps > 20000) throw Discard();
		if (i >= t.size()) return nullptr;
		if (wordc(t[i][0])) {
			const G *u = w.find(t[i]);
			G *g = u ? (G *)u : str(w.a, t[i]);
			i++;
			return g;
		}
		for (int k = 0; k < 2; k++) {
			if (t[i] != (k ? "(" : "[")) continue;
			size_t j = i + 1;
			G *in = seq(j);
			if (!in || j >= t.size() || t[j] != (k ? ")" : "]")) continue;
			i = j + 1;
			if (k) { grouped.insert(in); return in; }
			G *o = w.a.make(OPTION);
			o->ch = {in};
			return o;
		}
		return nullptr;
	}
	G *term(size_t &i) {
		G *g = prim(i);
		while (g && i < t.size() && (t[i] == "+" || t[i] == "*")) {
			G *m = w.a.make(MANY);
			m->min = t[i] == "+";
			m->ch = {g};
			g = m;
			i++;
		}
		return g;
	}
	G *chain(size_t &i, Kind k, const char *op, G *(RefC::*sub)(size_t &)) {
		G *x = (this->*sub)(i);
		if (!x) return nullptr;
		for (;;) {
			size_t j = i;
			if (*op) { if (j >= t.size() || t[j] != op) break; j++; }
			G *y = (this->*sub)(j);
			if (!y) break;
			i = j;
			G *n = w.a.make(k);
			mine.insert(n);
			if (k == SUBSET) {
				subset = true;
				// whether (a, b), c is a list of 2 or of 3 is unspecified
				for (G *z : {x, y}) if (z->k == SUBSET && mine.count(z) && grouped.count(z)) throw Discard();
			}
			if (x->k == k && mine.count(x)) { // a b c is one sequence
				if (grouped.count(x) && k == SEQ) group_seq = true;
				n->ch = x->ch;
				n->ch.push_back(y);
			} else n->ch = {x, y};
			x = n;
		}
		return x;
	}
	G *list(size_t &i) { return chain(i, SUBSET, ",", &RefC::term); }
	G *alt(size_t &i) { return chain(i, OR, "|", &RefC::list); }
	G *seq(size_t &i) { return chain(i, SEQ, "", &RefC::alt); }
	G *run(const std::string &e) {
		if (!lex(e)) return nullptr;
		size_t i = 0;
		G *g = seq(i);
		return g && i == t.size() ? g : nullptr;
	}
};

static void user_trail(const P *p, std::string &o) {
	if (!p->g->id.empty()) o += p->g->id + model::show(p->toks) + ";";
	for (auto &k : p->ch) user_trail(k.get(), o);
}
static void user_trail(const struct ec_pnode *p, std::string &o) {
	const struct ec_node *n = ec_pnode_get_node(p);
	if (*ec_node_id(n) && strcmp(ec_node_id(n), "cmd")) o += std::string(ec_node_id(n)) + model::show(from_strvec(ec_pnode_get_strvec(p))) + ";";
	for (struct ec_pnode *k = ec_pnode_get_first_child(p); k; k = ec_pnode_next(k)) user_trail(k, o);
}

static struct ec_node *make_cmd(Src &s, World &w, const std::string &e, struct ec_node *reuse, int &rc, const char *id = "cmd") {
	rc = 0;
	size_t n = w.nodes.size();
	if (!reuse && n <= 3 && s.draw(2)) {
		auto cl = [&](size_t i) { return ec_node_clone(w.nodes[i]); };
		const char *x = e.c_str();
		struct ec_node *r = n == 0 ? EC_NODE_CMD(id, x) : n == 1 ? EC_NODE_CMD(id, x, cl(0)) : n == 2 ? EC_NODE_CMD(id, x, cl(0), cl(1)) : EC_NODE_CMD(id, x, cl(0), cl(1), cl(2));
		rc = r ? 0 : -1;
		return r;
	}
	struct ec_node *r = reuse ? reuse : ec_node("cmd", id);
	struct ec_config *cf = ec_config_dict(), *l = ec_config_list();
	for (auto *k : w.nodes) ec_config_list_add(l, ec_config_node(ec_node_clone(k)));
	ec_config_dict_set(cf, "expr", ec_config_string(e.c_str()));
	ec_config_dict_set(cf, "children", l);
	rc = ec_node_set_config(r, cf);
	if (rc < 0 && !reuse) { int sv = errno; ec_node_free(r); errno = sv; return nullptr; }
	return r;
}

static void inputs(Ctx &c, World &w, const G *g, bool subset, struct ec_node *n, const std::string &what, bool complete = true, bool big = false) {
	GenOpt o = GenOpt::core();
	o.words = WORDS;
	for (size_t k = 1 + c.s.draw(3); k; k--) {
		Toks in;
		sample(c.s, g, in, big ? 60 : 20, big ? 400 : 12);
		if (in.size() > 14 && !big) in.resize(14);
		for (size_t m = c.s.weighted({3, 2, 1}); m; m--) {
			size_t i = c.s.draw(in.size() + 1);
			switch (c.s.draw(3)) {
			case 0: in.insert(in.begin() + i, {c.s.pick(WORDS), ""}); break;
			case 1: if (i < in.size()) in.erase(in.begin() + i); break;
			default: if (in.size() >= 2) std::swap(in[c.s.draw(in.size())], in[c.s.draw(in.size())]);
			}
		}
		c.d << what << " parse " << model::show(in) << "\n";
		Ref r;
		auto t = r.parse_root(g, in);
		struct ec_strvec *v = to_strvec(in);
		struct ec_pnode *p = ec_parse_strvec(n, v);
		CHECK(c, p, "parse failed, errno=" << errno);
		CHECK(c, ec_pnode_matches(p) == t->matched, "matches=" << ec_pnode_matches(p) << " expected " << t->matched);
		if (t->matched) {
			CHECK(c, ec_pnode_len(p) == t->toks.size(), "consumed " << ec_pnode_len(p) << " expected " << t->toks.size());
			std::string a, b;
			user_trail(p, a);
			user_trail(t.get(), b);
			if (!subset) CHECK(c, a == b, "nodes of the user in the tree: " << a << " expected " << b);
			if (t->toks.size() >= 2 && g->ch.size()) c.nontrivial = true;
			c.label("matched");
		} else c.label("no match");
		ec_pnode_free(p);
		ec_strvec_free(v);
		if (complete && c.s.chance(1, 3)) {
			complete_cut(c.s, in, o);
			if (in.size() > 8) in.resize(8);
			c.d << what << " complete " << model::show(in) << "\n";
			Ref rc;
			rc.complete_root(g, in);
			std::set<std::string> want, got;
			for (auto &i : rc.items) want.insert(std::to_string(i.type) + " " + i.str + " " + i.completion);
			v = to_strvec(in);
			struct ec_comp *cp = ec_complete_strvec(n, v);
			CHECK(c, cp, "completion failed, errno=" << errno);
			Names none;
			for (auto &i : actual_items(cp, none)) got.insert(std::to_string(i.type) + " " + i.str + " " + i.completion);
			std::string d;
			for (auto &x : got) if (!want.count(x)) d += " +" + x;
			for (auto &x : want) if (!got.count(x)) d += " -" + x;
			CHECK(c, d.empty(), "completions differ:" << d);
			ec_comp_free(cp);
			ec_strvec_free(v);
			if (got.size() >= 2) c.label("2 completions or more");
		}
	}
}

static void cmd_case(Ctx &c) {
	uint64_t mark = ec::alloc_mark();
	bool big = c.s.chance(1, 40);
	if (big) c.label("large expression");
	{
		World w;
		for (size_t k = c.s.draw(5); k; k--) {
			G *g = nullptr;
			struct ec_node *n = nullptr;
			if (c.s.chance(1, 5)) { // a command made of the previous nodes
				std::string e = gen_expr(c.s, 1 + c.s.draw(2));
				RefC r(w);
				G *in = r.run(e);
				if (in) {
					g = w.a.make(SEQ);
					g->ch = {in};
					g->id = c.s.pick(IDS);
					w.lists |= r.subset;
					int rc;
					n = make_cmd(c.s, w, e, nullptr, rc, g->id.c_str());
					c.d << "command " << q(e) << " as ";
					c.label("command of commands");
				}
			}
			if (!g) {
				g = gen_user(c.s, w.a);
				g->id = c.s.pick(IDS);
				n = build_node(g);
			}
			w.table.push_back(g);
			CHECK(c, n, "cannot build " << model::text(g));
			w.nodes.push_back(n);
			c.d << "user node " << g->id << " = " << model::text(g) << "\n";
		}
		if (big && c.s.draw(2)) for (size_t k = 10 + c.s.draw(50), i = 0; i < k; i++) {
			G *g = gen_user(c.s, w.a);
			g->id = "u" + std::to_string(i);
			w.table.push_back(g);
			w.nodes.push_back(build_node(g));
			CHECK(c, w.nodes.back(), "cannot build " << model::text(g));
			c.d << "user node " << g->id << " = " << model::text(g) << "\n";
		}
		struct ec_node *n = nullptr;
		const G *cur = nullptr;
		bool sub = false, comp = true;
		for (size_t round = 0, nr = 1 + c.s.draw(3); round < nr; round++) {
			std::string e = gen_expr(c.s, 1 + c.s.draw(4));
			if (big && c.s.draw(4)) e = big_expr(c.s, 2);
			if (e.size() > (big ? 3000 : 120)) throw Discard();
			if (c.s.chance(1, 5)) {
				size_t i = c.s.draw(e.size() + 1);
				if (c.s.draw(2) && i < e.size()) e.erase(i, 1);
				else e.insert(i, 1, "()[]|,*+ a!\n"[c.s.draw(12)]);
			}
			RefC r(w);
			const G *g = r.run(e);
			c.d << "cmd " << q(e) << (g ? "" : "   (invalid)") << "\n";
			int rc;
			errno = 0;
			struct ec_node *m = make_cmd(c.s, w, e, n, rc);
			CHECK(c, (rc == 0) == (g != nullptr), "expression " << (rc ? "refused, errno=" : "accepted") << (rc ? errno : 0));
			if (rc) { CHECK(c, errno == EINVAL, "invalid expression but errno=" << errno); c.label("invalid expression"); }
			else { n = m; cur = g; sub = r.subset || w.lists; comp = !r.group_seq; }
			if (n) inputs(c, w, cur, sub, n, "cmd", comp, big);
		}
		// the nodes given by the user are left as they were
		if (n) for (size_t i = 0; i < w.table.size() && i < 6; i++) inputs(c, w, w.table[i], w.table[i]->k == SUBSET || w.lists, w.nodes[i], "user node " + w.table[i]->id);
		ec_node_free(n);
	}
	std::string l = ec::leaks(mark);
	CHECK(c, l.empty(), "leak " << l);
}

int main(int argc, char **argv) {
	Suite s;
	s.id = "C09";
	s.rule = "a command with an operator, 2 strings or more consumed";
	s.init = ec::lib_init;
	s.assumptions = {"a parenthesised list inside a list is excluded", "completion is not compared when a parenthesised sequence starts a sequence"};
	s.targets.push_back({"cmd", cmd_case, 60000, 1500000});
	return run_main(argc, argv, s);
}
