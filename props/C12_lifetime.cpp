// Node lifetime: stateful test over graphs of nodes (shared, self-referencing,
// reconfigured), against reachability from the references held by the user.
#include "model.hpp"
#include <algorithm>
using namespace pbt;

struct N;
struct Probe { N *n; };
struct N {
	int uid;
	std::string type, id;
	struct ec_node *p = nullptr;
	bool dead = false;
	int user = 0;
	std::vector<N *> ch;       // documented references
	bool configured = false;
	N *val = nullptr;          // expr
};
static std::string g_err;
static void probe_free(void *v) {
	N *n = (N *)v;
	if (n->dead && g_err.empty()) g_err = "node destroyed twice";
	n->dead = true;
}

static const std::vector<std::string> LISTS = {"seq", "or"};
static const std::vector<std::string> SINGLES = {"many", "option", "once", "bypass", "re_lex", "cond"};

struct World {
	Ctx &c;
	std::vector<std::unique_ptr<N>> all;
	explicit World(Ctx &c) : c(c) {}
	std::vector<N *> held() { std::vector<N *> v; for (auto &n : all) if (!n->dead && n->user) v.push_back(n.get()); return v; }
	N *add(const std::string &type, const std::string &id, struct ec_node *p) {
		all.emplace_back(new N);
		N *n = all.back().get();
		n->uid = all.size() - 1; n->type = type; n->id = id; n->p = p; n->user = 1;
		CHECK(c, p, "cannot create a node of type " << type << " errno=" << errno);
		CHECK(c, ec_dict_set(ec_node_attrs(p), "probe", n, probe_free) == 0, "attribute");
		return n;
	}
	std::set<N *> reach() {
		std::set<N *> seen;
		std::vector<N *> todo;
		for (auto &n : all) if (n->user > 0) todo.push_back(n.get());
		while (!todo.empty()) {
			N *n = todo.back(); todo.pop_back();
			if (!seen.insert(n).second) continue;
			for (N *k : n->ch) todo.push_back(k);
		}
		return seen;
	}
	void verify(const char *op) {
		CHECK(c, g_err.empty(), g_err);
		CHECK(c, ec::alloc().error.empty(), ec::alloc().error);
		auto r = reach();
		for (auto &n : all) {
			bool want = r.count(n.get());
			if (want) CHECK(c, !n->dead, "n" << n->uid << " is destroyed by " << op << " though it is still referenced");
			else CHECK(c, n->dead, "n" << n->uid << " is not reachable from any reference after " << op << " but is still allocated");
		}
	}
	// what can be observed of a living node
	void observe(N *n) {
		CHECK(c, std::string(ec_node_id(n->p)) == n->id, "id of n" << n->uid);
		CHECK(c, std::string(ec_node_get_type_name(n->p)) == n->type, "type of n" << n->uid);
		CHECK(c, ec_dict_get(ec_node_attrs(n->p), "probe") == n, "attribute of n" << n->uid);
		char *d = ec_node_desc(n->p);
		CHECK(c, d && *d, "no description");
		ec_free(d);
		size_t cnt = ec_node_get_children_count(n->p);
		if (n->type != "cmd" && n->type != "expr") {
			CHECK(c, cnt == n->ch.size(), "n" << n->uid << " has " << cnt << " children instead of " << n->ch.size());
			for (size_t i = 0; i < cnt; i++) {
				struct ec_node *k = nullptr; unsigned refs = 0;
				CHECK(c, ec_node_get_child(n->p, i, &k, &refs) == 0, "get_child");
				CHECK(c, k == n->ch[i]->p, "child " << i << " of n" << n->uid << " is wrong");
			}
		} else { // these also have private children
			std::multiset<struct ec_node *> kids;
			for (size_t i = 0; i < cnt; i++) {
				struct ec_node *k = nullptr; unsigned refs = 0;
				CHECK(c, ec_node_get_child(n->p, i, &k, &refs) == 0 && k, "get_child");
				kids.insert(k);
			}
			for (N *x : n->ch) {
				auto f = kids.find(x->p);
				CHECK(c, f != kids.end(), "n" << x->uid << " is not among the children of n" << n->uid);
				kids.erase(f);
			}
			CHECK(c, kids.size() <= 1, "n" << n->uid << " has " << cnt << " children instead of " << n->ch.size() << " (or one more)");
		}
		for (size_t i = 0; cnt && i < 3; i++) {
			struct ec_node *k = (struct ec_node *)1; unsigned refs = 9;
			CHECK(c, ec_node_get_child(n->p, cnt + i, &k, &refs) < 0 && k == nullptr, "child past the end");
		}
		// search by identifier: the nodes reachable
		std::set<N *> seen; std::vector<N *> todo{n};
		bool opaque = false;
		std::map<std::string, int> ids;
		while (!todo.empty()) {
			N *k = todo.back(); todo.pop_back();
			if (!seen.insert(k).second) continue;
			ids[k->id]++;
			if (k->type == "cmd" || k->type == "expr") opaque = true;
			for (N *x : k->ch) todo.push_back(x);
		}
		for (auto &i : ids) if (!i.first.empty()) {
			struct ec_node *f = ec_node_find(n->p, i.first.c_str());
			CHECK(c, f && ec_node_id(f) == i.first, "no node " << q(i.first) << " found from n" << n->uid);
			bool in = false;
			for (N *k : seen) if (k->p == f) in = true;
			if (!opaque) CHECK(c, in, "a node that is not reachable is found");
		}
		if (!opaque) for (auto &x : all) if (!ids.count(x->id)) CHECK(c, ec_node_find(n->p, x->id.c_str()) == nullptr, "node " << q(x->id) << " found but not reachable");
	}
	void dump(N *n) {
		char *buf = nullptr; size_t len = 0;
		FILE *f = open_memstream(&buf, &len);
		ec_node_dump(f, n->p);
		fclose(f);
		std::string s = buf; free(buf);
		CHECK(c, s.find("type=" + n->type + " id=" + n->id) != std::string::npos, "dump lacks the node: " << s);
	}
	// configuration of a composite node with children `k` (each one cloned)
	struct ec_config *cfg(N *n, const std::vector<N *> &k, bool fresh) {
		struct ec_config *cf = (!fresh && ec_node_get_config(n->p)) ? ec_config_dup(ec_node_get_config(n->p)) : ec_config_dict();
		CHECK(c, cf, "config");
		auto set = [&](const char *key, struct ec_config *v) { CHECK(c, ec_config_dict_set(cf, key, v) == 0, "config_dict_set " << key << " errno " << errno); };
		if (n->type == "seq" || n->type == "or" || n->type == "subset" || n->type == "cmd") {
			struct ec_config *l = ec_config_list();
			for (N *x : k) CHECK(c, ec_config_list_add(l, ec_config_node(ec_node_clone(x->p))) == 0, "list add");
			set("children", l);
			if (n->type == "cmd") {
				std::string e = "w";
				std::set<std::string> used;
				for (N *x : k) if (!x->id.empty() && used.insert(x->id).second) e += " " + x->id;
				set("expr", ec_config_string(e.c_str()));
			}
		} else {
			set("child", ec_config_node(ec_node_clone(k[0]->p)));
			if (n->type == "cond") set("expr", ec_config_string(c.s.draw(2) ? "cmp(eq, 1, count(find(root(), a)))" : "or(true, 0)"));
			if (n->type == "re_lex" && c.s.draw(2)) {
				struct ec_config *l = ec_config_list(), *e = ec_config_dict();
				ec_config_dict_set(e, "pattern", ec_config_string("[a-z]+"));
				ec_config_dict_set(e, "keep", ec_config_bool(true));
				ec_config_dict_set(e, "attr", ec_config_string("w"));
				ec_config_list_add(l, e);
				set("patterns", l);
			}
			if (n->type == "many") { set("min", ec_config_u64(c.s.draw(3))); set("max", ec_config_u64(c.s.draw(3))); }
		}
		return cf;
	}
};

static void life_case(Ctx &c) {
	g_err.clear();
	uint64_t mark = ec::alloc_mark();
	World w(c);
	static const std::vector<std::string> IDS = {"", "a", "b", "c", "d"};
	int n_loops = 0, n_shared = 0, n_reconf = 0, n_free = 0;
	auto loop_from = [&](N *n) { // n reaches itself
		std::set<N *> seen; std::vector<N *> todo(n->ch.begin(), n->ch.end());
		while (!todo.empty()) { N *k = todo.back(); todo.pop_back(); if (k == n) return true; if (seen.insert(k).second) for (N *x : k->ch) todo.push_back(x); }
		return false;
	};
	bool big = c.s.chance(1, 40);
	size_t ops = 0;
	while (c.s.more(ops, 1, 40, 19, 20)) {
		ops++;
		auto h = w.held();
		size_t op = c.s.weighted({5, 4, 6, 3, 4, 2, 2, 2, big ? 2u : 0u});
		if (h.empty() || w.all.size() < 2) op = c.s.draw(2);
		if (h.size() > 12 && op < 2) op = 4;
		switch (op) {
		case 0: { // leaf
			std::string id = c.s.pick(IDS);
			size_t k = c.s.draw(6);
			struct ec_node *p = k == 0 ? ec_node_str(id.c_str(), "x") : k == 1 ? ec_node_int(id.c_str(), 0, 9, 10) : k == 2 ? ec_node_any(id.c_str(), nullptr)
				: k == 3 ? ec_node("empty", id.c_str()) : k == 4 ? ec_node_re(id.c_str(), "a+") : ec_node("file", id.c_str());
			const char *tn[] = {"str", "int", "any", "empty", "re", "file"};
			N *n = w.add(tn[k], id, p);
			c.d << "n" << n->uid << "=" << tn[k] << "(" << q(id) << ")\n";
			w.verify("creation");
			break;
		}
		case 1: { // unconfigured composite
			std::string id = c.s.pick(IDS);
			static const std::vector<std::string> T = {"seq", "or", "many", "option", "once", "bypass", "subset", "sh_lex", "re_lex", "cond", "cmd", "expr"};
			std::string t = c.s.pick(T);
			N *n = w.add(t, id, ec_node(t.c_str(), id.c_str()));
			c.d << "n" << n->uid << "=ec_node(" << t << ", " << q(id) << ")\n";
			w.verify("creation");
			break;
		}
		case 2: { // set / replace the children through the configuration
			std::vector<N *> comp;
			for (N *n : h) if (std::find(SINGLES.begin(), SINGLES.end(), n->type) != SINGLES.end() || std::find(LISTS.begin(), LISTS.end(), n->type) != LISTS.end() || n->type == "cmd") comp.push_back(n);
			if (comp.empty()) break;
			N *n = c.s.pick(comp);
			std::vector<N *> k;
			bool single = std::find(SINGLES.begin(), SINGLES.end(), n->type) != SINGLES.end();
			size_t cnt = single ? 1 : c.s.draw(4);
			for (size_t i = 0; i < cnt; i++) k.push_back(c.s.pick(h));
			c.d << "configure n" << n->uid << " (" << n->type << ") with";
			for (N *x : k) c.d << " n" << x->uid;
			c.d << "\n";
			if (n->configured) n_reconf++;
			struct ec_config *cf = w.cfg(n, k, !c.s.draw(2));
			errno = 0;
			int r = ec_node_set_config(n->p, cf);
			CHECK(c, r == 0, "set_config fails, errno=" << errno);
			n->ch = k; n->configured = true;
			for (N *x : k) { int refs = 0; for (auto &y : w.all) for (N *z : y->ch) if (z == x) refs++; if (refs > 1) n_shared++; }
			if (loop_from(n)) n_loops++;
			w.verify("configuration");
			break;
		}
		case 3: { // append, consuming a reference (or refused: the reference is consumed as well)
			N *n = c.s.pick(h), *k = c.s.pick(h);
			size_t how = c.s.draw(14);
			std::vector<N *> add{k};
			bool give = c.s.draw(2) && k->user > 0 && (k != n || k->user > 1); // give our own reference, or a clone
			c.d << "helper " << how << " n" << n->uid << " (" << n->type << ") child n" << k->uid << (give ? " given" : " cloned") << "\n";
			struct ec_node *ref = k->p;
			N *k2 = nullptr; // a second one
			if (how == 11) { k2 = c.s.pick(h); ec_node_clone(k2->p); add.push_back(k2); }
			if (how >= 12) { // no child at all
				errno = 0;
				const char *want = how == 12 ? "re_lex" : "str";
				int r = how == 12 ? ec_node_re_lex_add(n->p, "[a-z]+", c.s.draw(2), c.s.draw(2) ? "w" : nullptr) : ec_node_str_set_str(n->p, "y");
				int e = errno;
				if (n->type != want) CHECK(c, r < 0 && e != 0, "returned " << r << " errno=" << e);
				else CHECK(c, r == 0 || !n->configured, "fails, errno=" << e);
				w.verify("helper");
				break;
			}
			if (!give) ec_node_clone(ref); else k->user--;
			bool ok; int r; const char *want;
			bool replace = false;
			errno = 0;
			switch (how) {
			case 0: want = "seq"; r = ec_node_seq_add(n->p, ref); break;
			case 1: want = "or"; r = ec_node_or_add(n->p, ref); break;
			case 2: want = "subset"; r = ec_node_subset_add(n->p, ref); break;
			case 3: want = "many"; r = ec_node_many_set_params(n->p, ref, c.s.draw(3), c.s.draw(3)); replace = true; break;
			case 4: want = "option"; r = ec_node_option_set_child(n->p, ref); replace = true; break;
			case 5: want = "once"; r = ec_node_once_set_child(n->p, ref); replace = true; break;
			case 6: want = "bypass"; r = ec_node_bypass_set_child(n->p, ref); replace = true; break;
			case 7: want = "expr"; r = ec_node_expr_set_val_node(n->p, ref); break;
			case 8: want = "expr"; r = ec_node_expr_add_bin_op(n->p, ref); break;
			case 9: want = "expr"; r = ec_node_expr_add_pre_op(n->p, ref); break;
			case 10: want = "expr"; r = ec_node_expr_add_post_op(n->p, ref); break;
			default: want = "expr"; r = ec_node_expr_add_parenthesis(n->p, ref, k2->p); break;
			}
			ok = n->type == want;
			int e = errno;
			CHECK(c, (r == 0) == ok, "returned " << r << " errno=" << e);
			if (ok) {
				if (replace) { if (n->configured) n_reconf++; n->ch.clear(); }
				for (N *x : add) n->ch.push_back(x);
				n->configured = true;
				if (how == 7) {
					if (n->val) { n_reconf++; n->ch.erase(std::find(n->ch.begin(), n->ch.end(), n->val)); }
					n->val = k;
				}
				if (loop_from(n)) n_loops++;
			} else {
				CHECK(c, e != 0, "refused without errno");
				c.label("refused child");
			}
			w.verify("helper");
			break;
		}
		case 4: { // release one reference
			N *n = c.s.pick(h);
			c.d << "free n" << n->uid << "\n";
			n->user--;
			n_free++;
			ec_node_free(n->p);
			w.verify("ec_node_free");
			break;
		}
		case 5: {
			N *n = c.s.pick(h);
			c.d << "clone n" << n->uid << "\n";
			CHECK(c, ec_node_clone(n->p) == n->p, "clone");
			n->user++;
			break;
		}
		case 6: {
			N *n = c.s.pick(h);
			c.d << "observe n" << n->uid << "\n";
			w.observe(n);
			w.dump(n);
			break;
		}
		case 8: { // a long chain or many references at once
			if (w.all.size() > 400) break;
			N *k = c.s.pick(h);
			static const size_t K[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300};
			size_t cnt = K[c.s.draw(16)];
			c.label("hundreds of nodes or references");
			if (c.s.draw(2)) {
				c.d << "chain of " << cnt << " bypass above n" << k->uid << "\n";
				bool keep = c.s.draw(2);
				for (size_t i = 0; i < cnt; i++) {
					N *b = w.add("bypass", "", ec_node_bypass("", ec_node_clone(k->p)));
					b->ch = {k};
					b->configured = true;
					if (i || !keep) { ec_node_free(k->p); k->user--; }
					k = b;
				}
			} else {
				static const char *const T[] = {"seq", "or", "subset"};
				static int (*const ADD[])(struct ec_node *, struct ec_node *) = {ec_node_seq_add, ec_node_or_add, ec_node_subset_add};
				size_t t = c.s.draw(3);
				c.d << T[t] << " of " << cnt << " n" << k->uid << "\n";
				N *b = w.add(T[t], "", ec_node(T[t], ""));
				for (size_t i = 0; i < cnt; i++) {
					CHECK(c, ADD[t](b->p, ec_node_clone(k->p)) == 0, T[t] << "_add");
					b->ch.push_back(k);
				}
				b->configured = true;
			}
			w.verify("large graph");
			break;
		}
		case 7: { // constructors with children (one possibly NULL: refused, the others released)
			std::string id = c.s.pick(IDS);
			size_t k = c.s.draw(10);
			std::vector<N *> ch;
			for (int i = 0; i < 3; i++) ch.push_back(c.s.pick(h));
			int bad = c.s.draw(4) == 3 ? (int)c.s.draw(k < 3 ? 3 : 1) : -1;
			size_t used = k < 3 ? 3 : k == 9 ? 2 : 1;
			if (k == 9 && bad >= 0) bad = c.s.draw(2);
			struct ec_node *a[3] = {};
			for (size_t i = 0; i < used; i++) a[i] = (int)i == bad ? nullptr : ec_node_clone(ch[i]->p);
			static const char *T[] = {"seq", "or", "subset", "many", "option", "once", "bypass", "sh_lex", "cond", "cmd"};
			c.d << "n" << w.all.size() << "=" << T[k] << "(" << q(id);
			for (size_t i = 0; i < used; i++) { if ((int)i == bad) c.d << " NULL"; else c.d << " n" << ch[i]->uid; }
			c.d << ")\n";
			struct ec_node *p = nullptr;
			errno = 0;
			switch (k) {
			case 0: p = EC_NODE_SEQ(id.c_str(), a[0], a[1], a[2]); break;
			case 1: p = EC_NODE_OR(id.c_str(), a[0], a[1], a[2]); break;
			case 2: p = EC_NODE_SUBSET(id.c_str(), a[0], a[1], a[2]); break;
			case 3: p = ec_node_many(id.c_str(), a[0], 0, 2); break;
			case 4: p = ec_node_option(id.c_str(), a[0]); break;
			case 5: p = ec_node_once(id.c_str(), a[0]); break;
			case 6: p = ec_node_bypass(id.c_str(), a[0]); break;
			case 7: p = ec_node_sh_lex(id.c_str(), a[0]); break;
			case 8: p = ec_node_cond(id.c_str(), "true", a[0]); break;
			default: p = EC_NODE_CMD(id.c_str(), "w x", a[0], a[1]); break;
			}
			if (bad >= 0) {
				CHECK(c, p == nullptr, "a NULL child is accepted");
				c.label("NULL child refused");
				w.verify("refused constructor");
			} else {
				N *n = w.add(T[k], id, p);
				n->ch.assign(ch.begin(), ch.begin() + used);
				n->configured = true;
				w.verify("constructor");
			}
			break;
		}
		}
	}
	// release everything in any order
	for (;;) {
		auto h = w.held();
		if (h.empty()) break;
		N *n = c.s.pick(h);
		c.d << "free n" << n->uid << "\n";
		n->user--;
		ec_node_free(n->p);
		w.verify("ec_node_free");
	}
	if (n_loops) c.label("loop created");
	if (n_reconf) c.label("reconfigured");
	if (n_shared) c.label("shared child");
	c.nontrivial = ops >= 6 && n_loops + n_shared > 0;
	std::string l = ec::leaks(mark);
	CHECK(c, l.empty(), "leak " << l);
}

// Grammar graphs of the reference model: releasing the root releases
// everything, keeping a node keeps it usable.
static void graph_case(Ctx &c) {
	uint64_t mark = ec::alloc_mark();
	model::GenOpt o = model::GenOpt::core();
	model::Grammar g;
	o.depth = 5;
	o.w[model::SHLEX] = 3; o.w[model::RELEX] = 2; o.w[model::COND] = 2;
	if (c.s.chance(1, 60)) { o.big = 130; o.w[model::RE] = o.w[model::RELEX] = o.w[model::SHLEX] = o.w[model::COND] = 0; c.label("large graph"); }
	model::gen_grammar(c.s, o, g);
	c.d << g.text();
	auto in = model::gen_input(c.s, g, o);
	if (o.big && in.size() > 6) in.resize(6);
	for (auto *n : g.nodes) { model::Ref r; r.limit = o.big ? 1000 : 10000; r.parse_root(n, in); } // not too long to parse
	std::string err;
	struct ec_node *root = model::build(g, err);
	CHECK(c, root, "build: " << err);
	struct ec_strvec *v = model::to_strvec(in);
	std::vector<model::G *> kept;
	for (auto *n : g.nodes) if (n->node && kept.size() < 8 && c.s.chance(1, 6)) { kept.push_back(n); ec_node_clone(n->node); }
	// a node without children held by tens of thousands of references
	model::G *leaf = nullptr;
	size_t refs = 0;
	if (c.s.chance(1, 400)) {
		leaf = c.s.pick(g.nodes);
		if (!leaf->ch.empty() || !leaf->node) leaf = nullptr;
		else { refs = 65530 + c.s.draw(3000); c.label("more than 65530 references"); }
	}
	for (size_t i = 0; i < refs; i++) ec_node_clone(leaf->node);
	std::vector<std::string> trees;
	auto run = [&](model::G *n) {
		struct ec_pnode *p = ec_parse_strvec(n->node, v);
		std::string s = p ? model::render(p, model::names(g)) : "error";
		ec_pnode_free(p);
		return s;
	};
	for (auto *n : kept) trees.push_back(run(n));
	std::string leaf_tree = leaf ? run(leaf) : "";
	ec_node_free(root);
	for (size_t i = 0; i < kept.size(); i++) CHECK(c, run(kept[i]) == trees[i], "node u" << kept[i]->uid << " does not parse the same after the root is released");
	while (!kept.empty()) {
		size_t i = c.s.draw(kept.size());
		ec_node_free(kept[i]->node);
		kept.erase(kept.begin() + i); trees.erase(trees.begin() + i);
		for (size_t j = 0; j < kept.size(); j++) CHECK(c, run(kept[j]) == trees[j], "node u" << kept[j]->uid << " does not parse the same after another one is released");
	}
	if (leaf) {
		CHECK(c, run(leaf) == leaf_tree, "node u" << leaf->uid << " does not parse the same after others are released");
		for (; refs > 1; refs--) ec_node_free(leaf->node);
		CHECK(c, run(leaf) == leaf_tree, "node u" << leaf->uid << " does not parse the same when it has one reference left");
		ec_node_free(leaf->node);
	}
	ec_strvec_free(v);
	c.nontrivial = g.nodes.size() >= 4 && !trees.empty() + (g.loops || g.shared) > 0;
	if (g.loops) c.label("loop");
	if (g.shared) c.label("shared");
	std::string l = ec::leaks(mark);
	CHECK(c, l.empty(), "leak " << l);
}

int main(int argc, char **argv) {
	Suite s;
	s.id = "C12";
	s.rule = "life: at least 6 operations with a shared child or a loop; graph: 4 nodes or more, shared, looping or kept";
	s.init = ec::lib_init;
	s.assumptions = {"each node carries a user attribute with a destructor, which tells when it is destroyed"};
	s.targets.push_back({"life", life_case, 60000, 1500000});
	s.targets.push_back({"graph", graph_case, 15000, 300000});
	return run_main(argc, argv, s);
}
