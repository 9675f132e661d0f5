#include "model.hpp"
using namespace pbt;
using namespace model;

// ------------------------------------------------------------ parse trees
static void flat(const struct ec_pnode *p, std::vector<const struct ec_pnode *> &o, std::vector<size_t> &sz) {
	size_t at = o.size();
	o.push_back(p);
	sz.push_back(0);
	for (const struct ec_pnode *c = ec_pnode_get_first_child(p); c; c = ec_pnode_next(c)) flat(c, o, sz);
	sz[at] = o.size() - at;
}

// structural links, iteration and search of one tree, against its preorder list
static void check_nav(Ctx &c, struct ec_pnode *root, bool strvecs) {
	std::vector<const struct ec_pnode *> o;
	std::vector<size_t> sz;
	flat(root, o, sz);
	CHECK(c, ec_pnode_get_parent(root) == nullptr && ec_pnode_next(root) == nullptr, "root has a parent or a sibling");
	for (size_t i = 0; i < o.size(); i++) {
		CHECK(c, ec_pnode_get_root((struct ec_pnode *)o[i]) == root, "get_root");
		CHECK(c, EC_PNODE_GET_ROOT(o[i]) == root, "GET_ROOT");
		const struct ec_pnode *last = nullptr, *k;
		size_t n = 0;
		EC_PNODE_FOREACH_CHILD(k, o[i]) {
			CHECK(c, ec_pnode_get_parent(k) == o[i], "parent of child");
			last = k;
			n++;
		}
		CHECK(c, ec_pnode_get_last_child(o[i]) == last, "last child");
		if (strvecs) {
			CHECK(c, ec_pnode_get_strvec(o[i]) || (o[i] == root && o.size() == 1), "node without strvec in a matching tree");
			CHECK(c, ec_pnode_matches(o[i]) == (ec_pnode_get_strvec(o[i]) != nullptr), "matches");
			CHECK(c, ec_pnode_len(o[i]) == (ec_pnode_get_strvec(o[i]) ? ec_strvec_len(ec_pnode_get_strvec(o[i])) : 0), "len");
		}
	}
	// depth-first iteration, from a random subtree, skipping children or not
	for (int rep = 0; rep < 2; rep++) {
		size_t r = rep ? c.s.draw(o.size()) : 0;
		size_t i = r;
		for (const struct ec_pnode *it = o[r]; ; ) {
			CHECK(c, it == o[i], "iteration visits another node at step " << i - r);
			bool ch = o.size() > 500 ? (i * 7 + r) % 6 != 0 : !c.s.chance(1, 6);
			it = EC_PNODE_ITER_NEXT(o[r], it, ch);
			i += ch ? 1 : sz[i];
			if (i >= r + sz[r]) { CHECK(c, it == nullptr, "iteration goes past the subtree"); break; }
			CHECK(c, it != nullptr, "iteration stops early");
		}
		// search
		std::vector<std::string> ids = {"i0", "i1", "i2", "i3", EC_NO_ID, "nope", ec_node_id(ec_pnode_get_node(o[o.size() / 2])), ec_node_id(ec_pnode_get_node(o.back()))};
		std::string id = c.s.pick(ids);
		size_t at = r;
		auto next = [&](size_t from) { while (from < r + sz[r] && id != ec_node_id(ec_pnode_get_node(o[from]))) from++; return from; };
		at = next(at);
		const struct ec_pnode *f = ec_pnode_find(o[r], id.c_str());
		for (;;) {
			CHECK(c, f == (at < r + sz[r] ? o[at] : nullptr), "find " << id << " from node " << r);
			if (!f) break;
			bool ch = o.size() > 500 ? at % 2 == 0 : c.s.draw(2) == 0;
			f = ec_pnode_find_next(o[r], f, id.c_str(), ch);
			at = next(at + (ch ? 1 : sz[at]));
			c.label("search continued");
		}
	}
}

static void tree_case(Ctx &c, GenOpt o) {
	static const std::string LONG = "an_identifier_longer_than_usual_", LONGER(300, 'L');
	switch (c.s.draw(8)) {
	case 1: o.ids = {"i0", LONG + "0", LONG + "1", LONG, LONGER + "0", LONGER + "1"}; break;
	case 2: if (!o.w[COND]) o.ids = {" ", " i0", "i0 ", "I0", "i0", "\xc3\xa9", "i%s", "0"}; break;
	}
	Grammar g;
	gen_grammar(c.s, o, g);
	std::vector<Toks> ins;
	while (c.s.more(ins.size(), 1, 4)) ins.push_back(gen_input(c.s, g, o));
	c.d << "grammar " << g.text() << "\n";
	std::vector<std::string> want;
	std::vector<int> len;
	size_t biggest = 0;
	for (auto &in : ins) {
		Ref r;
		if (o.big) r.limit = 1500;
		auto t = r.parse_root(g.root, in);
		if (r.cond_error) throw Discard();
		if (!t->matched) t->ch.clear();
		want.push_back(render(t.get()));
		len.push_back(t->matched ? (int)t->toks.size() : -1);
		biggest = std::max(biggest, want.back().size());
	}
	std::string err;
	struct ec_node *root = build(g, err);
	CHECK(c, root != nullptr, "grammar rejected: " << err);
	Names nm = names(g);
	bool deep = false;
	for (size_t i = 0; i < ins.size(); i++) {
		c.d << "input " << model::show(ins[i]) << "\n  expect " << want[i] << "\n";
		struct ec_strvec *v = to_strvec(ins[i]);
		struct ec_pnode *p = ec_parse_strvec(root, v);
		CHECK(c, p != nullptr, "parse reported an error, errno=" << errno);
		// the tree does not depend on the input vector's lifetime
		CHECK(c, model::show(from_strvec(v)) == model::show(ins[i]), "input vector modified");
		ec_strvec_free(v);
		std::string got = render(p, nm);
		CHECK(c, got == want[i], "tree " << got);
		check_nav(c, p, true);
		std::vector<const struct ec_pnode *> fl;
		std::vector<size_t> sz;
		flat(p, fl, sz);
		if (fl.size() >= 4) deep = true;
		// copy: same shape, same place, independent
		size_t k = c.s.draw(fl.size());
		struct ec_pnode *d = ec_pnode_dup(fl[k]);
		CHECK(c, d != nullptr, "dup failed");
		struct ec_pnode *dr = ec_pnode_get_root(d);
		CHECK(c, render(dr, nm, d) == render(p, nm, fl[k]), "copy differs: " << render(dr, nm, d));
		check_nav(c, dr, false);
		if (c.s.draw(2)) {
			std::string keep = render(dr, nm);
			ec_pnode_free(p);
			CHECK(c, render(dr, nm) == keep, "copy changed with the original");
			ec_pnode_free(dr);
		} else {
			ec_pnode_free(dr);
			CHECK(c, render(p, nm) == want[i], "original changed with the copy");
			ec_pnode_free(p);
		}
		// parsing one string is parsing the vector of this string
		if (ins[i].size() == 1 && ins[i][0].attr.empty()) {
			p = ec_parse(root, ins[i][0].s.c_str());
			CHECK(c, p != nullptr, "ec_parse failed");
			CHECK(c, render(p, nm) == want[i], "ec_parse differs: " << render(p, nm));
			ec_pnode_free(p);
		}
	}
	ec_node_free(root);
	c.nontrivial = deep;
	if (deep) c.label("tree of 4 nodes or more");
	if (g.loops) c.label("recursive grammar");
	for (G *n : g.nodes) c.labels[std::string("has ") + kind_name[n->k]] = 1;
}

// ------------------------------------------- hand-edited trees vs. a model
struct T { struct ec_pnode *p; T *parent = nullptr; std::vector<T *> ch; bool dead = false; std::map<std::string, std::string> attr; };

static void attr_free(void *v) { ec_free(v); }

static std::string dump(const T *t, const std::map<const struct ec_pnode *, int> &) {
	std::string o = std::string(ec_node_id(ec_pnode_get_node(t->p))) + "{";
	for (auto &a : t->attr) o += a.first + "=" + a.second + ",";
	o += "}(";
	for (T *c : t->ch) o += dump(c, {}) + " ";
	return o + ")";
}
static std::string dump(struct ec_pnode *p) {
	std::string o = std::string(ec_node_id(ec_pnode_get_node(p))) + "{";
	std::map<std::string, std::string> a;
	struct ec_dict_elt_ref *it;
	for (it = ec_dict_iter(ec_pnode_get_attrs(p)); it; it = ec_dict_iter_next(it))
		a[ec_dict_iter_get_key(it)] = (const char *)ec_dict_iter_get_val(it);
	for (auto &x : a) o += x.first + "=" + x.second + ",";
	o += "}(";
	for (struct ec_pnode *c = ec_pnode_get_first_child(p); c; c = ec_pnode_next(c)) o += dump(c) + " ";
	return o + ")";
}

static void edit_case(Ctx &c) {
	std::vector<struct ec_node *> nodes;
	for (const char *id : {"i0", "i1", "i2", "i3"}) nodes.push_back(ec_node_str(id, "x"));
	std::deque<T> all;
	std::vector<T *> live;
	auto fresh = [&]() {
		all.emplace_back();
		T *t = &all.back();
		size_t k = c.s.draw(nodes.size());
		t->p = ec_pnode(nodes[k]);
		CHECK(c, t->p, "ec_pnode failed");
		live.push_back(t);
		c.d << "t" << all.size() - 1 << "=pnode(i" << k << ") ";
		return t;
	};
	auto idx = [&](T *t) { for (size_t i = 0; i < all.size(); i++) if (&all[i] == t) return i; return (size_t)-1; };
	std::function<void(T *)> kill = [&](T *t) {
		for (T *x : t->ch) kill(x);
		t->dead = true;
		for (size_t i = 0; i < live.size(); i++) if (live[i] == t) { live.erase(live.begin() + i); break; }
	};
	auto root = [&](T *t) { while (t->parent) t = t->parent; return t; };
	size_t ops = 0, links = 0;
	fresh();
	while (c.s.more(ops, 4, 60, 11, 12)) {
		ops++;
		if (live.empty()) fresh();
		T *t = live[c.s.draw(live.size())];
		switch (c.s.weighted({4, 8, 3, 2, 1, 1, 2, 1})) {
		case 0: if (live.size() < 24) fresh(); break;
		case 1: { // link a root below t
			T *k = live.size() < 24 ? fresh() : live[c.s.draw(live.size())];
			if (c.s.draw(3) == 2) k = root(live[c.s.draw(live.size())]);
			if (k->parent || root(t) == k) break;
			c.d << "link(t" << idx(t) << ",t" << idx(k) << ") ";
			ec_pnode_link_child(t->p, k->p);
			t->ch.push_back(k);
			k->parent = t;
			links++;
			break; }
		case 2: if (t->parent) {
			c.d << "unlink(t" << idx(t) << ") ";
			ec_pnode_unlink_child(t->p);
			auto &v = t->parent->ch;
			for (size_t i = 0; i < v.size(); i++) if (v[i] == t) { v.erase(v.begin() + i); break; }
			t->parent = nullptr;
			c.label("unlinked");
			break; }
			break;
		case 3: if (!t->ch.empty()) {
			c.d << "del_last(t" << idx(t) << ") ";
			ec_pnode_del_last_child(t->p);
			T *k = t->ch.back();
			t->ch.pop_back();
			kill(k);
			break; }
			break;
		case 4:
			c.d << "free_children(t" << idx(t) << ") ";
			ec_pnode_free_children(t->p);
			for (T *x : t->ch) kill(x);
			t->ch.clear();
			break;
		case 5: if (!t->parent) {
			c.d << "free(t" << idx(t) << ") ";
			ec_pnode_free(t->p);
			kill(t);
			break; }
			break;
		case 6: {
			std::string k = c.s.draw(2) ? "k" : "l", v = c.s.draw(2) ? "v" : "w";
			c.d << "attr(t" << idx(t) << "," << k << "=" << v << ") ";
			CHECK(c, ec_dict_set(ec_pnode_get_attrs(t->p), k.c_str(), ec_strdup(v.c_str()), attr_free) == 0, "dict_set");
			t->attr[k] = v;
			break; }
		default: { // copy keeps the place, shares the attributes' values
			c.d << "dup(t" << idx(t) << ") ";
			struct ec_pnode *d = ec_pnode_dup(t->p);
			CHECK(c, d, "dup");
			std::string a = dump(ec_pnode_get_root(d)), b = dump(root(t), {});
			CHECK(c, a == b, "copy " << a << " of " << b);
			CHECK(c, dump(d) == dump(t, {}), "copy is at another place");
			ec_pnode_free(ec_pnode_get_root(d));
			c.label("copied");
		}
		}
		for (T *x : live) if (!x->parent) {
			std::string a = dump(x->p), b = dump(x, {});
			CHECK(c, a == b, "tree is " << a << ", expected " << b);
			check_nav(c, x->p, false);
		}
	}
	for (;;) {
		T *r = nullptr;
		for (T *x : live) if (!x->parent) { r = x; break; }
		if (!r) break;
		ec_pnode_free(r->p);
		kill(r);
	}
	for (auto *n : nodes) ec_node_free(n);
	c.nontrivial = links >= 3;
}

int main(int argc, char **argv) {
	Suite s;
	s.id = "C02";
	s.rule = "trees: a case with a parse tree of 4 nodes or more; edit: at least 3 links; distinct by case text";
	s.init = ec::lib_init;
	s.targets.push_back({"core", [](Ctx &c) { GenOpt o = GenOpt::core(); o.w[FILE_] = 1; tree_case(c, o); }, 100000, 2500000});
	s.targets.push_back({"all", [](Ctx &c) { GenOpt o = GenOpt::core(); o.w[FILE_] = 1; o.w[SHLEX] = 3; o.w[RELEX] = 3; o.w[DYN] = 2; o.w[COND] = 2; tree_case(c, o); }, 100000, 2500000});
	s.targets.push_back({"big", [](Ctx &c) { GenOpt o = GenOpt::core(); o.big = 130; o.w[RE] = 0; tree_case(c, o); }, 2000, 60000});
	s.targets.back().hang_s = 60;
	s.targets.push_back({"edit", edit_case, 40000, 1000000});
	return run_main(argc, argv, s);
}
