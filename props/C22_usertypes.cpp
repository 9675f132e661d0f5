#include "model.hpp"
using namespace pbt;
using namespace model;

static GenOpt opt(bool lex) {
	GenOpt o = GenOpt::core();
	for (int k = ULOWER; k < NKINDS; k++) o.w[k] = 3;
	o.w[UWRAP] = 8;
	o.w[ULONGEST] = 8;
	o.w[UERR] = 2;
	o.w[UNOPARSE] = 1;
	if (lex) { o.w[SHLEX] = 3; o.w[RELEX] = 4; o.w[UERR] = 4; o.w[DYN] = 2; o.w[COND] = 2; }
	o.words = {"a", "ab", "b", "boom", "i0", "i1", "i2", "foo", "foobar", "", "1", "B"};
	return o;
}
static size_t users(const Grammar &g) {
	size_t n = 0;
	for (G *x : g.nodes) n += user_kind(x->k);
	return n;
}
static void balance(Ctx &c, struct ec_node *root, uint64_t mark) {
	CHECK(c, user().broken.empty(), user().broken);
	ec_node_free(root);
	CHECK(c, user().broken.empty(), user().broken);
	CHECK(c, user().inits == user().frees, "private areas: " << user().inits << " initialised, " << user().frees << " freed");
	std::string l = ec::leaks(mark);
	CHECK(c, l.empty(), "memory left: " << l);
}

static void parse_case(Ctx &c, bool lex) {
	GenOpt o = opt(lex);
	Grammar g;
	gen_grammar(c.s, o, g);
	if (!users(g)) throw Discard();
	std::vector<Toks> ins;
	while (c.s.more(ins.size(), 1, 4)) ins.push_back(gen_input(c.s, g, o));
	c.d << "grammar " << g.text() << "\n";
	struct W { bool err = false; int code = 0; std::string tree; bool matched = false; size_t n = 0; };
	std::vector<W> want;
	for (auto &in : ins) {
		Ref r;
		W w;
		try {
			auto t = r.parse_root(g.root, in);
			if (r.cond_error) throw Discard();
			w.matched = t->matched;
			w.n = t->toks.size();
			if (t->matched) w.tree = render(t.get());
		} catch (UserErr &e) { if (r.cond_error) throw Discard(); w.err = true; w.code = e.err; }
		want.push_back(w);
	}
	uint64_t mark = ec::alloc_mark();
	user() = User();
	std::string err;
	struct ec_node *root = build(g, err);
	CHECK(c, root != nullptr, "grammar rejected: " << err);
	Names nm = names(g);
	for (size_t i = 0; i < ins.size(); i++) {
		W &w = want[i];
		c.d << "input " << model::show(ins[i]) << " expect " << (w.err ? "error " + std::to_string(w.code) : w.matched ? w.tree : std::string("no match")) << "\n";
		struct ec_strvec *v = to_strvec(ins[i]);
		user().fired = 0;
		uint64_t calls = user().parses;
		errno = 0;
		struct ec_pnode *p = ec_parse_strvec(root, v);
		int e = errno;
		CHECK(c, user().broken.empty(), user().broken);
		if (user().fired) CHECK(c, p == nullptr, "the error of a callback is lost");
		if (w.err) {
			CHECK(c, p == nullptr, "a node that cannot be parsed was parsed");
			CHECK(c, e == w.code, "errno is " << e << ", the callback gave " << w.code);
			c.label("error in a callback");
			if (i) c.nontrivial = true;
		} else {
			CHECK(c, p != nullptr, "error " << e);
			CHECK(c, ec_pnode_matches(p) == w.matched && ec_pnode_len(p) == w.n, "match " << ec_pnode_matches(p) << " length " << ec_pnode_len(p));
			if (w.matched) {
				std::string got = render(p, nm);
				CHECK(c, got == w.tree, "tree " << got);
				if (w.n && user().parses > calls) { c.nontrivial = true; c.label("matched through types of the application"); }
			}
		}
		ec_pnode_free(p);
		ec_strvec_free(v);
	}
	balance(c, root, mark);
	for (G *n : g.nodes) if (user_kind(n->k)) c.labels[std::string("has ") + kind_name[n->k]] = 1;
	if (g.loops) c.label("recursive grammar");
}

// item texts, each with the ordered content of its group
static std::multiset<std::string> grouped(const std::vector<Ref::Item> &v) {
	std::map<int, std::string> g;
	for (auto &i : v) g[i.grp] += i.text() + "\n";
	std::multiset<std::string> o;
	for (auto &x : g) o.insert(x.second);
	return o;
}
static std::string diff(const std::multiset<std::string> &a, const std::multiset<std::string> &b) {
	std::string o;
	for (auto &x : a) if (a.count(x) > b.count(x)) { o += "\n    group\n" + x; if (o.size() > 2000) break; }
	return o.empty() ? " none" : o;
}

static void comp_case(Ctx &c, bool lex) {
	GenOpt o = opt(lex);
	Grammar g;
	gen_grammar(c.s, o, g);
	if (!users(g)) throw Discard();
	std::vector<Toks> ins;
	while (c.s.more(ins.size(), 1, 3)) {
		Toks t = gen_input(c.s, g, o);
		if (c.s.draw(5)) complete_cut(c.s, t, o);
		ins.push_back(t);
	}
	c.d << "grammar " << g.text() << "\n";
	struct W { bool err = false; size_t items = 0; std::multiset<std::string> groups; };
	std::vector<W> want;
	bool rich = false;
	for (auto &in : ins) {
		Ref r;
		W w;
		r.limit = 6000;
		try {
			r.complete_root(g.root, in);
			if (r.cond_error) throw Discard();
			w.groups = grouped(r.items);
			w.items = r.items.size();
			for (auto &i : r.items) if (user_kind(i.node->k)) rich = true;
		} catch (UserErr &) { if (r.cond_error) throw Discard(); w.err = true; }
		want.push_back(w);
	}
	uint64_t mark = ec::alloc_mark();
	user() = User();
	std::string err;
	struct ec_node *root = build(g, err);
	CHECK(c, root != nullptr, "grammar rejected: " << err);
	Names nm = names(g);
	for (size_t i = 0; i < ins.size(); i++) {
		W &w = want[i];
		c.d << "input " << model::show(ins[i]) << (w.err ? " error" : "") << "\n";
		struct ec_strvec *v = to_strvec(ins[i]);
		user().fired = 0;
		errno = 0;
		struct ec_comp *k = ec_complete_strvec(root, v);
		int e = errno;
		CHECK(c, user().broken.empty(), user().broken);
		if (user().fired) {
			CHECK(c, k == nullptr, "the error of a callback is lost");
			CHECK(c, e == user().fired, "errno is " << e << ", the callback gave " << user().fired);
			c.label("error in a callback");
		} else if (!w.err) {
			CHECK(c, k != nullptr, "error " << e);
			auto got = grouped(actual_items(k, nm));
			CHECK(c, got == w.groups, "missing:" << diff(w.groups, got) << "\n  unexpected:" << diff(got, w.groups));
			if (got.size() > 1) c.label("several groups");
		}
		ec_comp_free(k);
		ec_strvec_free(v);
	}
	if (c.s.draw(2)) { // one list filled several times, also after an error
		struct ec_comp *own = ec_comp();
		CHECK(c, own, "ec_comp");
		for (size_t i = 0; i < ins.size() + 1; i++) {
			W &w = want[i % ins.size()];
			struct ec_strvec *v = to_strvec(ins[i % ins.size()]);
			size_t before = ec_comp_count(own, EC_COMP_ALL), add = 0;
			user().fired = 0;
			int r = ec_complete_child(root, own, v);
			ec_strvec_free(v);
			CHECK(c, user().broken.empty(), user().broken);
			CHECK(c, !ec_comp_get_cur_pstate(own) && !ec_comp_get_cur_group(own), "a completion that " << (r ? "fails" : "succeeds") << " leaves a current state or group in the list");
			if (user().fired) { CHECK(c, r < 0, "the error of a callback is lost"); continue; }
			if (w.err) continue;
			CHECK(c, r == 0, "completion in a list in use fails");
			struct ec_comp_item *it;
			size_t seen = 0;
			EC_COMP_FOREACH(it, own, EC_COMP_ALL) seen++;
			add = ec_comp_count(own, EC_COMP_ALL) - before;
			CHECK(c, seen == ec_comp_count(own, EC_COMP_ALL), "count of the list");
			CHECK(c, add == w.items, "adds " << add << " items instead of " << w.items);
		}
		ec_comp_free(own);
	}
	balance(c, root, mark);
	c.nontrivial = rich;
	for (G *n : g.nodes) if (user_kind(n->k)) c.labels[std::string("has ") + kind_name[n->k]] = 1;
	if (g.loops) c.label("recursive grammar");
}

// creation, configuration and description of nodes of such a type
static struct ec_config *from_va(int dummy, ...) {
	va_list ap;
	va_start(ap, dummy);
	struct ec_config *c = ec_node_config_node_list_from_vargs(ap);
	va_end(ap);
	return c;
}
static void node_case(Ctx &c) {
	uint64_t mark = ec::alloc_mark();
	user() = User();
	struct ec_node *n = nullptr;
	std::vector<struct ec_node *> kids;   // children it should have
	std::vector<struct ec_node *> pool;
	for (int i = 0; i < 3; i++) pool.push_back(ec_node_str("p", "x"));
	int steps = 1 + c.s.draw(8);
	size_t sets = 0, refused = 0;
	for (int st = 0; st < steps; st++) {
		switch (c.s.draw(6)) {
		case 0: { // creation, possibly failing in init_priv
			Kind k = (Kind)(ULOWER + c.s.draw(NKINDS - ULOWER));
			bool bad = c.s.chance(1, 2);
			bool byname = c.s.draw(2);
			c.d << "create " << kind_name[k] << (bad ? " (init_priv fails)" : "") << "\n";
			user().fail_init = bad ? 1 : 0;
			errno = 0;
			struct ec_node *x = byname ? ec_node(kind_name[k], "id") : ec_node_from_type(user_type(k), "id");
			user().fail_init = 0;
			CHECK(c, (x == nullptr) == bad, "creation");
			if (!bad && c.s.chance(1, 3)) { // no memory at one of its steps: what was initialised is freed
				size_t fi = user().inits, ff = user().frees, at = c.s.draw(5) + 1;
				uint64_t m2 = ec::alloc_mark();
				auto &A = ec::alloc();
				A.fail_from = A.n_alloc + at; A.fail_to = A.fail_from;
				A.n_failed = 0;
				errno = 0;
				struct ec_node *y = byname ? ec_node(kind_name[k], "id") : ec_node_from_type(user_type(k), "id");
				int e = errno;
				A.fail_from = A.fail_to = 0;
				CHECK(c, (y == nullptr) == (A.n_failed > 0), "creation without memory");
				c.d << "  (and again without memory at request " << at << ")\n";
				if (!y) CHECK(c, e == ENOMEM, "errno " << e);
				ec_node_free(y);
				CHECK(c, user().inits - fi == user().frees - ff, "a creation that fails for lack of memory initialises " << user().inits - fi << " private areas and frees " << user().frees - ff);
				std::string l = ec::leaks(m2);
				CHECK(c, l.empty(), "leak " << l);
				c.label("creation without memory");
			}
			if (bad) { CHECK(c, errno == EDOM, "errno " << errno); break; }
			CHECK(c, ec_node_type(x) == user_type(k) && !strcmp(ec_node_id(x), "id") && ec_node_get_config(x) == NULL && ec_dict_len(ec_node_attrs(x)) == 0, "new node");
			CHECK(c, ec_node_type_schema(ec_node_type(x)) == user_type(k)->schema && !strcmp(ec_node_type_name(ec_node_type(x)), kind_name[k]), "type of the node");
			char *d = ec_node_desc(x);
			std::string w = k == ULOWER ? "~id" : std::string("<") + kind_name[k] + ">";
			CHECK(c, d && w == d, "description " << q(d) << " instead of " << q(w));
			ec_free(d);
			CHECK(c, ec_node_get_children_count(x) == 0, "children");
			if (!user_type(k)->schema) { // no schema: no configuration
				errno = 0;
				CHECK(c, ec_node_set_config(x, ec_config_dict()) < 0 && errno == EINVAL, "a type without schema accepts a configuration");
			}
			ec_node_free(x);
			break;
		}
		default: { // set the configuration of n
			if (!n) n = ec_node("vp_longest", "n");
			CHECK(c, n != nullptr, "creation");
			std::vector<struct ec_node *> ch;
			while (c.s.more(ch.size(), 0, 4)) ch.push_back(pool[c.s.draw(pool.size())]);
			size_t how = c.s.draw(6);
			struct ec_config *l = nullptr, *d = ec_config_dict();
			c.d << "configure " << ch.size() << " children, variant " << how << "\n";
			if (ch.size() == 2 && c.s.draw(2)) {
				l = from_va(0, ec_node_clone(ch[0]), ec_node_clone(ch[1]), EC_VA_END);
				CHECK(c, l && ec_config_count(l) == 2 && ec_config_get_type(l) == EC_CONFIG_TYPE_LIST, "list from arguments");
			} else {
				l = ec_config_list();
				for (auto *x : ch) ec_config_list_add(l, ec_config_node(ec_node_clone(x)));
			}
			int code = 0;
			if (how == 1) { ec_config_list_add(l, ec_config_i64(3)); code = EINVAL; }
			if (how == 2) { ec_config_free(l); l = nullptr; code = EINVAL; }
			if (l) ec_config_dict_set(d, "children", l);
			if (how == 3) { ec_config_dict_set(d, "refuse", ec_config_bool(true)); code = EDOM; }
			if (how == 4) { ec_config_dict_set(d, "unknown", ec_config_bool(true)); code = EINVAL; }
			if (how == 5) ec_config_dict_set(d, "refuse", ec_config_bool(false));
			const struct ec_config *before = ec_node_get_config(n);
			errno = 0;
			int r = ec_node_set_config(n, d);
			if (code) {
				CHECK(c, r < 0, "bad configuration accepted");
				CHECK(c, code == EDOM ? errno == EDOM : errno != 0, "errno " << errno << " instead of " << code);
				CHECK(c, ec_node_get_config(n) == before, "configuration changed by a refused one");
				refused++;
			} else {
				CHECK(c, r == 0, "configuration refused, errno " << errno);
				CHECK(c, ec_node_get_config(n) == d, "configuration of the node");
				kids = ch;
				sets++;
			}
			break;
		}
		}
		if (n) {
			CHECK(c, ec_node_get_children_count(n) == kids.size(), "number of children");
			for (size_t i = 0; i < kids.size(); i++) {
				struct ec_node *k = nullptr;
				unsigned refs = 0;
				CHECK(c, ec_node_get_child(n, i, &k, &refs) == 0 && k == kids[i] && refs == 2, "child " << i);
			}
		}
		CHECK(c, user().broken.empty(), user().broken);
	}
	if (c.s.draw(2)) { // a list that cannot be built frees what it was given
		struct ec_node *a = ec_node_clone(pool[0]);
		struct ec_config *l = from_va(0, a, NULL, ec_node_clone(pool[1]), EC_VA_END);
		CHECK(c, l == NULL, "list with a missing node");
	}
	// helper: only lists of nodes
	{
		size_t len = 7;
		errno = 0;
		CHECK(c, ec_node_config_node_list_to_table(NULL, &len) == NULL && len == 0 && errno == EINVAL, "table from nothing");
		struct ec_config *d = ec_config_dict();
		len = 7;
		errno = 0;
		CHECK(c, ec_node_config_node_list_to_table(d, &len) == NULL && len == 0 && errno == EINVAL, "table from a dict");
		ec_config_free(d);
		d = ec_config_list();
		ec_config_list_add(d, ec_config_node(ec_node_clone(pool[0])));
		ec_config_list_add(d, ec_config_string("x"));
		len = 7;
		errno = 0;
		CHECK(c, ec_node_config_node_list_to_table(d, &len) == NULL && len == 0 && errno == EINVAL, "table from mixed values");
		ec_config_free(d);
	}
	for (auto *x : pool) ec_node_free(x);
	balance(c, n, mark);
	c.nontrivial = sets && refused;
}

int main(int argc, char **argv) {
	Suite s;
	s.id = "C22";
	s.rule = "grammar mixing built-in node types with types of our own (wrapper, longest alternative, negative look-ahead, context dependent, failing, without parser or completer); non-trivial = an input is matched through them (parse), items of them are offered (complete), configurations accepted and refused (node)";
	s.init = [] { ec::lib_init(); user_register(); };
	s.targets.push_back({"parse", [](Ctx &c) { parse_case(c, false); }, 60000, 2000000});
	s.targets.push_back({"parse-lex", [](Ctx &c) { parse_case(c, true); }, 40000, 1500000});
	s.targets.push_back({"complete", [](Ctx &c) { comp_case(c, false); }, 30000, 1000000});
	s.targets.push_back({"complete-lex", [](Ctx &c) { comp_case(c, true); }, 20000, 800000});
	s.targets.push_back({"node", node_case, 20000, 400000});
	return run_main(argc, argv, s);
}
