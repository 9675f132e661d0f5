// Parsing and completing are functions of the grammar and the input: whatever
// was done before with the same grammar, the same question has the same answer,
// answers already given do not change, and nothing given is modified.
#include "model.hpp"
#include <algorithm>
using namespace pbt;
using namespace model;

static std::string parse_text(struct ec_node *root, const Names &nm, const struct ec_strvec *v, struct ec_pnode **keep = nullptr) {
	struct ec_pnode *p = ec_parse_strvec(root, v);
	std::string s = p ? render(p, nm) + " len " + (ec_pnode_matches(p) ? std::to_string(ec_pnode_len(p)) : "none") : "error";
	if (keep) *keep = p; else ec_pnode_free(p);
	return s;
}
static std::string comp_str(const struct ec_comp *k, const Names &nm) {
	std::string s;
	std::vector<std::string> v;
	for (auto &i : actual_items(k, nm)) v.push_back(i.text());
	std::sort(v.begin(), v.end()); // the order is unspecified
	for (auto &x : v) s += x + "\n";
	return s;
}
static std::string comp_text(struct ec_node *root, const Names &nm, const struct ec_strvec *v, struct ec_comp **keep = nullptr) {
	struct ec_comp *k = ec_complete_strvec(root, v);
	std::string s = k ? comp_str(k, nm) : "error";
	if (keep) *keep = k; else ec_comp_free(k);
	return s;
}
static std::string dump(const struct ec_node *n) {
	char *b = nullptr;
	size_t l;
	FILE *f = open_memstream(&b, &l);
	ec_node_dump(f, n);
	fclose(f);
	std::string s(b, l);
	free(b);
	return s;
}

static void pure_case(Ctx &c, bool all) {
	GenOpt o = GenOpt::core();
	if (all) { o.w[SHLEX] = 3; o.w[RELEX] = 3; o.w[DYN] = 3; o.w[COND] = 2; }
	Grammar g;
	gen_grammar(c.s, o, g);
	std::vector<Toks> ins;
	while (c.s.more(ins.size(), 2, 5)) {
		Toks t = gen_input(c.s, g, o);
		if (c.s.draw(3) == 0) complete_cut(c.s, t, o);
		ins.push_back(t);
	}
	for (auto &t : ins) {
		Ref r; r.limit = 4000; r.parse_root(g.root, t);
		Ref r2; r2.limit = 4000; r2.complete_root(g.root, t);
	}
	struct Op { int k; size_t i; unsigned at; };
	std::vector<Op> ops;
	while (c.s.more(ops.size(), 3, 14, 6, 7)) { Op x; x.k = c.s.weighted({5, 5, 1, 2, 2, 1, 1}); x.i = c.s.draw(ins.size()); x.at = 1 + c.s.draw(40); ops.push_back(x); }
	c.d << "grammar " << g.text() << "\n";
	for (size_t i = 0; i < ins.size(); i++) c.d << "input " << i << " " << model::show(ins[i]) << "\n";
	auto &A = ec::alloc();
	uint64_t mark = ec::alloc_mark();
	std::string err;
	// answers of graphs that were never asked anything else
	std::vector<std::string> wp, wc;
	for (auto &t : ins) {
		struct ec_strvec *v = to_strvec(t);
		for (int k = 0; k < 2; k++) {
			struct ec_node *r = build(g, err);
			CHECK(c, r, err);
			(k ? wc : wp).push_back(k ? comp_text(r, names(g), v) : parse_text(r, names(g), v));
			ec_node_free(r);
		}
		ec_strvec_free(v);
	}
	struct ec_node *root = build(g, err);
	CHECK(c, root, err);
	Names nm = names(g);
	std::string d0 = dump(root);
	std::vector<std::pair<struct ec_pnode *, size_t>> kp;
	std::vector<std::pair<struct ec_comp *, size_t>> kc;
	std::vector<struct ec_strvec *> vs;
	for (auto &t : ins) vs.push_back(to_strvec(t));
	for (size_t n = 0; n < ops.size(); n++) {
		auto &x = ops[n];
		struct ec_strvec *v = vs[x.i];
		bool keep = c.s.chance(1, 3);
		switch (x.k) {
		case 0: {
			struct ec_pnode *p;
			c.d << "parse " << x.i << (keep ? " (kept)\n" : "\n");
			std::string s = parse_text(root, nm, v, &p);
			CHECK(c, s == wp[x.i], "step " << n << ": parsing gives " << s << "\n  instead of " << wp[x.i]);
			if (keep && p) kp.push_back({p, x.i}); else ec_pnode_free(p);
			break;
		}
		case 1: {
			struct ec_comp *k;
			c.d << "complete " << x.i << (keep ? " (kept)\n" : "\n");
			std::string s = comp_text(root, nm, v, &k);
			CHECK(c, s == wc[x.i], "step " << n << ": completion gives " << s << "\n  instead of " << wc[x.i]);
			if (keep && k) kc.push_back({k, x.i}); else ec_comp_free(k);
			break;
		}
		case 2: c.d << "dump\n"; dump(root); break;
		case 3: case 4: // a question that fails half way
			c.d << (x.k == 3 ? "parse " : "complete ") << x.i << ", allocation " << x.at << " fails\n";
			A.n_alloc = A.n_failed = 0;
			A.fail_from = x.at;
			A.fail_to = x.at + (keep ? 0 : 1000000);
			if (x.k == 3) { struct ec_pnode *p = ec_parse_strvec(root, v); A.fail_from = A.fail_to = 0; ec_pnode_free(p); }
			else { struct ec_comp *k = ec_complete_strvec(root, v); A.fail_from = A.fail_to = 0; ec_comp_free(k); }
			break;
		case 5: { // a copy of an answer, modified
			c.d << "parse " << x.i << ", tree modified\n";
			struct ec_pnode *p = ec_parse_strvec(root, v);
			if (p) {
				struct ec_pnode *ch = ec_pnode_get_first_child(p);
				if (ch) { ec_pnode_unlink_child(ch); ec_pnode_free(ch); }
				struct ec_dict *at = ec_pnode_get_attrs(p);
				if (at) ec_dict_set(at, "k", nullptr, nullptr);
			}
			ec_pnode_free(p);
			break;
		}
		case 6: if (!kp.empty()) { c.d << "free of a kept tree\n"; ec_pnode_free(kp.back().first); kp.pop_back(); } break;
		}
		for (size_t i = 0; i < ins.size(); i++) CHECK(c, from_strvec(vs[i]) == ins[i], "step " << n << ": input " << i << " is modified: " << model::show(from_strvec(vs[i])));
	}
	for (auto &x : kp) {
		std::string s = render(x.first, nm) + " len " + (ec_pnode_matches(x.first) ? std::to_string(ec_pnode_len(x.first)) : "none");
		CHECK(c, s == wp[x.second], "a tree given earlier is now " << s << "\n  instead of " << wp[x.second]);
		struct ec_pnode *d = ec_pnode_dup(x.first);
		CHECK(c, d && render(d, nm) == render(x.first, nm), "copy of a tree");
		ec_pnode_free(d);
		ec_pnode_free(x.first);
	}
	for (auto &x : kc) {
		std::string s = comp_str(x.first, nm);
		CHECK(c, s == wc[x.second], "a completion given earlier is now " << s << "\n  instead of " << wc[x.second]);
		ec_comp_free(x.first);
	}
	for (auto *v : vs) ec_strvec_free(v);
	std::string d1 = dump(root);
	CHECK(c, d0 == d1, "the grammar is modified: " << d0 << "\n  became " << d1);
	ec_node_free(root);
	CHECK(c, A.error.empty(), A.error);
	std::string l = ec::leaks(mark);
	CHECK(c, l.empty(), "leak " << l);
	size_t good = 0;
	for (auto &s : wp) good += s.find(" len none") == std::string::npos;
	c.nontrivial = good && ops.size() >= 4 && g.nodes.size() >= 3;
	if (g.loops) c.label("recursive grammar");
	if (!kp.empty() || !kc.empty()) c.label("answers kept");
}

int main(int argc, char **argv) {
	Suite s;
	s.id = "C11";
	s.rule = "history of 3..14 questions on one grammar; non-trivial = 4+ operations, 3+ nodes, at least one input that matches";
	s.init = ec::lib_init;
	s.assumptions = {"single thread"};
	s.targets.push_back({"core", [](Ctx &c) { pure_case(c, false); }, 25000, 600000});
	s.targets.push_back({"all", [](Ctx &c) { pure_case(c, true); }, 25000, 600000});
	return run_main(argc, argv, s);
}
