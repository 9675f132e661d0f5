#include "model.hpp"
using namespace pbt;
using namespace model;

static void parse_case(Ctx &c, const GenOpt &o) {
	Grammar g;
	gen_grammar(c.s, o, g);
	std::vector<Toks> ins;
	while (c.s.more(ins.size(), 1, 5)) ins.push_back(gen_input(c.s, g, o));
	c.d << "grammar " << g.text() << "\n";
	// reference first: grammars too expensive to explore are discarded
	std::vector<int> want;
	for (auto &in : ins) {
		Ref r;
		if (o.big) r.limit = 15000;
		auto t = r.parse_root(g.root, in);
		if (r.cond_error) throw Discard(); // see C10
		want.push_back(!t->matched ? NOMATCH : (int)t->toks.size());
	}
	std::string err;
	struct ec_node *root = build(g, err);
	CHECK(c, root != nullptr, "grammar rejected: " << err);
	bool any = false, no = false;
	for (size_t i = 0; i < ins.size(); i++) {
		c.d << "input " << model::show(ins[i]) << " expect " << (want[i] == NOMATCH ? std::string("no match") : std::to_string(want[i])) << "\n";
		struct ec_strvec *v = to_strvec(ins[i]);
		struct ec_pnode *p = ec_parse_strvec(root, v);
		CHECK(c, p != nullptr, "parse reported an error, errno=" << errno);
		bool m = ec_pnode_matches(p);
		CHECK(c, m == (want[i] != NOMATCH), "matches=" << m);
		CHECK(c, ec_pnode_len(p) == (m ? (size_t)want[i] : 0), "matched length " << ec_pnode_len(p));
		if (m && want[i] > 0) any = true;
		if (!m) no = true;
		ec_pnode_free(p);
		ec_strvec_free(v);
	}
	ec_node_free(root);
	c.nontrivial = any && g.nodes.size() >= 3;
	if (o.big) { size_t w = 0; for (int x : want) if (x != NOMATCH) w = std::max<size_t>(w, x); c.label(w > 128 ? "more than 128 strings matched" : w > 16 ? "more than 16 strings matched" : "at most 16 strings matched"); }
	if (any) c.label("some input matched a non-empty prefix");
	if (no) c.label("some input did not match");
	if (g.loops) c.label("recursive grammar");
	if (g.shared) c.label("shared nodes");
	for (G *n : g.nodes) c.labels[std::string("has ") + kind_name[n->k]] = 1;
}

int main(int argc, char **argv) {
	Suite s;
	s.id = "C01";
	s.rule = "random grammar, inputs sampled from it and mutated; non-trivial = at least 3 nodes and one input matched a non-empty prefix";
	s.init = ec::lib_init;
	s.targets.push_back({"core", [](Ctx &c) { GenOpt o = GenOpt::core(); o.w[FILE_] = 1; parse_case(c, o); }, 120000, 3000000});
	s.targets.push_back({"all", [](Ctx &c) { GenOpt o = GenOpt::core(); o.w[FILE_] = 1; o.w[SHLEX] = 3; o.w[RELEX] = 3; o.w[DYN] = 2; o.w[COND] = 2; parse_case(c, o); }, 120000, 3000000});
	s.targets.push_back({"big", [](Ctx &c) { GenOpt o = GenOpt::core(); o.big = 300; o.w[RE] = 0; parse_case(c, o); }, 3000, 100000});
	s.targets.back().hang_s = 60;
	return run_main(argc, argv, s);
}
