#include "model.hpp"
using namespace pbt;
using namespace model;

static std::multiset<std::string> texts(const std::vector<Ref::Item> &v) {
	std::multiset<std::string> o;
	for (auto &i : v) o.insert(i.text());
	return o;
}
static std::string join(const std::multiset<std::string> &a, const std::multiset<std::string> &b) {
	std::string o;
	for (auto &x : a) if (a.count(x) > b.count(x)) { o += "\n    " + x; if (o.size() > 2000) break; }
	return o.empty() ? " none" : o;
}

static void check_one(Ctx &c, struct ec_node *root, const Names &nm, const Toks &in, const std::multiset<std::string> &want) {
	struct ec_strvec *v = to_strvec(in);
	struct ec_comp *k = ec_complete_strvec(root, v);
	CHECK(c, k != nullptr, "completion reported an error, errno=" << errno);
	CHECK(c, model::show(from_strvec(v)) == model::show(in), "input vector modified");
	ec_strvec_free(v);
	auto got = texts(actual_items(k, nm));
	CHECK(c, got == want, "missing:" << join(want, got) << "\n  unexpected:" << join(got, want));
	CHECK(c, ec_comp_count(k, EC_COMP_ALL) == got.size(), "count");
	ec_comp_free(k);
	if (in.size() == 1 && in[0].attr.empty()) {
		k = ec_complete(root, in[0].s.c_str());
		CHECK(c, k != nullptr, "ec_complete failed");
		got = texts(actual_items(k, nm));
		CHECK(c, got == want, "ec_complete differs from ec_complete_strvec");
		ec_comp_free(k);
	}
}

static void comp_case(Ctx &c, const GenOpt &o) {
	Grammar g;
	gen_grammar(c.s, o, g);
	std::vector<Toks> ins;
	while (c.s.more(ins.size(), 1, 4)) {
		Toks t = gen_input(c.s, g, o);
		if (t.size() > 24) t.resize(24);
		if (c.s.draw(5)) complete_cut(c.s, t, o);
		ins.push_back(t);
	}
	c.d << "grammar " << g.text() << "\n";
	std::vector<std::multiset<std::string>> want;
	bool rich = false;
	for (auto &in : ins) {
		Ref r;
		r.limit = 6000;
		r.complete_root(g.root, in);
		if (r.cond_error) throw Discard();
		want.push_back(texts(r.items));
		size_t full = 0;
		for (auto &i : r.items) if (i.type == EC_COMP_FULL) full++;
		if (full) c.label("completes to a string");
		if (full && in.size() > 1) { rich = true; c.label("completes after parsed tokens"); }
		if (r.items.empty()) c.label("no completion");
		if (r.items.size() >= 2) c.label("several items");
		if (r.items.size() > 64) c.label("more than 64 items");
	}
	std::string err;
	struct ec_node *root = build(g, err);
	CHECK(c, root != nullptr, "grammar rejected: " << err);
	Names nm = names(g);
	for (size_t i = 0; i < ins.size(); i++) {
		c.d << "input " << model::show(ins[i]) << " -> " << want[i].size() << " items\n";
		check_one(c, root, nm, ins[i], want[i]);
	}
	ec_node_free(root);
	c.nontrivial = rich;
	if (g.loops) c.label("recursive grammar");
	for (G *n : g.nodes) c.labels[std::string("has ") + kind_name[n->k]] = 1;
}

// a shell-lexed command line, as an interactive user types it
static void line_case(Ctx &c) {
	GenOpt o = GenOpt::core();
	o.words = {"show", "shell", "a b", "it's", "q\"x", "x\\y", "", "#c", "set", "s"};
	o.depth = 3;
	Grammar g;
	gen_grammar(c.s, o, g);
	G *lex = g.a.make(SHLEX);
	lex->ch.push_back(g.root);
	lex->uid = (int)g.nodes.size();
	g.nodes.push_back(lex);
	g.root = lex;
	Toks w = gen_input(c.s, g, o);
	std::string line;
	if (!w.empty()) line = w[0].s;
	// cut the line anywhere: inside quotes, after a backslash, ...
	if (c.s.draw(4)) line.resize(c.s.draw(line.size() + 1));
	if (c.s.draw(6) == 5) line += " ";
	Toks in = {{line, ""}};
	c.d << "grammar " << g.text() << "\nline " << q(line) << "\n";
	Ref r;
	r.limit = 6000;
	r.complete_root(g.root, in);
	auto want = texts(r.items);
	std::string err;
	struct ec_node *root = build(g, err);
	CHECK(c, root != nullptr, "grammar rejected: " << err);
	check_one(c, root, names(g), in, want);
	// every full completion, once applied, can be applied no further
	for (auto &i : r.items) if (i.type == EC_COMP_FULL) c.nontrivial = true;
	if (sh_lex(line).quote) c.label("unclosed quote");
	if (c.nontrivial) c.label("completes to a string");
	ec_node_free(root);
}

int main(int argc, char **argv) {
	Suite s;
	s.id = "C03";
	s.rule = "random grammar, inputs sampled from it and cut at a random place; non-trivial = at least one full completion after at least one parsed token (line: at least one full completion)";
	s.init = ec::lib_init;
	s.assumptions = {"order of the completion items is unspecified (compared as multisets)",
		"completion below a cond node is unspecified (marked XXX in the code) and not generated"};
	s.targets.push_back({"core", [](Ctx &c) { comp_case(c, GenOpt::core()); }, 80000, 2000000});
	s.targets.push_back({"all", [](Ctx &c) { GenOpt o = GenOpt::core(); o.w[SHLEX] = 3; o.w[RELEX] = 2; o.w[DYN] = 2; comp_case(c, o); }, 80000, 2000000});
	s.targets.push_back({"line", line_case, 60000, 1500000});
	s.targets.push_back({"big", [](Ctx &c) { GenOpt o = GenOpt::core(); o.big = 300; o.w[RE] = 0; comp_case(c, o); }, 3000, 100000});
	s.targets.back().hang_s = 60;
	return run_main(argc, argv, s);
}
