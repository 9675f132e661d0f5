// What the accessors, searches and dumps of grammars, parse trees and
// completion lists show is what they are.
#include "model.hpp"
#include <algorithm>
using namespace pbt;
using namespace model;

template <class F> static std::string dumped(F f) {
	char *b = nullptr;
	size_t l;
	FILE *o = open_memstream(&b, &l);
	f(o);
	fclose(o);
	std::string s(b, l);
	free(b);
	return s;
}
static std::vector<std::string> lines(const std::string &s) {
	std::vector<std::string> v;
	size_t p = 0;
	while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) e = s.size(); v.push_back(s.substr(p, e - p)); p = e + 1; }
	return v;
}
static std::string tname(const G *g) { return g->k == DYN ? "dynamic" : kind_name[g->k]; }
static std::string desc(const G *g) { return g->k == STR ? g->str : "<" + std::string(ec_node_type_name(ec_node_type(g->node))) + ">"; }
static std::vector<G *> kids(const G *g) { return g->k == DYN ? std::vector<G *>() : g->ch; }

static void node_case(Ctx &c, size_t big) {
	GenOpt o = GenOpt::core();
	o.big = big;
	o.w[SHLEX] = 2; o.w[RELEX] = 2; o.w[DYN] = 1; o.w[COND] = 2; o.w[FILE_] = 1;
	static const std::string LONG = "an_identifier_longer_than_usual_", LONGER(300, 'L');
	switch (c.s.draw(4)) {
	case 1: o.ids = {"i0", LONG + "0", LONG + "1", LONG, LONGER + "0", LONGER + "1"}; break;
	case 2: o.ids = {" ", " i0", "i0 ", "I0", "i0", "\xc3\xa9", "i%s", "0"}; o.w[COND] = 0; break;
	}
	Grammar g;
	gen_grammar(c.s, o, g);
	c.d << "grammar " << g.text() << "\n";
	uint64_t mark = ec::alloc_mark();
	std::string err;
	struct ec_node *root = build(g, err);
	CHECK(c, root, err);
	CHECK(c, root == g.root->node, "root");
	// node by node
	for (G *n : g.nodes) {
		CHECK(c, std::string(ec_node_id(n->node)) == n->id, "id of " << n->uid);
		char *d = ec_node_desc(n->node);
		CHECK(c, d && desc(n) == d, "description of " << n->uid << " is " << q(d) << " instead of " << q(desc(n)));
		ec_free(d);
		auto k = kids(n);
		CHECK(c, ec_node_get_children_count(n->node) == k.size(), "node " << n->uid << " has " << ec_node_get_children_count(n->node) << " children instead of " << k.size());
		struct ec_node *x;
		unsigned refs;
		for (size_t i = 0; i < k.size(); i++) {
			x = nullptr;
			CHECK(c, ec_node_get_child(n->node, i, &x, &refs) == 0 && x == k[i]->node, "child " << i << " of " << n->uid);
		}
		for (size_t i = 0; i < 2; i++) CHECK(c, ec_node_get_child(n->node, k.size() + i, &x, &refs) < 0, "child past the end of " << n->uid);
		const struct ec_node_type *t = ec_node_type(n->node);
		CHECK(c, t && ec_node_type_lookup(ec_node_type_name(t)) == t && ec_node_check_type(n->node, t) == 0, "type of " << n->uid);
	}
	// dump and search, from several nodes
	for (int rep = 0; rep < 3; rep++) {
		G *from = rep ? g.nodes[c.s.draw(g.nodes.size())] : g.root;
		std::vector<std::string> want = {"------------------- node dump:"};
		std::set<G *> seen;
		std::vector<G *> pre;
		std::function<void(G *, int)> walk = [&](G *n, int depth) {
			std::string l = std::string(depth * 4, ' ') + desc(n) + " type=" + ec_node_type_name(ec_node_type(n->node)) + " id=" + n->id + " ";
			char p[32];
			snprintf(p, sizeof p, "%p", (void *)n->node);
			l += p;
			if (!seen.insert(n).second) { want.push_back(l + "... (loop)"); return; }
			want.push_back(l + " refs=");
			pre.push_back(n);
			for (G *x : kids(n)) walk(x, depth + 1);
		};
		walk(from, 0);
		std::string text = dumped([&](FILE *f) { ec_node_dump(f, from->node); });
		auto got = lines(text);
		// (strings may hold line ends: compare line by line only without them)
		bool ok = got.size() == want.size();
		for (size_t i = 0; ok && i < got.size(); i++)
			ok = want[i].size() > 5 && want[i].compare(want[i].size() - 5, 5, "refs=") == 0 ? got[i].compare(0, want[i].size(), want[i]) == 0 : got[i] == want[i];
		std::string w;
		for (auto &x : want) w += x + "\n";
		CHECK(c, ok, "dump:\n" << text << "\n  instead of:\n" << w);
		if (seen.size() < g.nodes.size()) c.label("part of the graph");
		if (want.size() - 1 > seen.size()) c.label("shared or recursive");
		std::vector<std::string> IDS = {"i0", "i1", "i2", "i3", "i", "none", "dk"};
		IDS.insert(IDS.end(), o.ids.begin(), o.ids.end());
		for (int j = 0; j < 3; j++) IDS.push_back(g.nodes[c.s.draw(g.nodes.size())]->id);
		for (auto &id : IDS) {
			std::set<struct ec_node *> cand;
			for (G *n : pre) if (n->id == id) cand.insert(n->node);
			errno = 0;
			struct ec_node *f = ec_node_find(from->node, id.c_str());
			CHECK(c, !!f == !cand.empty(), "search of " << id << " from " << from->uid << (f ? " finds something" : " finds nothing"));
			if (f) CHECK(c, cand.count(f), "search of " << id << " finds another node");
			else CHECK(c, errno == ENOENT, "errno " << errno);
			if (f) c.label("found");
		}
	}
	CHECK(c, dumped([](FILE *f) { ec_node_dump(f, nullptr); }).find("NULL") != std::string::npos, "dump of no node");
	ec_node_free(root);
	CHECK(c, ec::alloc().error.empty(), ec::alloc().error);
	std::string l = ec::leaks(mark);
	CHECK(c, l.empty(), "leak " << l);
	c.nontrivial = g.nodes.size() >= 4;
}

static std::string vec_text(const struct ec_strvec *v) {
	if (!v) return "none";
	auto x = ec::vec(v);
	std::string s = "strvec (len=" + std::to_string(x.size()) + ") [";
	for (size_t i = 0; i < x.size(); i++) s += (i ? ", " : "") + x[i];
	return s + "]";
}
static void pnode_text(const struct ec_pnode *p, int depth, std::string &out) {
	const struct ec_node *n = ec_pnode_get_node(p);
	char *d = ec_node_desc(n);
	out += std::string(depth * 4, ' ') + d + " type=" + ec_node_type_name(ec_node_type(n)) + " id=" + ec_node_id(n) + " vec=" + vec_text(ec_pnode_get_strvec(p)) + "\n";
	ec_free(d);
	for (const struct ec_pnode *x = ec_pnode_get_first_child(p); x; x = ec_pnode_next(x)) pnode_text(x, depth + 1, out);
}
static void result_case(Ctx &c, size_t big) {
	GenOpt o = GenOpt::core();
	o.big = big;
	if (big) o.w[RE] = 0;
	else { o.w[SHLEX] = 2; o.w[RELEX] = 2; o.w[DYN] = 1; }
	Grammar g;
	gen_grammar(c.s, o, g);
	Toks in = gen_input(c.s, g, o);
	if (c.s.draw(3) == 0) complete_cut(c.s, in, o);
	c.d << "grammar " << g.text() << "\ninput " << model::show(in) << "\n";
	Ref r; r.limit = 4000;
	auto rp = r.parse_root(g.root, in);
	Ref r2; r2.limit = 4000; r2.complete_root(g.root, in);
	uint64_t mark = ec::alloc_mark();
	std::string err;
	struct ec_node *root = build(g, err);
	CHECK(c, root, err);
	struct ec_strvec *v = to_strvec(in);
	struct ec_pnode *p = ec_parse_strvec(root, v);
	CHECK(c, p, "parse");
	std::string got = dumped([&](FILE *f) { ec_pnode_dump(f, p); }), want = "------------------- parse dump:\n";
	if (!ec_pnode_matches(p) && !ec_pnode_get_first_child(p)) want += "no match\n";
	else pnode_text(p, 0, want);
	CHECK(c, got == want, "dump of the tree:\n" << got << "\n  instead of:\n" << want);
	// the whole tree is walked by the iterator, parents first
	std::vector<const struct ec_pnode *> walk, it;
	std::function<void(const struct ec_pnode *)> w = [&](const struct ec_pnode *x) { walk.push_back(x); for (const struct ec_pnode *k = ec_pnode_get_first_child(x); k; k = ec_pnode_next(k)) w(k); };
	w(p);
	for (const struct ec_pnode *x = p; x; x = EC_PNODE_ITER_NEXT(p, x, 1)) it.push_back(x);
	CHECK(c, walk == it, "iteration visits " << it.size() << " nodes of " << walk.size());
	struct ec_comp *k = ec_complete_strvec(root, v);
	CHECK(c, k, "complete");
	got = dumped([&](FILE *f) { ec_comp_dump(f, k); });
	std::map<const struct ec_comp_group *, int> grp;
	std::vector<std::string> items;
	struct ec_comp_item *i;
	size_t cnt[4] = {};
	EC_COMP_FOREACH(i, k, EC_COMP_ALL) {
		grp[ec_comp_item_get_grp(i)]++;
		int t = ec_comp_item_get_type(i);
		cnt[0]++;
		cnt[t == EC_COMP_FULL ? 1 : t == EC_COMP_PARTIAL ? 2 : 3]++;
		auto z = [](const char *s) { return std::string(s ? s : "(null)"); };
		items.push_back(std::string("  type=") + (t == EC_COMP_FULL ? "full" : t == EC_COMP_PARTIAL ? "partial" : "unknown") + " str=<" + z(ec_comp_item_get_str(i)) + "> comp=<" + z(ec_comp_item_get_completion(i)) + "> disp=<" + z(ec_comp_item_get_display(i)) + ">");
	}
	auto L = lines(got);
	if (items.empty()) CHECK(c, got == "no completion\n", "dump of no completion: " << got);
	else {
		char b[200];
		snprintf(b, sizeof b, "completion: count=%zu full=%zu partial=%zu unknown=%zu", cnt[0], cnt[1], cnt[2], cnt[3]);
		CHECK(c, !L.empty() && L[0] == b, "dump of the completions: " << got << "\n  instead of: " << b);
		std::vector<std::string> gi;
		size_t heads = 0;
		for (size_t j = 1; j < L.size(); j++) { if (L[j].compare(0, 5, "node=") == 0) heads++; else gi.push_back(L[j]); }
		std::sort(gi.begin(), gi.end());
		std::sort(items.begin(), items.end());
		CHECK(c, gi == items, "dump of the completions: " << got);
		CHECK(c, heads == grp.size(), "dump of the completions: " << heads << " groups instead of " << grp.size() << ": " << got);
	}
	ec_comp_free(k);
	ec_pnode_free(p);
	ec_strvec_free(v);
	ec_node_free(root);
	CHECK(c, dumped([](FILE *f) { ec_pnode_dump(f, nullptr); }).find("NULL") != std::string::npos && dumped([](FILE *f) { ec_comp_dump(f, nullptr); }) == "no completion\n", "dump of nothing");
	CHECK(c, ec::alloc().error.empty(), ec::alloc().error);
	std::string l = ec::leaks(mark);
	CHECK(c, l.empty(), "leak " << l);
	c.nontrivial = walk.size() >= 3;
	if (cnt[0] >= 2) c.label("several completions");
}

int main(int argc, char **argv) {
	Suite s;
	s.id = "C21";
	s.rule = "random grammar and input; non-trivial = 4+ nodes, or a tree of 3+ nodes";
	s.init = ec::lib_init;
	s.assumptions = {"the words of the grammars hold no end of line"};
	s.targets.push_back({"node", [](Ctx &c) { node_case(c, 0); }, 60000, 1500000});
	s.targets.push_back({"bignode", [](Ctx &c) { node_case(c, 300); }, 3000, 100000});
	s.targets.back().hang_s = 60;
	s.targets.push_back({"result", [](Ctx &c) { result_case(c, 0); }, 60000, 1500000});
	s.targets.push_back({"bigresult", [](Ctx &c) { result_case(c, 130); }, 3000, 100000});
	s.targets.back().hang_s = 60;
	return run_main(argc, argv, s);
}
