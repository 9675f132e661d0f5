// Completion lists as containers: a scripted node type adds items through the
// public API, an ordered list of groups is the model.
#include "model.hpp"
using namespace pbt;

struct Op { int k; int type; std::string start, full; bool has_start, has_full; int child; };
struct Script { std::vector<Op> ops; int issuer; };
static std::vector<Script> scripts;

struct MItem { int type; std::string start, full, comp, disp; bool has_comp; };
struct MGroup { int node, state; std::vector<MItem> items; };
struct M { std::vector<MGroup> g; };

struct priv { int idx; };
static std::vector<struct ec_node *> nodes;
static std::string cb_error;
static M *cur;

static void bad(const std::string &m) { if (cb_error.empty()) cb_error = m; }

static std::set<int *> attrs_live;
static void attr_free(void *p) { if (!attrs_live.erase((int *)p)) { bad("attribute freed twice"); return; } delete (int *)p; }
static int s_complete(const struct ec_node *node, struct ec_comp *comp, const struct ec_strvec *strvec) {
	int me = ((struct priv *)ec_node_priv(node))->idx;
	int grp = -1;
	for (auto &op : scripts[me].ops) {
		if (op.k == 1) { // nested completion, own group afterwards goes on
			if (ec_complete_child(nodes[op.child], comp, strvec) < 0) { bad("nested completion failed"); return -1; }
			if (ec_pnode_get_node(ec_comp_get_cur_pstate(comp)) != node) bad("parsing state not restored");
			continue;
		}
		if (op.k == 2) { // another list is merged meanwhile
			M sub, *save = cur;
			cur = &sub;
			struct ec_comp *x = ec_complete_strvec(nodes[op.child], strvec);
			cur = save;
			if (!x || ec_comp_merge(comp, x) < 0) { bad("merge"); return -1; }
			for (auto &g : sub.g) cur->g.push_back(g);
			continue;
		}
		if (grp < 0 && ec_comp_get_cur_group(comp)) bad("current group before the first item");
		bool valid = (op.type == EC_COMP_UNKNOWN && !op.has_full && !op.has_start) ||
			((op.type == EC_COMP_FULL || op.type == EC_COMP_PARTIAL) && op.has_full);
		struct ec_comp_item *it = ec_comp_add_item(comp, nodes[scripts[me].issuer], (enum ec_comp_type)op.type,
			op.has_start ? op.start.c_str() : nullptr, op.has_full ? op.full.c_str() : nullptr);
		if ((it != nullptr) != valid) { bad(valid ? "valid item refused" : "invalid item accepted"); return -1; }
		if (!it) continue;
		if (grp < 0) { grp = cur->g.size(); cur->g.push_back({scripts[me].issuer, me, {}}); }
		MItem m{op.type, op.start, op.full, "", op.full, false};
		if (op.has_start && op.full.compare(0, op.start.size(), op.start) == 0) {
			m.has_comp = true;
			m.comp = op.full.substr(op.start.size());
		}
		// setters
		int r[3];
		std::string v = op.full + "!";
		r[0] = op.child & 1 ? ec_comp_item_set_display(it, (v + "d").c_str()) : 9;
		r[1] = op.child & 2 ? ec_comp_item_set_completion(it, op.child & 16 ? "" : (v + "c").c_str()) : 9;
		r[2] = op.child & 4 ? ec_comp_item_set_str(it, (v + "s").c_str()) : 9;
		for (int i = 0; i < 3; i++) if (r[i] != 9 && (r[i] == 0) != (op.type != EC_COMP_UNKNOWN)) bad("setter accepts or refuses wrongly");
		if (op.type != EC_COMP_UNKNOWN) {
			if (op.child & 1) m.disp = v + "d";
			if (op.child & 2) { m.comp = op.child & 16 ? "" : v + "c"; m.has_comp = true; }
			if (op.child & 4) m.full = v + "s";
			if (op.child & 8) {
				if (ec_comp_item_set_str(it, nullptr) != -1 || ec_comp_item_set_display(it, nullptr) != -1 ||
						ec_comp_item_set_completion(it, nullptr) != -1) bad("NULL accepted by a setter");
			}
		}
		if (ec_comp_get_cur_group(comp) != ec_comp_item_get_grp(it)) bad("current group is not the item's");
		cur->g[grp].items.push_back(m);
	}
	return 0;
}
static int s_parse(const struct ec_node *, struct ec_pnode *, const struct ec_strvec *v) { return ec_strvec_len(v) ? 1 : EC_PARSE_NOMATCH; }
static struct ec_node_type s_type;

static void verify(Ctx &c, struct ec_comp *k, const M &m) {
	size_t n[8] = {0};
	for (auto &g : m.g) for (auto &i : g.items) for (int mask = 0; mask < 8; mask++) if (mask & i.type) n[mask]++;
	for (int mask = 0; mask < 8; mask++) {
		CHECK(c, ec_comp_count(k, (enum ec_comp_type)mask) == n[mask], "count of type mask " << mask << " is " << ec_comp_count(k, (enum ec_comp_type)mask) << ", expected " << n[mask]);
		struct ec_comp_item *it;
		size_t gi = 0, ii = 0, seen = 0;
		const struct ec_comp_group *last = nullptr;
		size_t lastg = 0;
		std::set<const struct ec_comp_group *> grps;
		EC_COMP_FOREACH(it, k, (enum ec_comp_type)mask) {
			while (gi < m.g.size() && (ii >= m.g[gi].items.size() || !(m.g[gi].items[ii].type & mask))) {
				if (ii >= m.g[gi].items.size()) { gi++; ii = 0; } else ii++;
			}
			CHECK(c, gi < m.g.size(), "iteration with mask " << mask << " gives more than " << n[mask] << " items");
			const MItem &e = m.g[gi].items[ii];
			seen++;
			auto z = [](const char *s) { return s ? std::string(s) : std::string("(null)"); };
			std::string where = "mask " + std::to_string(mask) + " item " + std::to_string(seen);
			CHECK(c, ec_comp_item_get_type(it) == e.type, where << ": type");
			bool u = e.type == EC_COMP_UNKNOWN;
			CHECK(c, z(ec_comp_item_get_str(it)) == (u ? "(null)" : e.full), where << ": str " << z(ec_comp_item_get_str(it)));
			CHECK(c, z(ec_comp_item_get_display(it)) == (u ? "(null)" : e.disp), where << ": display " << z(ec_comp_item_get_display(it)));
			CHECK(c, z(ec_comp_item_get_completion(it)) == (u || !e.has_comp ? "(null)" : e.comp), where << ": completion " << z(ec_comp_item_get_completion(it)));
			CHECK(c, ec_comp_item_get_node(it) == nodes[m.g[gi].node], where << ": node");
			const struct ec_comp_group *g = ec_comp_item_get_grp(it);
			CHECK(c, ec_comp_group_get_node(g) == nodes[m.g[gi].node], where << ": group node");
			CHECK(c, ec_pnode_get_node(ec_comp_group_get_pstate(g)) == nodes[m.g[gi].state], where << ": state");
			CHECK(c, ec_comp_group_get_attrs(g) != nullptr, where << ": group attributes");
			if (last && gi == lastg) CHECK(c, g == last, where << ": group split");
			if (last && gi != lastg) CHECK(c, g != last && !grps.count(g), where << ": groups mixed up");
			last = g; lastg = gi;
			grps.insert(g);
			ii++;
		}
		CHECK(c, seen == n[mask], "iteration with mask " << mask << " gives " << seen << " items, expected " << n[mask]);
	}
}

static void comp_case(Ctx &c) {
	uint64_t mark = ec::alloc_mark();
	scripts.clear();
	nodes.clear();
	cb_error.clear();
	attrs_live.clear();
	int attrs_made = 0;
	size_t nn = 1 + c.s.draw(5);
	bool big = c.s.chance(1, 25);
	std::vector<std::string> words = {"", "a", "ab", "abc", "b"};
	static const int types[] = {EC_COMP_FULL, EC_COMP_PARTIAL, EC_COMP_UNKNOWN, 0, 3, 8, EC_COMP_ALL};
	for (size_t i = 0; i < nn; i++) {
		Script s;
		s.issuer = c.s.chance(1, 6) ? c.s.draw(nn) : i;
		c.d << "n" << i << " as n" << s.issuer << ":";
		while (c.s.more(s.ops.size(), 0, 6, 4, 5)) {
			Op o{};
			o.k = i + 1 < nn && c.s.chance(1, 4) ? c.s.chance(1, 3) ? 2 : 1 : 0;
			if (o.k) { o.child = i + 1 + c.s.draw(nn - i - 1); c.d << (o.k == 2 ? " merge(n" : " child(n") << o.child << ")"; }
			else {
				o.type = types[c.s.weighted({6, 3, 4, 1, 1, 1, 1})];
				o.has_full = o.type == EC_COMP_UNKNOWN ? c.s.chance(1, 8) : !c.s.chance(1, 8);
				o.has_start = o.type == EC_COMP_UNKNOWN ? c.s.chance(1, 8) : !c.s.chance(1, 6);
				if (o.has_full) o.full = c.s.pick(words);
				if (o.has_start) o.start = c.s.draw(3) ? o.full.substr(0, c.s.draw(o.full.size() + 1)) : c.s.pick(words);
				o.child = c.s.chance(1, 2) ? c.s.draw(32) : 0;
				c.d << " add(" << o.type << "," << (o.has_start ? q(o.start) : "NULL") << "," << (o.has_full ? q(o.full) : "NULL") << ",set" << o.child << ")";
			}
			s.ops.push_back(o);
			if (big && !o.k && c.s.chance(1, 4)) {
				static const size_t K[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300};
				size_t n = K[c.s.draw(16)];
				c.d << " x" << n;
				while (--n) s.ops.push_back(o);
				c.label("hundreds of items");
				break;
			}
		}
		c.d << "\n";
		scripts.push_back(s);
	}
	for (size_t i = 0; i < nn; i++) {
		struct ec_node *n = ec_node_from_type(&s_type, "s");
		CHECK(c, n, "node");
		((struct priv *)ec_node_priv(n))->idx = i;
		nodes.push_back(n);
	}
	struct ec_strvec *v = ec_strvec();
	ec_strvec_add(v, "x");
	std::vector<struct ec_comp *> comps;
	std::vector<M> ms;
	size_t nc = 1 + c.s.draw(3);
	for (size_t i = 0; i < nc; i++) {
		size_t k = c.s.draw(nn);
		c.d << "complete n" << k << "\n";
		M m;
		cur = &m;
		struct ec_comp *x;
		if (c.s.draw(4) == 3) { x = ec_comp(); CHECK(c, x, "ec_comp"); c.label("empty list"); }
		else x = ec_complete_strvec(nodes[k], v);
		CHECK(c, cb_error.empty(), cb_error);
		CHECK(c, x, "completion failed");
		verify(c, x, m);
		comps.push_back(x);
		ms.push_back(m);
		while (c.s.chance(1, 3)) { // attributes, that the items may depend on
			int *p = new int(attrs_made++);
			attrs_live.insert(p);
			CHECK(c, ec_dict_set(ec_comp_get_attrs(x), ("k" + std::to_string(c.s.draw(3)) + (c.s.draw(2) ? "x" : "")).c_str(), p, attr_free) == 0, "attribute");
			c.d << "attribute in list " << comps.size() - 1 << "\n";
			c.label("attributes");
		}
	}
	size_t attrs = attrs_live.size();
	while (comps.size() > 1) {
		size_t a = c.s.draw(comps.size()), b = c.s.draw(comps.size() - 1);
		if (b >= a) b++;
		c.d << "merge " << b << " into " << a << "\n";
		CHECK(c, ec_comp_merge(comps[a], comps[b]) == 0, "merge");
		ms[a].g.insert(ms[a].g.end(), ms[b].g.begin(), ms[b].g.end());
		comps.erase(comps.begin() + b);
		M t = ms[b];
		ms.erase(ms.begin() + b);
		if (b < a) a--;
		verify(c, comps[a], ms[a]);
		CHECK(c, attrs_live.size() == attrs && cb_error.empty(), attrs_live.size() << " attributes are left after the merge instead of " << attrs << " " << cb_error);
		c.label("merged");
	}
	size_t items = 0;
	for (auto &g : ms[0].g) items += g.items.size();
	c.nontrivial = items >= 3 && ms[0].g.size() >= 2;
	if (c.nontrivial) c.label("several groups");
	ec_comp_free(comps[0]);
	CHECK(c, attrs_live.empty() && cb_error.empty(), attrs_live.size() << " attributes are not freed " << cb_error);
	ec_strvec_free(v);
	for (auto *n : nodes) ec_node_free(n);
	std::string l = ec::leaks(mark);
	CHECK(c, l.empty(), l);
}

// merging lists completed from real grammars, dynamic nodes included
static void merge_case(Ctx &c) {
	using namespace model;
	GenOpt o = GenOpt::core();
	o.w[DYN] = 6;
	o.w[SHLEX] = 2;
	o.depth = 3;
	Grammar g;
	gen_grammar(c.s, o, g);
	c.d << "grammar " << g.text() << "\n";
	std::vector<Toks> ins;
	std::multiset<std::string> want;
	while (c.s.more(ins.size(), 2, 4)) {
		Toks t = gen_input(c.s, g, o);
		if (c.s.draw(5)) complete_cut(c.s, t, o);
		c.d << "input " << model::show(t) << "\n";
		ins.push_back(t);
		Ref r;
		r.limit = 6000;
		r.complete_root(g.root, t);
		if (!r.items.empty()) c.label("non-empty list");
		for (auto &i : r.items) want.insert(i.text());
	}
	std::string err;
	struct ec_node *root = build(g, err);
	CHECK(c, root, "grammar rejected: " << err);
	Names nm = names(g);
	struct ec_comp *to = nullptr;
	for (auto &t : ins) {
		struct ec_strvec *v = to_strvec(t);
		struct ec_comp *k = ec_complete_strvec(root, v);
		ec_strvec_free(v);
		CHECK(c, k, "completion failed");
		if (!to) to = k;
		else CHECK(c, ec_comp_merge(to, k) == 0, "merge failed");
	}
	std::multiset<std::string> got;
	for (auto &i : actual_items(to, nm)) got.insert(i.text());
	CHECK(c, got == want, "merged list differs from the union");
	CHECK(c, ec_comp_count(to, EC_COMP_ALL) == want.size(), "count");
	ec_comp_free(to);
	ec_node_free(root);
	c.nontrivial = want.size() >= 3;
	for (G *n : g.nodes) if (n->k == DYN && c.nontrivial) c.label("with dynamic nodes");
}

int main(int argc, char **argv) {
	Suite s;
	s.id = "C04";
	s.rule = "list: scripted completion callbacks and merges, non-trivial = 3 items or more in 2 groups or more; merge: at least 3 items after the merge";
	s_type.name = "pbt_script";
	s_type.size = sizeof(struct priv);
	s_type.parse = s_parse;
	s_type.complete = s_complete;
	s.init = ec::lib_init;
	s.targets.push_back({"list", comp_case, 80000, 2000000});
	s.targets.push_back({"merge", merge_case, 40000, 800000});
	return run_main(argc, argv, s);
}
