#include "model.hpp"
using namespace pbt;

typedef std::vector<std::string> SV;

struct Expr {           // configuration of the node
	int valkind = 0;    // 0: int 0..99, 1: int or name, 2: seq("f", int)
	bool has_val = false;
	std::vector<SV> bin, pre, post;               // alternatives of each operator
	std::vector<std::pair<std::string, std::string>> paren;
	bool complete() const { return has_val && (bin.size() || pre.size() || post.size()); }
};

// reference: result is a fully parenthesised text
struct RefE {
	const Expr &e;
	const SV &t;
	uint64_t steps = 0;
	RefE(const Expr &e, const SV &t) : e(e), t(t) {}
	static bool isint(const std::string &s) { __int128 v; return model::ref_int(s, 10, v, true) && v >= 0 && v <= 99; }
	bool oneof(const SV &v, const std::string &s) { for (auto &x : v) if (x == s) return true; return false; }
	bool val(size_t &i, std::string &o) {
		if (e.valkind == 2) {
			if (i + 1 < t.size() && t[i] == "f" && isint(t[i + 1])) { o = "f " + t[i + 1]; i += 2; return true; }
			return false;
		}
		if (i < t.size() && (isint(t[i]) || (e.valkind == 1 && (t[i] == "x" || t[i] == "y")))) { o = t[i++]; return true; }
		return false;
	}
	bool any(const std::vector<SV> &ops, size_t &i, std::string &o) {
		if (i >= t.size()) return false;
		for (auto &v : ops) if (oneof(v, t[i])) { o = t[i++]; return true; }
		return false;
	}
	bool primary(size_t &i, std::string &o) {
		if (++steps > 20000) throw Discard();
		size_t j = i;
		std::string op, x;
		if (val(j, o)) { i = j; return true; }
		j = i;
		if (any(e.pre, j, op) && level(e.bin.size(), j, x)) { o = "<" + op + " " + x + ">"; i = j; return true; }
		for (auto &p : e.paren) {
			j = i;
			if (j < t.size() && t[j] == p.first) {
				j++;
				if (level(e.bin.size(), j, x) && j < t.size() && t[j] == p.second) {
					o = "[" + p.first + x + p.second + "]";
					i = j + 1;
					return true;
				}
			}
		}
		return false;
	}
	bool term(size_t &i, std::string &o) {
		if (!primary(i, o)) return false;
		std::string op;
		while (any(e.post, i, op)) o = "<" + o + " " + op + ">";
		return true;
	}
	bool level(size_t l, size_t &i, std::string &o) {
		if (l == 0) return term(i, o);
		if (!level(l - 1, i, o)) return false;
		for (;;) {
			size_t j = i;
			std::string x;
			if (j >= t.size() || !oneof(e.bin[l - 1], t[j])) break;
			std::string op = t[j++];
			if (!level(l - 1, j, x)) break;
			o = "<" + o + " " + op + " " + x + ">";
			i = j;
		}
		return true;
	}
};

// ---- evaluation callbacks: values are tracked heap strings
struct Run {
	std::set<std::string *> live;
	int fail_at = -1, n = 0;
	std::string err;
	bool tick() { return n++ == fail_at; }
	std::string *mk(const std::string &s) { auto *p = new std::string(s); live.insert(p); return p; }
	std::string take(void *p) {
		auto *s = (std::string *)p;
		if (!live.count(s)) { if (err.empty()) err = "callback got a value that is not live"; return "?"; }
		live.erase(s);
		std::string v = *s;
		delete s;
		return v;
	}
	void check(void *p) { if (!live.count((std::string *)p) && err.empty()) err = "callback got a value that is not live"; }
};
static std::string text(const struct ec_pnode *p) {
	std::string o;
	for (auto &s : ec::vec(ec_pnode_get_strvec(p))) o += (o.empty() ? "" : " ") + s;
	return o;
}
static void *const junk = (void *)0x10;
static int cb_var(void **r, void *u, const struct ec_pnode *v) {
	Run *x = (Run *)u; *r = junk;
	if (x->tick()) return -1;
	*r = x->mk(text(v));
	return 0;
}
static int cb_pre(void **r, void *u, void *a, const struct ec_pnode *op) {
	Run *x = (Run *)u; *r = junk;
	x->check(a);
	if (x->tick()) return -1;
	*r = x->mk("<" + text(op) + " " + x->take(a) + ">");
	return 0;
}
static int cb_post(void **r, void *u, void *a, const struct ec_pnode *op) {
	Run *x = (Run *)u; *r = junk;
	x->check(a);
	if (x->tick()) return -1;
	*r = x->mk("<" + x->take(a) + " " + text(op) + ">");
	return 0;
}
static int cb_bin(void **r, void *u, void *a, const struct ec_pnode *op, void *b) {
	Run *x = (Run *)u; *r = junk;
	x->check(a); x->check(b);
	if (x->tick()) return -1;
	std::string l = x->take(a), rr = x->take(b);
	*r = x->mk("<" + l + " " + text(op) + " " + rr + ">");
	return 0;
}
static int cb_par(void **r, void *u, const struct ec_pnode *o, const struct ec_pnode *cl, void *a) {
	Run *x = (Run *)u; *r = junk;
	x->check(a);
	if (x->tick()) return -1;
	*r = x->mk("[" + text(o) + x->take(a) + text(cl) + "]");
	return 0;
}
static void cb_free(void *a, void *u) { Run *x = (Run *)u; x->take(a); }
static const struct ec_node_expr_eval_ops ops = {cb_var, cb_pre, cb_post, cb_bin, cb_par, cb_free};

static struct ec_node *op_node(const SV &v) {
	if (v.size() == 1) return ec_node_str(EC_NO_ID, v[0].c_str());
	struct ec_node *n = ec_node("or", EC_NO_ID);
	for (auto &s : v) ec_node_or_add(n, ec_node_str(EC_NO_ID, s.c_str()));
	return n;
}
static struct ec_node *val_node(int k) {
	if (k == 0) return ec_node_int("v", 0, 99, 10);
	if (k == 1) return EC_NODE_OR("v", ec_node_int(EC_NO_ID, 0, 99, 10), ec_node_str(EC_NO_ID, "x"), ec_node_str(EC_NO_ID, "y"));
	return EC_NODE_SEQ("v", ec_node_str(EC_NO_ID, "f"), ec_node_int(EC_NO_ID, 0, 99, 10));
}
static SV gen_op(Src &s, const SV &pool) {
	SV v;
	while (s.more(v.size(), 1, 2, 1, 4)) v.push_back(s.pick(pool));
	return v;
}
static const SV BIN = {"+", "*", "-", "/", "&", "=="}, PRE = {"!", "-", "~"}, POST = {"^", "!", "++"};

static void gen_sent(Src &s, const Expr &e, int depth, SV &o) {
	switch (depth <= 0 ? 0 : s.weighted({3, 4, 2, 2, 2})) {
	case 1:
		if (e.bin.size()) { gen_sent(s, e, depth - 1, o); o.push_back(s.pick(s.pick(e.bin))); gen_sent(s, e, depth - 1, o); return; }
		break;
	case 2: if (e.pre.size()) { o.push_back(s.pick(s.pick(e.pre))); gen_sent(s, e, depth - 1, o); return; } break;
	case 3: if (e.post.size()) { gen_sent(s, e, depth - 1, o); o.push_back(s.pick(s.pick(e.post))); return; } break;
	case 4: if (e.paren.size()) { auto &p = s.pick(e.paren); o.push_back(p.first); gen_sent(s, e, depth - 1, o); o.push_back(p.second); return; } break;
	}
	if (e.valkind == 2) o.push_back("f");
	if (e.valkind == 1 && s.draw(2)) o.push_back(s.draw(2) ? "y" : "x");
	else o.push_back(std::to_string(s.draw(10)));
}
static SV gen_tokens(Src &s, const Expr &e) {
	SV t;
	gen_sent(s, e, 1 + s.draw(4), t);
	if (t.size() > 40) t.resize(40);
	static const SV all = {"+", "*", "-", "/", "!", "^", "++", "(", ")", "<", ">", "1", "x", "100", "f", "&", "==", "~", ""};
	for (size_t k = s.weighted({3, 2, 1}); k; k--) {
		size_t i = s.draw(t.size() + 1);
		switch (s.draw(3)) {
		case 0: if (i < t.size()) t[i] = s.pick(all); break;
		case 1: if (i < t.size()) t.erase(t.begin() + i); break;
		default: t.insert(t.begin() + i, s.pick(all));
		}
	}
	return t;
}

// long chains, deep parentheses, runs of operators
static void gen_big(Src &s, const Expr &e, SV &o, size_t room, int depth) {
	static const std::vector<size_t> K = {1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257};
	auto val = [&]() { if (e.valkind == 2) o.push_back("f"); o.push_back(std::to_string(s.draw(10))); };
	size_t k = std::min(s.pick(K), room);
	switch (depth <= 0 ? 0 : s.draw(5)) {
	case 1: if (e.pre.size()) { for (size_t i = 0; i < k; i++) o.push_back(s.pick(s.pick(e.pre))); gen_big(s, e, o, room - k, depth - 1); return; } break;
	case 2: if (e.post.size()) { gen_big(s, e, o, room - k, depth - 1); for (size_t i = 0; i < k; i++) o.push_back(s.pick(s.pick(e.post))); return; } break;
	case 3: if (e.paren.size()) {
		auto p = s.pick(e.paren);
		k = std::min<size_t>(k, 65);
		for (size_t i = 0; i < k; i++) o.push_back(p.first);
		gen_big(s, e, o, room - k, depth - 1);
		for (size_t i = 0; i < k; i++) o.push_back(p.second);
		return;
	}
	break;
	case 4: if (e.bin.size()) {
		gen_big(s, e, o, room / 2, depth - 1);
		o.push_back(s.pick(s.pick(e.bin)));
		gen_big(s, e, o, room / 2, depth - 1);
		return;
	}
	break;
	}
	val();
	if (e.bin.size()) for (size_t i = 0; i < k; i++) { o.push_back(s.pick(s.pick(e.bin))); val(); }
}

static void add_op(Src &s, Expr &e, struct ec_node *n, Ctx &c) {
	int r = -1;
	switch (s.weighted({3, 2, 2, 2, 2})) {
	case 0: e.bin.push_back(gen_op(s, BIN)); c.d << " bin" << ec::show(e.bin.back()); r = ec_node_expr_add_bin_op(n, op_node(e.bin.back())); break;
	case 1: e.pre.push_back(gen_op(s, PRE)); c.d << " pre" << ec::show(e.pre.back()); r = ec_node_expr_add_pre_op(n, op_node(e.pre.back())); break;
	case 2: e.post.push_back(gen_op(s, POST)); c.d << " post" << ec::show(e.post.back()); r = ec_node_expr_add_post_op(n, op_node(e.post.back())); break;
	case 3: {
		static const std::vector<std::pair<std::string, std::string>> pp = {{"(", ")"}, {"<", ">"}, {"(", "]"}};
		auto p = s.pick(pp);
		e.paren.push_back(p);
		c.d << " paren " << p.first << p.second;
		r = ec_node_expr_add_parenthesis(n, ec_node_str(EC_NO_ID, p.first.c_str()), ec_node_str(EC_NO_ID, p.second.c_str()));
		break;
	}
	case 4: e.valkind = s.draw(3); e.has_val = true; c.d << " val" << e.valkind; r = ec_node_expr_set_val_node(n, val_node(e.valkind)); break;
	}
	CHECK(c, r == 0, "configuration refused, errno=" << errno);
}

// hand-written equivalent of the documented grammar, for completion
static struct ec_node *equivalent(const Expr &e) {
	struct ec_node *ref = ec_node("seq", EC_NO_ID), *prim = ec_node("or", EC_NO_ID), *pre = ec_node("or", EC_NO_ID), *post = ec_node("or", EC_NO_ID);
	for (auto &v : e.pre) ec_node_or_add(pre, op_node(v));
	for (auto &v : e.post) ec_node_or_add(post, op_node(v));
	ec_node_or_add(prim, val_node(e.valkind));
	ec_node_or_add(prim, EC_NODE_SEQ(EC_NO_ID, pre, ec_node_clone(ref)));
	for (auto &p : e.paren)
		ec_node_or_add(prim, EC_NODE_SEQ(EC_NO_ID, ec_node_str(EC_NO_ID, p.first.c_str()), ec_node_clone(ref), ec_node_str(EC_NO_ID, p.second.c_str())));
	struct ec_node *t = EC_NODE_SEQ(EC_NO_ID, prim, ec_node_many(EC_NO_ID, post, 0, 0));
	for (auto &v : e.bin)
		t = EC_NODE_SEQ(EC_NO_ID, ec_node_clone(t), ec_node_many(EC_NO_ID, EC_NODE_SEQ(EC_NO_ID, op_node(v), t), 0, 0));
	ec_node_seq_add(ref, ec_node_clone(t));
	ec_node_free(ref);
	return t;
}
static std::set<std::string> comp(struct ec_node *n, const SV &in, Ctx &c) {
	struct ec_strvec *v = ec::mk(in);
	struct ec_comp *cp = ec_complete_strvec(n, v);
	CHECK(c, cp, "completion failed, errno=" << errno);
	std::set<std::string> o;
	struct ec_comp_item *it;
	EC_COMP_FOREACH(it, cp, EC_COMP_ALL) {
		const char *s = ec_comp_item_get_str(it), *k = ec_comp_item_get_completion(it);
		o.insert(std::to_string(ec_comp_item_get_type(it)) + " " + (s ? s : "-") + " " + (k ? k : "-"));
	}
	ec_comp_free(cp);
	ec_strvec_free(v);
	return o;
}

static void expr_case(Ctx &c, bool big) {
	uint64_t mark = ec::alloc_mark();
	Expr e;
	struct ec_node *n = ec_node("expr", "e");
	CHECK(c, n, "expr");
	c.d << "expr";
	if (!c.s.chance(1, 4)) { e.valkind = c.s.draw(3); e.has_val = true; c.d << " val" << e.valkind; CHECK(c, !ec_node_expr_set_val_node(n, val_node(e.valkind)), "val"); }
	for (size_t k = c.s.draw(6); k; k--) add_op(c.s, e, n, c);
	bool wrap = c.s.chance(1, 4);
	for (size_t round = 0, nr = 1 + c.s.draw(3); round < nr; round++) {
		if (round) for (size_t k = c.s.draw(3); k; k--) add_op(c.s, e, n, c);
		SV t;
		if (big) gen_big(c.s, e, t, 300, 3);
		else t = gen_tokens(c.s, e);
		c.d << "\nparse " << ec::show(t);
		struct ec_strvec *v = ec::mk(t);
		if (!e.complete()) {
			errno = 0;
			struct ec_pnode *p = ec_parse_strvec(n, v);
			CHECK(c, !p && errno == ENOENT, "parsing with an incomplete configuration: " << (p ? "accepted" : "errno=") << errno);
			struct ec_comp *cp = ec_complete_strvec(n, v);
			CHECK(c, !cp, "completion with an incomplete configuration");
			ec_strvec_free(v);
			c.label("incomplete configuration");
			continue;
		}
		RefE r(e, t);
		size_t used = 0;
		std::string want;
		bool ok = r.level(e.bin.size(), used, want);
		// through another node or directly
		struct ec_node *root = wrap ? EC_NODE_SEQ("top", ec_node_clone(n), ec_node_many(EC_NO_ID, ec_node_any(EC_NO_ID, nullptr), 0, 0)) : ec_node_clone(n);
		CHECK(c, root, "wrapping");
		struct ec_pnode *p = ec_parse_strvec(root, v);
		CHECK(c, p, "parse failed, errno=" << errno);
		CHECK(c, ec_pnode_matches(p) == ok, "matches=" << ec_pnode_matches(p) << " expected " << ok << " " << want);
		if (ok) {
			const struct ec_pnode *ep = ec_pnode_find(p, "e");
			CHECK(c, ep && ec_pnode_len(ep) == used, "consumed " << ec_pnode_len(ep) << " expected " << used);
			Run run;
			void *res = nullptr;
			int rc = ec_node_expr_eval(&res, n, (struct ec_pnode *)ep, &ops, &run);
			CHECK(c, rc == 0, "evaluation failed");
			CHECK(c, run.err.empty(), run.err);
			std::string got = run.take(res);
			CHECK(c, got == want, "evaluated as " << got << " expected " << want);
			CHECK(c, run.live.empty(), run.live.size() << " values leaked");
			int calls = run.n;
			if (calls >= 3) c.nontrivial = true;
			c.label(calls >= 6 ? "6 callbacks or more" : "evaluated");
			if (calls > 64) c.label("more than 64 callbacks");
			std::vector<int> at;
			for (int f = 0; f < calls && f < (big ? 2 : 12); f++) at.push_back(f);
			if (big && calls > 2) { at.push_back(calls - 1); at.push_back(2 + c.s.draw(calls - 2)); }
			for (int f : at) {
				Run fr;
				fr.fail_at = f;
				res = nullptr;
				rc = ec_node_expr_eval(&res, n, (struct ec_pnode *)ep, &ops, &fr);
				CHECK(c, rc < 0, "evaluation succeeded though callback " << f << " failed");
				CHECK(c, fr.err.empty(), fr.err << " (callback " << f << " fails)");
				CHECK(c, fr.live.empty(), fr.live.size() << " values not freed when callback " << f << " fails");
				CHECK(c, fr.n == f + 1, "callbacks called after a failure");
			}
		} else {
			void *res;
			Run run;
			errno = 0;
			CHECK(c, ec_node_expr_eval(&res, n, p, &ops, &run) < 0 && errno == EINVAL && run.n == 0, "evaluation of a parse that does not match");
			c.label("no match");
		}
		ec_pnode_free(p);
		ec_strvec_free(v);
		ec_node_free(root);
		if (t.size() <= 12 && c.s.chance(1, 4)) {
			SV ct(t.begin(), t.begin() + c.s.draw(t.size() + 1));
			ct.push_back(c.s.draw(2) || t.empty() ? "" : t[0].substr(0, 1));
			c.d << "\ncomplete " << ec::show(ct);
			struct ec_node *eq = equivalent(e);
			CHECK(c, eq, "equivalent");
			auto a = comp(n, ct, c), b = comp(eq, ct, c);
			ec_node_free(eq);
			std::string d;
			for (auto &x : a) if (!b.count(x)) d += " +" + x;
			for (auto &x : b) if (!a.count(x)) d += " -" + x;
			CHECK(c, d.empty(), "completion differs from the documented grammar:" << d);
			c.label("completed");
		}
	}
	ec_node_free(n);
	std::string l = ec::leaks(mark);
	CHECK(c, l.empty(), "leak " << l);
}

int main(int argc, char **argv) {
	Suite s;
	s.id = "C08";
	s.rule = "an expression evaluated with 3 callbacks or more; every callback is then made to fail in turn";
	s.init = ec::lib_init;
	s.assumptions = {"each operator has a node of its own", "the first binary operator added binds the tightest, a prefix operator applies to the whole expression that follows, operators of the same level apply from left to right"};
	s.targets.push_back({"expr", [](Ctx &c) { expr_case(c, false); }, 60000, 1500000});
	s.targets.push_back({"big", [](Ctx &c) { expr_case(c, true); }, 3000, 60000});
	s.targets.back().hang_s = 60;
	return run_main(argc, argv, s);
}
