// Allocation failures: every operation is replayed with its n-th allocation
// failing (alone, or with all the following ones).
#include "model.hpp"
#include <algorithm>
using namespace pbt;
using namespace model;

struct Out {
	bool failed = false;   // an API call reported an error
	int err = 0;           // errno at that time
	std::string res;       // observable result of the operation, when not failed
};
static void fault_off() { ec::alloc().fail_from = ec::alloc().fail_to = 0; }

// `run` does the operation and releases what it made.
static void sweep(Ctx &c, const char *what, const std::function<Out()> &run, size_t max_points = 24, bool result_may_degrade = false) {
	ec::Alloc &a = ec::alloc();
	fault_off();
	uint64_t mark = ec::alloc_mark();
	uint64_t n0 = a.n_alloc;
	Out ref = run();
	CHECK(c, !ref.failed, what << " fails without any allocation failure, errno=" << ref.err);
	uint64_t total = a.n_alloc - n0;
	std::string l = ec::leaks(mark);
	CHECK(c, l.empty(), what << ": leak " << l);
	if (total > 20000) max_points = total > 200000 ? 3 : 8; // bounds the work
	std::vector<uint64_t> pts;
	if (total <= max_points) for (uint64_t i = 1; i <= total; i++) pts.push_back(i);
	else for (size_t i = 0; i < max_points; i++) pts.push_back(1 + c.s.draw(total));
	bool sticky = c.s.draw(2);
	for (uint64_t p : pts) {
		c.label("faults injected");
		uint64_t f0 = a.n_failed;
		a.fail_from = a.n_alloc + p;
		a.fail_to = sticky ? UINT64_MAX : a.fail_from;
		errno = 0;
		std::string where = std::string(what) + " with allocation " + std::to_string(p) + "/" + std::to_string(total) + (sticky ? " and the next ones" : "") + " failing";
		c.d << "  [" << where << "]" << std::flush;
		Out o = run();
		fault_off();
		CHECK(c, a.n_failed > f0 || true, "");
		CHECK(c, a.error.empty(), where << ": " << a.error);
		if (o.failed) {
			c.label("reported");
			CHECK(c, a.n_failed > f0, where << ": fails though no allocation failed");
			CHECK(c, o.err > 0, where << ": errno is " << o.err);
		} else if (a.n_failed > f0) {
			c.label("absorbed");
			if (!result_may_degrade) CHECK(c, o.res == ref.res, where << ": reported as a success with another result\n  got      " << o.res << "\n  expected " << ref.res);
		}
		l = ec::leaks(mark);
		CHECK(c, l.empty(), where << ": leak " << l);
		Out again = run();
		CHECK(c, !again.failed && again.res == ref.res, where << ": the same operation does not give the same result afterwards (errno " << again.err << ")\n  got      " << again.res << "\n  expected " << ref.res);
	}
	c.nontrivial = c.nontrivial || total >= 3;
	c.d << "\n";
}

static GenOpt opts() {
	GenOpt o = GenOpt::core();
	o.depth = 3;
	o.w[SHLEX] = 3; o.w[RELEX] = 3; o.w[DYN] = 3; o.w[COND] = 3;
	return o;
}

static std::string parse_str(struct ec_node *n, const Toks &t, const Names &nm, Out *o = nullptr) {
	struct ec_strvec *v = to_strvec(t);
	struct ec_pnode *p = ec_parse_strvec(n, v);
	std::string s = p ? render(p, nm) : "error";
	ec_pnode_free(p);
	ec_strvec_free(v);
	return s;
}

static void build_case(Ctx &c) {
	GenOpt o = opts();
	Grammar g;
	gen_grammar(c.s, o, g);
	Toks in = gen_input(c.s, g, o);
	c.d << g.text() << "\n" << show(in) << "\n";
	{ Ref ref; ref.limit = 3000; ref.parse_root(g.root, in); } // bounds the work
	sweep(c, "grammar construction", [&] {
		Out r;
		std::string err;
		struct ec_node *n = build(g, err);
		if (!n) { r.failed = true; r.err = errno; return r; }
		fault_off();
		r.res = parse_str(n, in, names(g));
		ec_node_free(n);
		return r;
	}, 30);
}

static void run_case_(Ctx &c, bool comp) {
	uint64_t mark = ec::alloc_mark();
	GenOpt o = opts();
	Grammar g;
	gen_grammar(c.s, o, g);
	Toks in = gen_input(c.s, g, o);
	if (comp) complete_cut(c.s, in, o);
	c.d << g.text() << "\n" << show(in) << "\n";
	Ref ref; // bounds the work
	ref.limit = 3000;
	if (comp) ref.complete_root(g.root, in); else ref.parse_root(g.root, in);
	if (ref.cond_error) throw Discard();
	std::string err;
	struct ec_node *n = build(g, err);
	CHECK(c, n, err);
	Names nm = names(g);
	struct ec_strvec *v = to_strvec(in);
	if (!comp) sweep(c, "parsing", [&] {
		Out r;
		errno = 0;
		struct ec_pnode *p = ec_parse_strvec(n, v);
		if (!p) { r.failed = true; r.err = errno; return r; }
		fault_off();
		r.res = render(p, nm);
		ec_pnode_free(p);
		return r;
	});
	else sweep(c, "completion", [&] {
		Out r;
		errno = 0;
		struct ec_comp *p = ec_complete_strvec(n, v);
		if (!p) { r.failed = true; r.err = errno; return r; }
		fault_off();
		for (auto &i : actual_items(p, nm)) r.res += i.text() + "\n";
		ec_comp_free(p);
		return r;
	});
	ec_strvec_free(v);
	ec_node_free(n);
	std::string l = ec::leaks(mark);
	CHECK(c, l.empty(), "leak " << l);
}

// the same on a line, below a shell lexer
static void line_case(Ctx &c) {
	uint64_t mark = ec::alloc_mark();
	GenOpt o = opts();
	o.depth = 2;
	o.words = {"a", "ab", "abc", "b", "x y", "foo"};
	o.w[SHLEX] = 0;
	Grammar g;
	gen_grammar(c.s, o, g);
	Toks in = gen_input(c.s, g, o);
	bool comp = c.s.draw(3);
	if (comp) complete_cut(c.s, in, o);
	if (!in.empty() && in.back().s.find_first_of("'\"") != std::string::npos) in.pop_back();
	std::string line;
	for (size_t i = 0; i < in.size(); i++) {
		if (i) line += " ";
		if (i + 1 == in.size() && comp && c.s.draw(3)) line += (c.s.draw(2) ? "'" : "\"") + in[i].s; // left open
		else line += sh_quote(c.s, in[i].s);
	}
	ShLex l = sh_lex(line);
	Toks t;
	for (auto &x : l.tokens) t.push_back({x, ""});
	if (comp && l.trail && !l.last_open) t.push_back({"", ""});
	c.d << g.text() << "\n" << q(line) << "\n";
	Ref ref;
	ref.limit = 2000;
	if (comp) ref.complete_root(g.root, t); else ref.parse_root(g.root, t);
	if (ref.cond_error) throw Discard();
	std::string err;
	struct ec_node *n = build(g, err);
	CHECK(c, n, err);
	Names nm = names(g);
	n = ec_node_sh_lex("line", n);
	CHECK(c, n, "sh_lex");
	nm.uid[n] = 1000;
	if (!comp) sweep(c, "ec_parse", [&] {
		Out r;
		errno = 0;
		struct ec_pnode *p = ec_parse(n, line.c_str());
		if (!p) { r.failed = true; r.err = errno; return r; }
		fault_off();
		r.res = render(p, nm);
		ec_pnode_free(p);
		return r;
	}, 60);
	else sweep(c, "ec_complete", [&] {
		Out r;
		errno = 0;
		struct ec_comp *p = ec_complete(n, line.c_str());
		if (!p) { r.failed = true; r.err = errno; return r; }
		fault_off();
		for (auto &i : actual_items(p, nm)) r.res += i.text() + "\n";
		ec_comp_free(p);
		return r;
	}, 60);
	if (l.quote) c.label("open quote");
	ec_node_free(n);
	std::string k = ec::leaks(mark);
	CHECK(c, k.empty(), "leak " << k);
}

// tree and list operations
static void tree_case(Ctx &c) {
	GenOpt o = opts();
	Grammar g;
	gen_grammar(c.s, o, g);
	Toks in = gen_input(c.s, g, o);
	c.d << g.text() << "\n" << show(in) << "\n";
	{ Ref ref; ref.limit = 10000; ref.parse_root(g.root, in); }
	std::string err;
	struct ec_node *n = build(g, err);
	CHECK(c, n, err);
	Names nm = names(g);
	struct ec_strvec *v = to_strvec(in);
	struct ec_pnode *p = ec_parse_strvec(n, v);
	if (!p) { ec_strvec_free(v); ec_node_free(n); throw Discard(); }
	std::vector<struct ec_pnode *> all;
	for (struct ec_pnode *it = p; it; it = __ec_pnode_iter_next(p, it, true)) all.push_back(it);
	struct ec_pnode *at = c.s.pick(all);
	sweep(c, "ec_pnode_dup", [&] {
		Out r;
		errno = 0;
		struct ec_pnode *d = ec_pnode_dup(at);
		if (!d) { r.failed = true; r.err = errno; return r; }
		fault_off();
		struct ec_pnode *root = ec_pnode_get_root(d);
		r.res = render(root, nm, d);
		ec_pnode_free(root);
		return r;
	});
	sweep(c, "ec_node_dump", [&] {
		Out r;
		char *b = nullptr; size_t len = 0;
		FILE *f = open_memstream(&b, &len);
		ec_node_dump(f, n);
		ec_pnode_dump(f, p);
		fclose(f);
		free(b);
		return r;
	}, 8, true);
	sweep(c, "ec_node_find", [&] {
		Out r;
		for (auto &id : o.ids) {
			errno = 0;
			struct ec_node *f = ec_node_find(n, id.c_str());
			if (!f && errno == ENOMEM) { r.failed = true; r.err = errno; return r; }
			r.res += f ? nm.uid.count(f) ? "u" + std::to_string(nm.uid.at(f)) : "?" : "-";
		}
		return r;
	}, 8);
	ec_pnode_free(p);
	ec_strvec_free(v);
	ec_node_free(n);
}

static void strvec_case(Ctx &c) {
	std::string line;
	static const std::vector<std::string> P = {"a", " ", "bc", "\"", "'", "\\", "#", "  ", "\\ ", "\"x y\"", "'z'"};
	for (size_t i = 0; c.s.more(i, 0, 14, 7, 8); i++) line += c.s.pick(P);
	unsigned flags = c.s.draw(4);
	std::vector<std::string> words;
	while (c.s.more(words.size(), 0, 6)) words.push_back(c.s.pick(P));
	c.d << "line " << q(line) << " flags " << flags << " words " << ec::show(words) << "\n";
	auto show = [](struct ec_strvec *v) { std::string s = ec::show(ec::vec(v)); for (size_t i = 0; i < ec_strvec_len(v); i++) { auto *d = ec_strvec_get_attrs(v, i); s += d && ec_dict_has_key(d, "k") ? "k" : "-"; } return s; };
	sh_lex(line);
	sweep(c, "ec_strvec_sh_lex_str", [&] {
		Out r;
		errno = 0;
		char uq = 0;
		struct ec_strvec *v = ec_strvec_sh_lex_str(line.c_str(), (ec_strvec_flag_t)flags, &uq);
		if (!v && errno == EBADMSG) { r.res = "unclosed"; return r; }
		if (!v) { r.failed = true; r.err = errno; return r; }
		fault_off();
		r.res = show(v);
		ec_strvec_free(v);
		return r;
	}, 40);
	struct ec_strvec *v = ec::mk(words);
	if (!words.empty()) { struct ec_dict *d = ec_dict(); ec_dict_set(d, "k", (void *)"v", nullptr); CHECK(c, ec_strvec_set_attrs(v, 0, d) == 0, "attrs"); }
	std::string before = show(v);
	size_t off = c.s.draw(words.size() + 1), len = words.empty() ? 0 : c.s.draw(words.size() - off + 1);
	size_t idx = c.s.draw(words.size() + 1);
	sweep(c, "strvec operations", [&] {
		Out r;
		auto bad = [&] { r.failed = true; r.err = errno; };
		errno = 0;
		struct ec_strvec *d = ec_strvec_ndup(v, off, len), *e = nullptr;
		if (!d) { bad(); return r; }
		e = ec_strvec_dup(v);
		if (!e) { bad(); ec_strvec_free(d); return r; }
		std::string s0 = ec::show(ec::vec(e));
		if (ec_strvec_add(e, "added") < 0) { bad(); if (ec::show(ec::vec(e)) != s0) r.err = -1; }
		if (!r.failed && idx < ec_strvec_len(e) && ec_strvec_set(e, idx, "set") < 0) { bad(); auto w = words; w.push_back("added"); if (ec::show(ec::vec(e)) != ec::show(w)) r.err = -2; }
		if (!r.failed) {
			struct ec_dict *at = ec_dict();
			if (!at) bad();
			else if (ec_dict_set(at, "k", (void *)"v", nullptr) < 0) { bad(); ec_dict_free(at); }
			else if (ec_strvec_set_attrs(e, ec_strvec_len(e) - 1, at) < 0) bad();
		}
		if (!r.failed) r.res = show(d) + show(e);
		fault_off();
		ec_strvec_free(d);
		ec_strvec_free(e);
		if (show(v) != before) r.err = -3, r.failed = true;
		return r;
	}, 40);
	ec_strvec_free(v);
}

// ------------------------------------------------------------ configuration
struct Cfg {
	int k = 0; // bool i64 u64 string node list dict
	int64_t i = 0;
	std::string s;
	std::vector<std::pair<std::string, Cfg>> ch;
};
static Cfg gen_cfg(Src &s, int depth) {
	Cfg f;
	f.k = s.weighted(depth ? std::vector<unsigned>{2, 2, 2, 3, 2, 4, 4} : std::vector<unsigned>{1, 1, 1, 1, 1});
	f.i = s.draw(3);
	f.s = std::string(1 + s.draw(3), 'a');
	if (f.k >= 5) while (s.more(f.ch.size(), 0, 4)) f.ch.push_back({"k" + std::to_string(f.ch.size()), gen_cfg(s, depth - 1)});
	return f;
}
static struct ec_config *mk_cfg(const Cfg &f) {
	switch (f.k) {
	case 0: return ec_config_bool(f.i);
	case 1: return ec_config_i64(f.i);
	case 2: return ec_config_u64(f.i);
	case 3: return ec_config_string(f.s.c_str());
	case 4: { struct ec_node *n = ec_node_str("id", f.s.c_str()); return n ? ec_config_node(n) : nullptr; }
	}
	struct ec_config *l = f.k == 5 ? ec_config_list() : ec_config_dict();
	if (!l) return nullptr;
	for (auto &x : f.ch) {
		struct ec_config *e = mk_cfg(x.second);
		// a NULL element is refused
		if (!e) { int k = errno; ec_config_free(l); errno = k; return nullptr; }
		int r = f.k == 5 ? ec_config_list_add(l, e) : ec_config_dict_set(l, x.first.c_str(), e);
		if (r < 0) { int k = errno; ec_config_free(l); errno = k; return nullptr; }
	}
	return l;
}
static void config_case(Ctx &c) {
	Cfg f = gen_cfg(c.s, 3);
	sweep(c, "configuration", [&] {
		Out r;
		errno = 0;
		struct ec_config *g = mk_cfg(f), *d = nullptr;
		if (!g) { r.failed = true; r.err = errno; return r; }
		errno = 0;
		d = ec_config_dup(g);
		if (!d) { r.failed = true; r.err = errno; }
		else { fault_off(); r.res = ec_config_cmp(g, d) == 0 ? "same" : "differs"; }
		ec_config_free(g);
		ec_config_free(d);
		return r;
	}, 40);
}

// constructors taking children: on failure, the children are released
static void ctor_case(Ctx &c) {
	size_t k = c.s.draw(14);
	bool keep = c.s.draw(2);
	size_t parens = c.s.draw(3);
	static const char *T[] = {"EC_NODE_SEQ", "EC_NODE_OR", "EC_NODE_SUBSET", "many", "option", "once", "bypass", "sh_lex", "re_lex", "cond", "EC_NODE_CMD", "str", "any+int", "expr"};
	c.d << "constructor " << T[k] << (keep ? " (children kept)" : "") << "\n";
	static const std::vector<std::string> CMDS = {"foo", "foo (id0|id1),[id2]", "[a] b*", "id0 (x|y z)+", "a,b,c", "(id1 id2)", ""};
	std::string cmd = c.s.pick(CMDS);
	static const std::vector<std::string> CONDS = {"true", "cmp(eq, 1, count(find(root(), a)))", "or(cmp(lt, 1, 2), find(root(), x))", "notfunc", "a("};
	std::string cond = c.s.pick(CONDS);
	bool refuses = (k == 10 && cmd.empty()) || (k == 9 && cond == "a(");
	sweep(c, T[k], [&] {
		Out r;
		struct ec_node *a[3] = {}, *n = nullptr;
		auto bad = [&] { r.failed = true; r.err = errno; };
		for (int i = 0; i < 3; i++) {
			errno = 0;
			a[i] = ec_node_str(("id" + std::to_string(i)).c_str(), "x");
			if (!a[i]) { bad(); for (int j = 0; j < i; j++) ec_node_free(a[j]); return r; }
		}
		if (keep) for (auto *x : a) ec_node_clone(x);
		size_t used = k <= 2 || k == 10 ? 3 : k == 13 ? 3 : k >= 11 ? 0 : 1;
		for (size_t i = used; i < 3; i++) ec_node_free(a[i]);
		errno = 0;
		switch (k) {
		case 0: n = EC_NODE_SEQ("i", a[0], a[1], a[2]); break;
		case 1: n = EC_NODE_OR("i", a[0], a[1], a[2]); break;
		case 2: n = EC_NODE_SUBSET("i", a[0], a[1], a[2]); break;
		case 3: n = ec_node_many("i", a[0], 1, 2); break;
		case 4: n = ec_node_option("i", a[0]); break;
		case 5: n = ec_node_once("i", a[0]); break;
		case 6: n = ec_node_bypass("i", a[0]); break;
		case 7: n = ec_node_sh_lex("i", a[0]); break;
		case 8:
			n = ec_node_re_lex("i", a[0]);
			if (n && (ec_node_re_lex_add(n, "[a-z]+", 1, "at") < 0 || ec_node_re_lex_add(n, " ", 0, nullptr) < 0)) { bad(); ec_node_free(n); n = nullptr; }
			break;
		case 9: n = ec_node_cond("i", cond.c_str(), a[0]); break;
		case 10: n = EC_NODE_CMD("i", cmd.c_str(), a[0], a[1], a[2]); break;
		case 11: n = ec_node_str("i", "foo"); break;
		case 12: {
			n = ec_node_any("i", "at");
			struct ec_node *m = n ? ec_node_int("j", 1, 2, 0) : nullptr, *u = m ? ec_node_uint("j", 1, 2, 0) : nullptr, *e = u ? ec_node_re("r", "a") : nullptr;
			if (!e) { bad(); ec_node_free(n); n = nullptr; }
			ec_node_free(m); ec_node_free(u); ec_node_free(e);
			break;
		}
		default: {
			n = ec_node("expr", "i");
			if (!n) { bad(); for (auto *x : a) ec_node_free(x); break; }
			int x = ec_node_expr_set_val_node(n, a[0]);
			if (x < 0) { bad(); ec_node_free(a[1]); ec_node_free(a[2]); ec_node_free(n); n = nullptr; break; }
			x = ec_node_expr_add_bin_op(n, a[1]);
			if (x < 0) { bad(); ec_node_free(a[2]); ec_node_free(n); n = nullptr; break; }
			x = ec_node_expr_add_pre_op(n, a[2]);
			if (x < 0) { bad(); ec_node_free(n); n = nullptr; break; }
			for (size_t i = 0; i < parens && n; i++) {
				errno = 0;
				struct ec_node *op = ec_node_str("(", "("), *cl = ec_node_str(")", ")");
				// the pair is consumed, even when incomplete
				if (ec_node_expr_add_parenthesis(n, op, cl) < 0) { bad(); if (!op || !cl) r.err = ENOMEM; ec_node_free(n); n = nullptr; }
			}
		}
		}
		if (!n && !r.failed) {
			if (refuses && errno != ENOMEM) r.res = "refused"; else bad();
		}
		fault_off();
		if (n) {
			char *d = ec_node_desc(n);
			r.res = std::string("created ") + ec_node_get_type_name(n) + ec_node_id(n) + (d ? d : "");
			ec_free(d);
			ec_node_free(n);
		}
		if (keep) for (auto *x : a) {
			if (std::string(ec_node_get_type_name(x)) != "str") r.failed = true, r.err = -1;
			ec_node_free(x);
		}
		return r;
	}, 40);
}

// Operations that change an object: on failure the object is as it was.
struct Change {
	std::function<void()> setup;
	std::function<bool()> op;          // true: success
	std::function<std::string()> look; // what can be observed of the object
	std::function<void()> done;
};
static void sweep(Ctx &c, const std::string &what, const Change &x) {
	ec::Alloc &a = ec::alloc();
	fault_off();
	uint64_t mark = ec::alloc_mark();
	x.setup();
	std::string before = x.look();
	uint64_t n0 = a.n_alloc;
	errno = 0;
	CHECK(c, x.op(), what << " fails without any allocation failure, errno=" << errno);
	uint64_t total = a.n_alloc - n0;
	std::string after = x.look();
	x.done();
	std::string l = ec::leaks(mark);
	CHECK(c, l.empty(), what << ": leak " << l);
	bool sticky = c.s.draw(2);
	for (uint64_t p = 1; p <= total && p <= 60; p++) {
		x.setup();
		CHECK(c, x.look() == before, what << ": not reproducible");
		uint64_t f0 = a.n_failed;
		a.fail_from = a.n_alloc + p;
		a.fail_to = sticky ? UINT64_MAX : a.fail_from;
		std::string where = what + " with allocation " + std::to_string(p) + "/" + std::to_string(total) + (sticky ? " and the next ones" : "") + " failing";
		c.d << "  [" << where << "]" << std::flush;
		errno = 0;
		bool ok = x.op();
		int e = errno;
		fault_off();
		CHECK(c, a.error.empty(), where << ": " << a.error);
		bool hit = a.n_failed > f0;
		if (hit) c.label(ok ? "absorbed" : "reported");
		if (!ok) CHECK(c, e > 0 && a.n_failed > f0, where << ": errno is " << e);
		std::string now = x.look();
		CHECK(c, now == (ok ? after : before), where << ": " << (ok ? "reported as a success with another result" : "fails but changes the object") << "\n  got      " << now << "\n  expected " << (ok ? after : before));
		if (!ok) { // again, with memory
			errno = 0;
			bool lost = !x.op();
			// (what the operation consumes is gone after a failure: op() makes it anew)
			CHECK(c, !lost && x.look() == after, where << ": the same operation does not give the same result afterwards, errno=" << errno);
		}
		x.done();
		l = ec::leaks(mark);
		CHECK(c, l.empty(), where << ": leak " << l);
		if (!hit) break; // beyond its last allocation
	}
	if (total) c.nontrivial = true;
	c.d << "\n";
}

static struct ec_config *mk1(const char *key, struct ec_config *v) {
	struct ec_config *d = ec_config_dict();
	ec_config_dict_set(d, key, v);
	return d;
}
static struct ec_config *mklist(struct ec_node *n) {
	struct ec_config *l = ec_config_list();
	ec_config_list_add(l, ec_config_node(n));
	return l;
}
// run f without failures
template <class F> static auto safe(F f) {
	ec::Alloc &a = ec::alloc();
	uint64_t from = a.fail_from, to = a.fail_to, n0 = a.n_alloc;
	fault_off();
	auto r = f();
	if (from) { a.fail_from = from + (a.n_alloc - n0); a.fail_to = to == UINT64_MAX ? to : to + (a.n_alloc - n0); }
	return r;
}

static void helper_case(Ctx &c) {
	GenOpt o = opts();
	Grammar g;
	gen_grammar(c.s, o, g);
	Toks in = gen_input(c.s, g, o);
	std::vector<G *> can;
	for (G *n : g.nodes) switch (n->k) { case SEQ: case OR: case SUBSET: case MANY: case OPTION: case ONCE: case BYPASS: case STR: case RE: case RELEX: case INT: case ANY: can.push_back(n); default:; }
	if (can.empty()) throw Discard();
	G *at = c.s.pick(can);
	bool whole = c.s.draw(3) == 0 || at->k == INT || at->k == ANY;
	if (at->k == SUBSET) whole = false; // not configurable so
	// through the configuration
	std::string word = c.s.pick(o.words);
	c.d << g.text() << "\n" << show(in) << "\nchange of u" << at->uid << " (" << kind_name[at->k] << ")" << (whole ? " by its configuration" : "") << " with " << q(word) << "\n";
	Ref before; // bounds the work, before and after the change
	before.limit = 4000;
	before.parse_root(g.root, in);
	if (before.cond_error) throw Discard();
	{
		G save = *at;
		G *k = g.a.make(STR);
		k->str = word;
		switch (at->k) {
		case SEQ: case OR: case SUBSET: if (whole) at->ch = {k}; else at->ch.push_back(k); break;
		case MANY: at->ch = {k}; at->min = 1; at->max = 2; break;
		case OPTION: case ONCE: case BYPASS: at->ch = {k}; break;
		case STR: at->str = word; break;
		default: break; // lexers, regexps: no new recursion
		}
		Ref after;
		after.limit = 4000;
		try { after.parse_root(g.root, in); } catch (Discard &) { *at = save; throw; }
		*at = save;
		if (after.cond_error) throw Discard();
	}
	struct ec_node *root = nullptr;
	Names nm;
	Change x;
	x.setup = [&] { std::string err; root = build(g, err); CHECK(c, root, err); nm = names(g); };
	x.look = [&] {
		char *d = ec_node_desc(at->node);
		std::string r = parse_str(root, in, nm) + " children " + std::to_string(ec_node_get_children_count(at->node)) + " desc " + d + " config ";
		ec_free(d);
		char *b = nullptr; size_t len = 0;
		FILE *f = open_memstream(&b, &len);
		if (ec_node_get_config(at->node)) ec_config_dump(f, ec_node_get_config(at->node));
		fclose(f);
		std::string t = b;
		free(b);
		size_t p; // addresses of nodes change
		while ((p = t.find("0x")) != std::string::npos) { size_t e = p + 2; while (e < t.size() && isxdigit((unsigned char)t[e])) e++; t.replace(p, e - p, "PTR"); }
		return r + t;
	};
	x.done = [&] { ec_node_free(root); };
	x.op = [&] {
		struct ec_node *n = at->node;
		if (at->k == STR && !whole) return ec_node_str_set_str(n, word.c_str()) == 0;
		if (at->k == RE && !whole) return ec_node_re_set_regexp(n, "a|b+") == 0;
		if (at->k == RELEX && !whole) return ec_node_re_lex_add(n, "z+", 1, "zz") == 0;
		struct ec_node *k = safe([&] { return ec_node_str("new", word.c_str()); });
		if (!whole) switch (at->k) {
		case SEQ: return ec_node_seq_add(n, k) == 0;
		case OR: return ec_node_or_add(n, k) == 0;
		case SUBSET: return ec_node_subset_add(n, k) == 0;
		case MANY: return ec_node_many_set_params(n, k, 1, 2) == 0;
		case OPTION: return ec_node_option_set_child(n, k) == 0;
		case ONCE: return ec_node_once_set_child(n, k) == 0;
		case BYPASS: return ec_node_bypass_set_child(n, k) == 0;
		default: break;
		}
		struct ec_config *f = safe([&]() -> struct ec_config * {
			switch (at->k) {
			case SEQ: case OR: case SUBSET: return mk1("children", mklist(k));
			case STR: ec_node_free(k); return mk1("string", ec_config_string(word.c_str()));
			case RE: ec_node_free(k); return mk1("pattern", ec_config_string("a|b+"));
			case INT: { ec_node_free(k); struct ec_config *d = mk1("min", ec_config_i64(-3)); ec_config_dict_set(d, "max", ec_config_i64(3)); ec_config_dict_set(d, "base", ec_config_u64(16)); return d; }
			case ANY: ec_node_free(k); return mk1("attr", ec_config_string("zz"));
			case MANY: { struct ec_config *d = mk1("child", ec_config_node(k)); ec_config_dict_set(d, "min", ec_config_u64(1)); ec_config_dict_set(d, "max", ec_config_u64(2)); return d; }
			case RELEX: {
				struct ec_config *d = mk1("child", ec_config_node(k)), *l = ec_config_list();
				for (const char *t : {"[a-z]+", " +", "."}) {
					struct ec_config *e = mk1("pattern", ec_config_string(t));
					ec_config_dict_set(e, "keep", ec_config_bool(*t != ' '));
					if (*t == '.') ec_config_dict_set(e, "attr", ec_config_string("zz"));
					ec_config_list_add(l, e);
				}
				ec_config_dict_set(d, "patterns", l);
				return d;
			}
			default: return mk1("child", ec_config_node(k));
			}
		});
		return ec_node_set_config(n, f) == 0;
	};
	sweep(c, whole ? "set_config" : "helper", x);
	c.label(kind_name[at->k]);
}

// completion lists
static void comp_case(Ctx &c) {
	GenOpt o = opts();
	Grammar g;
	gen_grammar(c.s, o, g);
	Toks in = gen_input(c.s, g, o);
	complete_cut(c.s, in, o);
	c.d << g.text() << "\n" << show(in) << "\n";
	Ref ref;
	ref.limit = 3000;
	ref.complete_root(g.root, in);
	if (ref.cond_error) throw Discard();
	std::string err;
	struct ec_node *n = build(g, err);
	CHECK(c, n, err);
	Names nm = names(g);
	struct ec_strvec *v = to_strvec(in);
	struct ec_comp *k = nullptr, *from = nullptr;
	size_t op = c.s.draw(4), which = c.s.draw(64);
	struct ec_comp_item *it = nullptr;
	std::string word = std::string(c.s.draw(40), 'w');
	Change x;
	std::vector<struct ec_comp_item *> items;
	x.setup = [&] {
		k = ec_complete_strvec(n, v);
		CHECK(c, k, "completion fails");
		items.clear();
		struct ec_comp_item *i;
		EC_COMP_FOREACH(i, k, (enum ec_comp_type)(EC_COMP_FULL | EC_COMP_PARTIAL)) items.push_back(i);
		it = items.empty() ? nullptr : items[which % items.size()];
	};
	x.look = [&] {
		std::string r;
		for (auto &i : actual_items(k, nm)) r += i.text() + "\n";
		return r + std::to_string(ec_comp_count(k, EC_COMP_ALL));
	};
	x.done = [&] { ec_comp_free(k); k = nullptr; };
	x.op = [&] {
		switch (op) {
		case 0: return ec_comp_item_set_str(it, word.c_str()) == 0;
		case 1: return ec_comp_item_set_display(it, word.c_str()) == 0;
		case 2: return ec_comp_item_set_completion(it, word.c_str()) == 0;
		default: from = safe([&] { return ec_complete_strvec(n, v); }); return ec_comp_merge(k, from) == 0;
		}
	};
	x.setup();
	bool any = it;
	x.done();
	if (any || op == 3) sweep(c, op == 3 ? "ec_comp_merge" : "completion item", x);
	ec_strvec_free(v);
	ec_node_free(n);
}

// configurations: dict_set (a new or an existing key), list_add
static void cfgset_case(Ctx &c) {
	Cfg f = gen_cfg(c.s, 2), e = gen_cfg(c.s, 2);
	f.k = 5 + c.s.draw(2);
	if (f.ch.empty()) while (c.s.more(f.ch.size(), 0, 4)) f.ch.push_back({"k" + std::to_string(f.ch.size()), gen_cfg(c.s, 1)});
	std::string key = "k" + std::to_string(c.s.draw(5));
	c.d << (f.k == 5 ? "list" : "dict") << " of " << f.ch.size() << ", set " << key << "\n";
	struct ec_config *g = nullptr;
	Change x;
	x.setup = [&] { g = mk_cfg(f); };
	x.look = [&] {
		char *b = nullptr; size_t len = 0;
		FILE *fp = open_memstream(&b, &len);
		fprintf(fp, "%zd elements ", (ssize_t)ec_config_count(g));
		if (f.k == 6) for (size_t i = 0; i < 6; i++) { struct ec_config *y = ec_config_dict_get(g, ("k" + std::to_string(i)).c_str()); fprintf(fp, "k%zu: ", i); if (y) ec_config_dump(fp, y); }
		else ec_config_dump(fp, g);
		fclose(fp);
		std::string t = b;
		free(b);
		size_t p;
		while ((p = t.find("0x")) != std::string::npos) { size_t e = p + 2; while (e < t.size() && isxdigit((unsigned char)t[e])) e++; t.replace(p, e - p, "PTR"); }
		return t;
	};
	x.done = [&] { ec_config_free(g); };
	x.op = [&] {
		struct ec_config *y = safe([&] { return mk_cfg(e); });
		return (f.k == 5 ? ec_config_list_add(g, y) : ec_config_dict_set(g, key.c_str(), y)) == 0;
	};
	sweep(c, f.k == 5 ? "ec_config_list_add" : "ec_config_dict_set", x);
}

// vectors
static void vec_case(Ctx &c) {
	size_t n = c.s.draw(20), cap = c.s.draw(4), off = c.s.draw(n + 1), len = c.s.draw(n - off + 1);
	c.d << "vector of " << n << " integers, capacity " << cap << "\n";
	struct ec_vec *v = nullptr;
	Change x;
	struct ec_vec *d = nullptr;
	x.setup = [&] {
		v = ec_vec(sizeof(uint64_t), cap, nullptr, nullptr);
		for (size_t i = 0; i < n; i++) CHECK(c, ec_vec_add_u64(v, i * 7) == 0, "add");
	};
	x.look = [&] {
		std::string r = std::to_string(ec_vec_len(v)) + ":";
		for (size_t i = 0; i < ec_vec_len(v); i++) { uint64_t u = 0; CHECK(c, ec_vec_get(&u, v, i) == 0, "get"); r += " " + std::to_string(u); }
		return r;
	};
	x.done = [&] { ec_vec_free(v); };
	bool dup = c.s.draw(2);
	x.op = [&] {
		if (!dup) return ec_vec_add_u64(v, 99) == 0;
		d = ec_vec_ndup(v, off, len);
		if (!d) return false;
		CHECK(c, ec_vec_len(d) == len, "length of the copy");
		for (size_t i = 0; i < len; i++) { uint64_t u = 0; CHECK(c, ec_vec_get(&u, d, i) == 0 && u == (off + i) * 7, "element of the copy"); }
		ec_vec_free(d);
		return true;
	};
	sweep(c, dup ? "ec_vec_ndup" : "ec_vec_add", x);
	sweep(c, "ec_vec", [&] {
		Out r;
		errno = 0;
		struct ec_vec *w = ec_vec(1 + n, cap, nullptr, nullptr);
		if (!w) { r.failed = true; r.err = errno; return r; }
		ec_vec_free(w);
		return r;
	});
}

int main(int argc, char **argv) {
	Suite s;
	s.id = "C13";
	s.rule = "the operation allocates at least 3 times";
	s.init = ec::lib_init;
	s.assumptions = {"failures of the allocator registered with ec_malloc_register(); the libc's own allocations (regcomp, libyaml, editline) do not fail",
		"diagnostic dumps may be shortened when memory is missing"};
	s.targets.push_back({"build", build_case, 6000, 200000});
	s.targets.push_back({"ctor", ctor_case, 3000, 60000});
	s.targets.push_back({"parse", [](Ctx &c) { run_case_(c, false); }, 8000, 200000});
	s.targets.push_back({"complete", [](Ctx &c) { run_case_(c, true); }, 8000, 200000});
	s.targets.push_back({"line", line_case, 3000, 100000});
	s.targets.push_back({"tree", tree_case, 3000, 100000});
	s.targets.push_back({"strvec", strvec_case, 5000, 100000});
	s.targets.push_back({"config", config_case, 5000, 100000});
	s.targets.push_back({"helper", helper_case, 6000, 200000});
	s.targets.push_back({"complist", comp_case, 4000, 100000});
	s.targets.push_back({"cfgset", cfgset_case, 3000, 60000});
	s.targets.push_back({"vec", vec_case, 1000, 20000});
	return run_main(argc, argv, s);
}
