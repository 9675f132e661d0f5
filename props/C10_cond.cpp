#include "model.hpp"
using namespace pbt;
using namespace model;

// grammars full of conditions, well typed or not
static void parse_case(Ctx &c, bool wild) {
	uint64_t mark = ec::alloc_mark();
	GenOpt o = GenOpt::core();
	o.w[COND] = 14;
	o.cond_wild = wild;
	o.cond_depth = 4;
	o.depth = 4;
	Grammar g;
	gen_grammar(c.s, o, g);
	size_t nc = 0;
	for (G *n : g.nodes) nc += n->k == COND;
	std::vector<Toks> ins;
	while (c.s.more(ins.size(), 1, 4)) ins.push_back(gen_input(c.s, g, o));
	c.d << "grammar " << g.text() << "\n";
	std::vector<std::string> want;
	for (auto &in : ins) {
		Ref r;
		auto t = r.parse_root(g.root, in);
		want.push_back(r.cond_error ? "ERROR" : render(t.get()));
	}
	std::string err;
	struct ec_node *root = build(g, err);
	CHECK(c, root, err);
	Names nm = names(g);
	bool yes = false, no = false;
	for (size_t i = 0; i < ins.size(); i++) {
		c.d << "input " << model::show(ins[i]) << "\n";
		struct ec_strvec *v = to_strvec(ins[i]);
		errno = 0;
		struct ec_pnode *p = ec_parse_strvec(root, v);
		if (want[i] == "ERROR") {
			CHECK(c, !p, "a condition cannot be evaluated, but the parse succeeds: " << render(p, nm));
			CHECK(c, errno, "a condition cannot be evaluated and errno is 0");
			c.label("evaluation error");
		} else {
			CHECK(c, p, "parse failed, errno=" << errno);
			std::string got = render(p, nm);
			CHECK(c, got == want[i], "got\n" << got << "\nexpected\n" << want[i]);
			(ec_pnode_matches(p) ? yes : no) = true;
			if (ec_pnode_matches(p) && nc) c.nontrivial = true;
		}
		ec_pnode_free(p);
		ec_strvec_free(v);
	}
	if (yes) c.label("some match");
	if (no) c.label("some do not match");
	ec_node_free(root);
	std::string l = ec::leaks(mark);
	CHECK(c, l.empty(), "leak " << l);
}

// a chain of tokens with ids, then a condition over what was parsed: the
// condition decides alone
static void word_case(Ctx &c, bool big) {
	uint64_t mark = ec::alloc_mark();
	GenOpt o = GenOpt::core();
	o.cond_wild = true;
	o.cond_depth = 5;
	o.depth = 1;
	std::fill(o.w.begin(), o.w.end(), 0);
	o.w[STR] = 1;
	o.w[COND] = 3;
	Grammar g;
	// seq root: many "i1" of or("i2": a, "i3": b), then cond
	GenOpt oc = o;
	oc.loops = oc.share = false;
	Grammar tmp;
	gen_grammar(c.s, oc, tmp);
	G *cd = nullptr;
	for (G *n : tmp.nodes) if (n->k == COND) { cd = n; break; }
	if (!cd) throw Discard();
	Arena a;
	auto str = [&](const char *s, const char *id) { G *x = a.make(STR); x->str = s; x->id = id; return x; };
	G *root = a.make(SEQ), *many = a.make(MANY), *alt = a.make(OR), *cond = a.make(COND);
	root->id = "i0";
	many->id = "i1";
	many->min = 0;
	many->ch = {alt};
	alt->ch = {str("a", "i2"), str("b", "i3")};
	cond->id = c.s.draw(2) ? "i1" : "";
	cond->cond = cd->cond;
	cond->str = cd->str;
	cond->ch = {str("end", c.s.draw(2) ? "i2" : "")};
	root->ch = {many, cond};
	Toks in;
	if (!big) while (c.s.more(in.size(), 0, 8, 3, 4)) in.push_back({c.s.draw(2) ? "b" : "a", ""});
	else {
		static const std::vector<size_t> sz = {1, 9, 31, 64, 100, 127, 128, 255, 256, 257, 300};
		size_t n = c.s.pick(sz), na = 0;
		unsigned p = 1 + c.s.draw(8);
		for (size_t i = 0; i < n; i++) { bool x = c.s.draw(8) < p; na += x; in.push_back({x ? "a" : "b", ""}); }
		auto f = [](const char *name, std::vector<Cond> args) { Cond x; x.k = Cond::FUNC; x.name = name; x.args = args; return x; };
		auto str_ = [](const std::string &v) { Cond x; x.k = Cond::STR; x.name = v; return x; };
		auto num = [](int64_t v) { Cond x; x.k = Cond::INT; x.i = v; return x; };
		auto rel = [&]() {
			static const char *ops[] = {"eq", "ne", "lt", "gt", "le", "ge"};
			bool a = c.s.draw(2);
			return f("cmp", {str_(ops[c.s.draw(6)]), f("count", {f("find", {f("root", {}), str_(a ? "i2" : "i3")})}), num((int64_t)std::max<int64_t>(0, (int64_t)(a ? na : n - na) + (int64_t)c.s.draw(3) - 1))});
		};
		switch (c.s.draw(4)) {
		case 0: cond->cond = rel(); break;
		case 1: { // many arguments, one of which decides
			Cond x = f(c.s.draw(2) ? "or" : "and", {});
			size_t k = 2 + c.s.pick(sz);
			for (size_t i = 0; i < k; i++) x.args.push_back(num(x.name == "and"));
			x.args[c.s.draw(k)] = c.s.draw(3) ? num(x.name == "or") : rel();
			cond->cond = x;
			break;
		}
		case 2: { // deep
			Cond x = rel();
			for (size_t i = c.s.draw(60); i > 0; i--) x = c.s.draw(3) ? f("bool", {x}) : c.s.draw(2) ? f("and", {num(1), x}) : f("or", {num(0), x});
			cond->cond = x;
			break;
		}
		default: { // large sets, equal or not
			std::string i = c.s.draw(2) ? "i2" : "i3", j = c.s.draw(2) ? i : c.s.draw(2) ? "i2" : "i3";
			cond->cond = f("cmp", {str_(c.s.draw(2) ? "eq" : "ne"), f("find", {f("root", {}), str_(i)}), f("find", {f("find", {f("root", {}), str_("i1")}), str_(j)})});
		}
		}
		cond->str = cond->cond.text(&c.s);
	}
	in.push_back({"end", ""});
	c.d << "cond " << q(cond->str) << " input " << model::show(in);
	Ref r;
	auto t = r.parse_root(root, in);
	struct ec_node *n = build_node(root);
	CHECK(c, n, "cannot build");
	struct ec_strvec *v = to_strvec(in);
	errno = 0;
	struct ec_pnode *p = ec_parse_strvec(n, v);
	if (r.cond_error) { CHECK(c, !p && errno, "evaluation error expected"); c.label("evaluation error"); }
	else {
		CHECK(c, p, "parse failed, errno=" << errno);
		CHECK(c, ec_pnode_matches(p) == t->matched, "condition is " << ec_pnode_matches(p) << " expected " << t->matched);
		c.label(t->matched ? "true" : "false");
		c.nontrivial = cond->cond.k == Cond::FUNC;
	}
	ec_pnode_free(p);
	ec_strvec_free(v);
	ec_node_free(n);
	std::string l = ec::leaks(mark);
	CHECK(c, l.empty(), "leak " << l);
}

// ------------------------------------------------ syntax of the conditions
struct Syn {
	std::string s;
	struct T { int k; };              // 0 ident 1 int 2 ( 3 ) 4 ,
	std::vector<int> t;
	bool lex() {
		auto id0 = [](char c) { return isalpha((unsigned char)c) || c == '_'; };
		for (size_t i = 0; i < s.size();) {
			char c = s[i];
			if (id0(c)) { while (i < s.size() && (id0(s[i]) || isdigit((unsigned char)s[i]) || s[i] == '.')) i++; t.push_back(0); }
			else if (isdigit((unsigned char)c)) { while (i < s.size() && isdigit((unsigned char)s[i])) i++; t.push_back(1); }
			else if (c == '(') { t.push_back(2); i++; }
			else if (c == ')') { t.push_back(3); i++; }
			else if (c == ',') { t.push_back(4); i++; }
			else if (c == ' ' || c == '\t') i++;
			else return false;
		}
		return true;
	}
	bool expr(size_t &i) {
		if (i >= t.size()) return false;
		if (t[i] == 1) { i++; return true; }
		if (t[i] != 0) return false;
		i++;
		if (i >= t.size() || t[i] != 2) return true;
		size_t j = i + 1, k = j;
		if (expr(k)) { j = k; while (j < t.size() && t[j] == 4) { k = j + 1; if (!expr(k)) break; j = k; } }
		if (j >= t.size() || t[j] != 3) return true; // identifier alone, the rest is left
		i = j + 1;
		return true;
	}
	bool valid() { size_t i = 0; return lex() && expr(i) && i == t.size(); }
};
static void syntax_case(Ctx &c) {
	uint64_t mark = ec::alloc_mark();
	static const std::vector<std::string> bits = {"a", "(", ")", ",", "1", " ", "root", "find", ".", "_x", "2b", "-", "\t", "\n", "\"", "."};
	std::string e;
	if (c.s.draw(2)) { size_t n = 0; while (c.s.more(n, 0, 16, 7, 8)) { e += c.s.pick(bits); n++; } }
	else {
		std::function<std::string(int)> ex = [&](int d) -> std::string {
			std::string sp = c.s.chance(1, 6) ? " " : "";
			if (d <= 0 || c.s.draw(3) == 0) return sp + (c.s.draw(2) ? "12" : "abc.d") + sp;
			std::string o = "f" + sp + "(";
			for (size_t k = c.s.draw(4), i = 0; i < k; i++) o += (i ? "," : "") + ex(d - 1);
			return o + ")" + sp;
		};
		e = ex(4);
		if (c.s.draw(2) && !e.empty()) { size_t i = c.s.draw(e.size()); if (c.s.draw(2)) e.erase(i, 1); else e.insert(i, c.s.pick(bits)); }
	}
	if (e.size() > 80) throw Discard();
	Syn y;
	y.s = e;
	bool ok = y.valid();
	c.d << "condition " << q(e) << " expect " << ok;
	errno = 0;
	struct ec_node *n = ec_node_cond("c", e.c_str(), ec_node_str("s", "x"));
	CHECK(c, (n != nullptr) == ok, "condition " << (n ? "accepted" : "refused") << " errno=" << errno);
	if (!ok) CHECK(c, errno == EINVAL, "refused with errno=" << errno);
	c.label(ok ? "accepted" : "refused");
	c.nontrivial = e.size() > 3;
	ec_node_free(n);
	std::string l = ec::leaks(mark);
	CHECK(c, l.empty(), "leak " << l);
}

int main(int argc, char **argv) {
	Suite s;
	s.id = "C10";
	s.rule = "tree/wild: a grammar with a condition matches; word: the condition is a function call; syntax: more than 3 characters";
	s.init = ec::lib_init;
	s.assumptions = {"completion below a condition is not specified (marked XXX in the code) and not checked here"};
	s.targets.push_back({"tree", [](Ctx &c) { parse_case(c, false); }, 60000, 1500000});
	s.targets.push_back({"wild", [](Ctx &c) { parse_case(c, true); }, 60000, 1500000});
	s.targets.push_back({"word", [](Ctx &c) { word_case(c, false); }, 150000, 4000000});
	s.targets.push_back({"big", [](Ctx &c) { word_case(c, true); }, 3000, 100000});
	s.targets.back().hang_s = 60;
	s.targets.push_back({"syntax", syntax_case, 100000, 3000000});
	return run_main(argc, argv, s);
}
