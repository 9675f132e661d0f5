#include "model.hpp"
using namespace pbt;
using namespace model;

static const std::vector<std::string> bad_re = {"(", "[", "a)(", "[a", "a{2,1}", "*(", "(a", "[[:foo:]]", "a{1,2"};

static std::string gen_subject(Src &s, const std::vector<Re> &res, size_t max) {
	std::string o;
	size_t n = 0;
	while (s.more(n, 0, max, 5, 6)) {
		n++;
		if (!res.empty() && s.chance(3, 4)) o += s.pick(res).sample(s);
		else o += "ab1 x\n\xc3"[s.draw(7)];
		if (o.size() > 60) break;
	}
	if (s.chance(1, 6) && !o.empty()) o[s.draw(o.size())] = "ab1 z"[s.draw(5)];
	return o;
}

// a regexp node matches one string iff the whole string is in the language
static void re_case(Ctx &c) {
	uint64_t mark = ec::alloc_mark();
	Re re = gen_re(c.s, 4);
	c.d << "pattern " << q(re.text());
	auto anchored = [&](const Re &r) {
		std::string t = r.text();
		if (!c.s.chance(1, 6)) return t;
		size_t k = c.s.draw(3);
		return std::string(k != 1 ? "^" : "") + "(" + t + ")" + (k != 0 ? "$" : "");
	};
	std::string text = anchored(re);
	if (text != re.text()) c.d << " as " << q(text);
	struct ec_node *n = ec_node_re("r", text.c_str());
	CHECK(c, n, "valid pattern refused, errno=" << errno);
	size_t m = 1 + c.s.draw(4), yes = 0, no = 0;
	for (size_t k = 0; k < m; k++) {
		if (c.s.chance(1, 5)) {
			if (c.s.draw(2)) {
				std::string b = c.s.pick(bad_re);
				int r = ec_node_re_set_regexp(n, b.c_str());
				c.d << "\nset_regexp " << q(b) << " -> " << r;
				CHECK(c, r == -1 && errno == EINVAL, "invalid pattern " << q(b) << " accepted or errno=" << errno);
			} else {
				re = gen_re(c.s, 3);
				text = anchored(re);
				c.d << "\nset_regexp " << q(text);
				CHECK(c, ec_node_re_set_regexp(n, text.c_str()) == 0, "valid pattern refused");
			}
		}
		std::string subj = gen_subject(c.s, {re}, 3);
		std::vector<std::string> in = {subj};
		for (size_t i = c.s.draw(3); i; i--) in.push_back("a");
		bool none = c.s.chance(1, 12);
		if (none) in.clear();
		c.d << "\nparse " << ec::show(in);
		struct ec_strvec *v = ec::mk(in);
		struct ec_pnode *p = ec_parse_strvec(n, v);
		CHECK(c, p, "parse failed");
		bool want = !none && re.full(subj);
		CHECK(c, ec_pnode_matches(p) == want, "matches=" << ec_pnode_matches(p) << " expected " << want);
		if (want) CHECK(c, ec_pnode_len(p) == 1, "consumed " << ec_pnode_len(p));
		(want ? yes : no)++;
		if (want && subj.size() >= 2) c.nontrivial = true;
		ec_pnode_free(p);
		ec_strvec_free(v);
	}
	if (yes && no) c.label("both outcomes");
	ec_node_free(n);
	std::string l = ec::leaks(mark);
	CHECK(c, l.empty(), "leak " << l);
}

struct PT {
	std::string text; bool keep; std::string attr; Re re; bool bol = false, eol = false;
	int longest(const std::string &s) const { return eol ? (re.full(s) ? (int)s.size() : -1) : re.longest(s, 0); }
};

static bool tokenize(const std::vector<PT> &ps, const std::string &s, Toks &out) {
	for (size_t off = 0; off < s.size();) {
		bool ok = false;
		for (auto &p : ps) {
			int l = p.longest(s.substr(off));
			if (l <= 0) continue;
			if (p.keep) out.push_back({s.substr(off, l), p.attr});
			off += l;
			ok = true;
			break;
		}
		if (!ok) return false;
	}
	return true;
}

static void relex_case(Ctx &c) {
	uint64_t mark = ec::alloc_mark();
	std::vector<PT> ps;
	struct ec_node *n = ec_node_re_lex("lex", ec_node_many("m", ec_node_any("w", nullptr), 0, 0));
	if (!n) n = ec_node_re_lex("lex", ec_node_many("m", ec_node_re("w", "(.|\n)*"), 0, 0));
	CHECK(c, n, "re_lex");
	size_t ops = 2 + c.s.draw(8);
	for (size_t k = 0; k < ops; k++) {
		size_t what = k < 2 ? 1 : c.s.weighted({4, 3, 1});
		if (what == 1) {
			PT p;
			p.re = gen_re(c.s, 2 + c.s.draw(2));
			p.text = p.re.text();
			if (c.s.chance(1, 8)) p.bol = true; // always satisfied: the match starts at the current position
			if (c.s.chance(1, 12)) p.eol = true;
			if (p.bol || p.eol) p.text = std::string(p.bol ? "^" : "") + "(" + p.text + ")" + (p.eol ? "$" : "");
			p.keep = !c.s.chance(1, 3);
			if (c.s.chance(1, 3)) p.attr = std::string(1, "xyz"[c.s.draw(3)]);
			c.d << "add " << q(p.text) << " keep=" << p.keep << " attr=" << p.attr << "\n";
			CHECK(c, ec_node_re_lex_add(n, p.text.c_str(), p.keep, p.attr.empty() ? nullptr : p.attr.c_str()) == 0, "add refused, errno=" << errno);
			ps.push_back(p);
		} else if (what == 2) {
			std::string b = c.s.pick(bad_re);
			c.d << "add invalid " << q(b) << "\n";
			int r = ec_node_re_lex_add(n, b.c_str(), 1, c.s.draw(2) ? "bad" : nullptr);
			CHECK(c, r == -1 && errno == EINVAL, "invalid pattern accepted, r=" << r << " errno=" << errno);
		} else {
			std::vector<Re> rs;
			for (auto &p : ps) rs.push_back(p.re);
			std::string subj = gen_subject(c.s, rs, 8);
			std::vector<std::string> in = {subj};
			for (size_t i = c.s.draw(3); i; i--) in.push_back("a");
			bool none = c.s.chance(1, 12);
			if (none) { in.clear(); subj.clear(); }
			c.d << "parse " << ec::show(in) << "\n";
			Toks want;
			bool ok = tokenize(ps, subj, want);
			struct ec_strvec *v = ec::mk(in);
			struct ec_pnode *p = ec_parse_strvec(n, v);
			CHECK(c, p, "parse failed, errno=" << errno);
			CHECK(c, ec_pnode_matches(p) == ok, "matches=" << ec_pnode_matches(p) << " expected " << ok);
			if (ok) {
				CHECK(c, ec_pnode_len(p) == (none ? 0u : 1u), "consumed " << ec_pnode_len(p));
				struct ec_pnode *m = ec_pnode_get_first_child(p);
				CHECK(c, m && !ec_pnode_next(m), "one child expected");
				Toks got = from_strvec(ec_pnode_get_strvec(m)), leaf;
				CHECK(c, got == want, "tokens " << model::show(got) << " expected " << model::show(want));
				for (struct ec_pnode *w = ec_pnode_get_first_child(m); w; w = ec_pnode_next(w)) {
					Toks t = from_strvec(ec_pnode_get_strvec(w));
					CHECK(c, t.size() == 1, "leaf of " << t.size());
					leaf.push_back(t[0]);
				}
				CHECK(c, leaf == want, "leaves " << model::show(leaf) << " expected " << model::show(want));
				bool attr = false, drop = false;
				for (auto &t : want) attr |= !t.attr.empty();
				for (auto &x : ps) drop |= !x.keep;
				if (want.size() >= 2) c.nontrivial = true;
				if (attr) c.label("attribute set");
				c.label("tokenized");
			} else {
				CHECK(c, !ec_pnode_get_first_child(p), "children in a tree that does not match");
				c.label("not tokenizable");
			}
			ec_pnode_free(p);
			ec_strvec_free(v);
		}
	}
	ec_node_free(n);
	std::string l = ec::leaks(mark);
	CHECK(c, l.empty(), "leak " << l);
}

// many patterns, many and long tokens: patterns simple enough for a direct model
static void big_case(Ctx &c) {
	struct Simple { std::string set, lit; bool plus, keep; std::string attr; };
	static const std::vector<size_t> K = {1, 2, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 400};
	static const std::vector<size_t> LEN = {1, 2, 3, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2000};
	std::vector<Simple> ps;
	struct ec_node *n = ec_node_re_lex("lex", ec_node_many("m", ec_node_any("w", nullptr), 0, 0));
	CHECK(c, n, "re_lex");
	size_t np = c.s.draw(4) ? 1 + c.s.draw(6) : std::min<size_t>(c.s.pick(K), 65);
	for (size_t i = 0; i < np; i++) {
		static const std::vector<std::string> S = {"a-c", "x", " ", "0-9", ",;", "d-z"};
		Simple p;
		if (c.s.draw(3) || i < 3) { p.set = c.s.pick(S); p.plus = c.s.draw(4) != 3; }
		else { p.lit = "k" + std::to_string(i); p.plus = false; }
		p.keep = c.s.draw(4) != 3;
		if (c.s.chance(1, 3)) p.attr = "t" + std::to_string(c.s.draw(4));
		std::string text = p.lit.empty() ? "[" + p.set + "]" + (p.plus ? "+" : "") : p.lit;
		CHECK(c, ec_node_re_lex_add(n, text.c_str(), p.keep, p.attr.empty() ? nullptr : p.attr.c_str()) == 0, "add refused");
		if (i < 20) c.d << "add " << q(text) << " keep=" << p.keep << " attr=" << p.attr << "\n";
		ps.push_back(p);
	}
	if (np > 20) c.d << "... " << np << " patterns\n";
	std::string l;
	size_t blocks = 0;
	while (c.s.more(blocks++, 1, 6, 4, 5)) {
		auto &p = ps[c.s.draw(ps.size())];
		size_t len = c.s.draw(2) ? 1 : c.s.pick(LEN), rep = c.s.draw(2) ? 1 : c.s.pick(K);
		std::string w = p.lit.empty() ? std::string(len, p.set[c.s.draw(2) ? 0 : p.set.size() - 1]) : p.lit;
		std::string sep = c.s.draw(3) ? " " : "";
		while (rep-- && l.size() + w.size() < 2500) l += w + sep;
	}
	c.d << "line of " << l.size() << " bytes " << q(l.size() > 200 ? l.substr(0, 200) : l) << "\n";
	auto in = [](const std::string &set, char x) {
		if (set.size() == 3 && set[1] == '-') return x >= set[0] && x <= set[2];
		return set.find(x) != std::string::npos;
	};
	Toks want;
	bool ok = true;
	for (size_t off = 0; off < l.size() && ok;) {
		ok = false;
		for (auto &p : ps) {
			size_t k = 0;
			if (!p.lit.empty()) k = l.compare(off, p.lit.size(), p.lit) ? 0 : p.lit.size();
			else while (off + k < l.size() && in(p.set, l[off + k]) && (p.plus || k == 0)) k++;
			if (!k) continue;
			if (p.keep) want.push_back({l.substr(off, k), p.attr});
			off += k;
			ok = true;
			break;
		}
	}
	std::vector<std::string> iv = {l};
	struct ec_strvec *v = ec::mk(iv);
	struct ec_pnode *p = ec_parse_strvec(n, v);
	CHECK(c, p, "parse failed, errno=" << errno);
	CHECK(c, ec_pnode_matches(p) == ok, "matches=" << ec_pnode_matches(p) << " expected " << ok);
	if (ok) {
		Toks got = from_strvec(ec_pnode_get_strvec(ec_pnode_get_first_child(p)));
		CHECK(c, got == want, "tokens differ: " << got.size() << " instead of " << want.size());
		c.nontrivial = want.size() > 16 || np > 16;
		c.label(want.size() > 128 ? "more than 128 tokens" : "at most 128 tokens");
	}
	ec_pnode_free(p);
	ec_strvec_free(v);
	ec_node_free(n);
}

// long strings against one expression: a run of a set, a literal at either end
static void longre_case(Ctx &c) {
	static const std::vector<size_t> LEN = {0, 1, 2, 31, 32, 63, 64, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 70000};
	std::string pre = c.s.draw(2) ? "" : "xy", post = c.s.draw(2) ? "" : c.s.draw(2) ? "z" : "yz";
	std::string text = pre + (c.s.draw(2) ? "[a-c]*" : "(a|b|c)*") + post;
	auto want = [&](const std::string &s) {
		if (s.size() < pre.size() + post.size() || s.compare(0, pre.size(), pre) || s.compare(s.size() - post.size(), post.size(), post)) return false;
		return s.substr(pre.size(), s.size() - pre.size() - post.size()).find_first_not_of("abc") == std::string::npos;
	};
	struct ec_node *n = ec_node_re("r", text.c_str());
	CHECK(c, n, "valid pattern refused");
	c.d << "pattern " << q(text) << "\n";
	for (size_t k = 1 + c.s.draw(3); k; k--) {
		std::string s = pre + std::string(c.s.pick(LEN), "abc"[c.s.draw(3)]) + post;
		if (text[pre.size()] == '(' && s.size() > 1100) s.resize(1100); // glibc is slow and hungry on these
		switch (c.s.draw(5)) {
		case 0: s += std::string(c.s.pick(LEN), c.s.draw(2) ? 'z' : 'a'); break;
		case 1: s += "\n"; break;
		case 2: s = std::string(1 + c.s.draw(300), "aqx"[c.s.draw(3)]) + s; break;
		case 3: if (!s.empty()) s[c.s.draw(2) ? s.size() - 1 : c.s.draw(s.size())] = 'Q'; break;
		}
		c.d << "string of " << s.size() << " bytes " << q(s.size() > 60 ? s.substr(0, 20) + "..." + s.substr(s.size() - 20) : s) << "\n";
		std::vector<std::string> iv = {s};
		struct ec_strvec *v = ec::mk(iv);
		struct ec_pnode *p = ec_parse_strvec(n, v);
		CHECK(c, p, "parse failed, errno=" << errno);
		CHECK(c, ec_pnode_matches(p) == want(s), "matches=" << ec_pnode_matches(p) << " expected " << want(s));
		if (s.size() > 255) c.nontrivial = true;
		c.label(want(s) ? "matched" : "no match");
		ec_pnode_free(p);
		ec_strvec_free(v);
	}
	ec_node_free(n);
}

int main(int argc, char **argv) {
	Suite s;
	s.id = "C06";
	s.rule = "re: a string of 2 bytes or more is matched; relex: a string gives 2 kept tokens or more; big: more than 16 tokens or patterns; longre: a string of more than 255 bytes";
	s.init = ec::lib_init;
	s.assumptions = {"patterns with anchors only around the whole expression, no back-references", "glibc's regcomp/regexec (REG_EXTENDED, C locale) is leftmost-longest"};
	s.targets.push_back({"re", re_case, 200000, 5000000});
	s.targets.push_back({"relex", relex_case, 120000, 3000000});
	s.targets.push_back({"longre", longre_case, 3000, 100000});
	s.targets.back().hang_s = 60;
	s.targets.push_back({"big", big_case, 2000, 100000});
	return run_main(argc, argv, s);
}
