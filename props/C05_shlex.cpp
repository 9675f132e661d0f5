#include "model.hpp"
using namespace pbt;
using namespace model;

static std::string gen_line(Src &s, size_t max) {
	static const std::vector<std::string> bits = {"a", " ", "b", "'", "\"", "\\", "#", "\t", "\n", "\r", "ab", "  ", "\x0b", "\xc3\xa9", "\x01", "$", "\x0c", "\xff", "\xa0"};
	std::string o;
	size_t n = 0;
	while (s.more(n, 0, max, 9, 10)) {
		o += bits[s.weighted({8, 6, 5, 5, 5, 4, 3, 2, 2, 1, 2, 1, 1, 1, 1, 1, 1, 1, 1})];
		n++;
	}
	return o;
}

static void ref_line(Ctx &c, const std::string &l) {
	ShLex w = sh_lex(l);
	c.d << "line " << q(l) << "\n";
	for (int flags = 0; flags < 4; flags++) {
		if ((flags & EC_STRVEC_TRAILSP) && w.trail_ambiguous) { c.label("ends with a comment"); continue; }
		for (int mq = 0; mq < 2; mq++) {
			char quote = 0;
			errno = 0;
			struct ec_strvec *v = ec_strvec_sh_lex_str(l.c_str(), (ec_strvec_flag_t)flags, mq ? &quote : nullptr);
			std::string at = "flags=" + std::to_string(flags);
			if (mq) CHECK(c, quote == w.quote, at << ": unclosed quote is " << q(std::string(1, quote)) << ", expected " << q(std::string(1, w.quote)));
			if ((flags & EC_STRVEC_STRICT) && w.unterminated) {
				CHECK(c, !v && errno == EBADMSG, at << ": unterminated input accepted or errno=" << errno);
				continue;
			}
			CHECK(c, v, at << ": lexing failed, errno=" << errno);
			auto want = w.tokens;
			if ((flags & EC_STRVEC_TRAILSP) && w.trail && !w.last_open) want.push_back("");
			CHECK(c, ec::vec(v) == want, at << ": got " << ec::show(ec::vec(v)) << " expected " << ec::show(want));
			ec_strvec_free(v);
		}
	}
	c.nontrivial = w.tokens.size() >= 2 && l.find_first_of("'\"\\#") != std::string::npos;
	if (w.quote) c.label("unclosed quote");
	if (w.unterminated && !w.quote) c.label("trailing backslash");
	if (w.tokens.size() >= 3) c.label("3 tokens or more");
}

static void ref_case(Ctx &c) { ref_line(c, gen_line(c.s, 40)); }
// many tokens, many quotes: short pieces repeated hundreds of times
static void many_case(Ctx &c) {
	std::string l;
	size_t n = 0;
	while (c.s.more(n++, 1, 4)) {
		std::string b = gen_line(c.s, 12);
		static const std::vector<size_t> K = {1, 2, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000};
		size_t k = c.s.pick(K);
		while (k-- && l.size() + b.size() < 6000) l += b;
	}
	ref_line(c, l);
}

static std::string gen_word(Src &s) {
	static const std::vector<std::string> bits = {"a", "b", " ", "'", "\"", "\\", "#", "\t", "\n", "x", "$", "|", "\xc3\xa9"};
	std::string o;
	while (s.more(o.size(), 0, 10, 3, 4)) o += s.pick(bits);
	return o;
}
static std::string gen_sep(Src &s, bool need) {
	static const std::vector<std::string> sp = {" ", "\t", "\n", "\r", "\x0b", "\x0c"};
	std::string o;
	while (s.more(o.size(), need, 4, 1, 3)) o += s.pick(sp);
	return o;
}

static void trip_case(Ctx &c) {
	std::vector<std::string> ws;
	while (c.s.more(ws.size(), 0, 7, 3, 4)) ws.push_back(gen_word(c.s));
	std::string l = gen_sep(c.s, false);
	for (size_t i = 0; i < ws.size(); i++) {
		if (i) l += gen_sep(c.s, true);
		if (i && c.s.chance(1, 10)) l += "#comment ' \" \\ \n" + gen_sep(c.s, false);
		l += sh_quote(c.s, ws[i]);
	}
	std::string tail = gen_sep(c.s, false);
	l += tail;
	c.d << "words " << ec::show(ws) << "\nline " << q(l) << "\n";
	struct ec_strvec *v = ec_strvec_sh_lex_str(l.c_str(), EC_STRVEC_STRICT, nullptr);
	CHECK(c, v, "lexing failed, errno=" << errno);
	CHECK(c, ec::vec(v) == ws, "got " << ec::show(ec::vec(v)));
	ec_strvec_free(v);
	char quote = 0;
	v = ec_strvec_sh_lex_str(l.c_str(), EC_STRVEC_TRAILSP, &quote);
	CHECK(c, v && !quote, "trailing space mode failed, quote=" << (int)quote);
	auto want = ws;
	if (ws.empty() || !tail.empty()) want.push_back("");
	CHECK(c, ec::vec(v) == want, "trailing space mode: got " << ec::show(ec::vec(v)));
	ec_strvec_free(v);
	c.nontrivial = ws.size() >= 2 && l.find_first_of("'\"\\") != std::string::npos;
}

// the node: matches the line iff its child consumes all the tokens of the line
static void node_case(Ctx &c) {
	GenOpt o = GenOpt::core();
	o.depth = 3;
	o.words = {"a", "b", "a b", "it's", "q\"x", "x\\y", "", "#c", "1"};
	Grammar g;
	gen_grammar(c.s, o, g);
	Toks in = gen_input(c.s, g, o);
	std::string l = gen_sep(c.s, false);
	for (size_t i = 0; i < in.size(); i++) l += (i ? gen_sep(c.s, true) : "") + sh_quote(c.s, in[i].s);
	l += gen_sep(c.s, false);
	if (c.s.chance(1, 8) && !l.empty()) l.resize(c.s.draw(l.size()));
	ShLex w = sh_lex(l);
	c.d << "grammar " << g.text() << "\nline " << q(l) << "\n";
	{ Ref r; Toks t; for (auto &x : w.tokens) t.push_back({x, ""}); r.parse_root(g.root, t); } // size filter
	std::string err;
	struct ec_node *root = build(g, err);
	CHECK(c, root, err);
	struct ec_node *lex = ec_node_sh_lex("lex", ec_node_clone(root));
	CHECK(c, lex, "sh_lex");
	Names nm = names(g);
	struct ec_strvec *v = ec::mk(w.tokens);
	struct ec_pnode *inner = ec_parse_strvec(root, v);
	CHECK(c, inner, "inner parse failed");
	bool want = !w.unterminated && ec_pnode_matches(inner) && ec_pnode_len(inner) == w.tokens.size();
	size_t extra = c.s.draw(3);
	struct ec_strvec *lv = ec_strvec();
	ec_strvec_add(lv, l.c_str());
	for (size_t i = 0; i < extra; i++) ec_strvec_add(lv, "more");
	struct ec_pnode *outer = ec_parse_strvec(lex, lv);
	CHECK(c, outer, "parse failed, errno=" << errno);
	CHECK(c, ec_pnode_matches(outer) == want, "line matches=" << ec_pnode_matches(outer) << " expected " << want);
	if (want) {
		CHECK(c, ec_pnode_len(outer) == 1 && !strcmp(ec_strvec_val(ec_pnode_get_strvec(outer), 0), l.c_str()), "the line is not what is consumed");
		struct ec_pnode *k = ec_pnode_get_first_child(outer);
		CHECK(c, k && ec_pnode_next(k) == nullptr, "one child expected");
		CHECK(c, render(k, nm) == render(inner, nm), "child tree differs from the parsing of the tokens");
		if (w.tokens.size() >= 2) c.nontrivial = true;
	} else CHECK(c, !ec_pnode_get_first_child(outer), "children in a tree that does not match");
	ec_pnode_free(outer);
	ec_pnode_free(inner);
	ec_strvec_free(v);
	ec_strvec_free(lv);
	ec_node_free(lex);
	ec_node_free(root);
	c.label(want ? "line matches" : "line does not match");
}

// long tokens: lexed exactly, or refused with ENOBUFS from BUFSIZ on
static void long_case(Ctx &c) {
	std::vector<std::string> ws;
	while (c.s.more(ws.size(), 1, 4)) {
		size_t n = c.s.draw(2) ? c.s.draw(BUFSIZ + 40) : BUFSIZ - 4 + c.s.draw(8);
		std::string w;
		for (size_t i = 0; i < n; i++) w += 'a' + (i * 7 + ws.size()) % 26;
		ws.push_back(w);
	}
	std::string l;
	size_t big = 0;
	for (auto &w : ws) {
		int how = c.s.draw(3);
		if (!l.empty()) l += " ";
		l += how == 1 ? "'" + w + "'" : how == 2 ? "\"" + w + "\"" : w.empty() ? "''" : w;
		big = std::max(big, w.size());
		c.d << "word of " << w.size() << " ";
	}
	struct ec_strvec *v = ec_strvec_sh_lex_str(l.c_str(), EC_STRVEC_STRICT, nullptr);
	if (!v) { CHECK(c, big >= BUFSIZ && errno == ENOBUFS, "refused, errno=" << errno); c.label("refused"); return; }
	CHECK(c, ec::vec(v) == ws, "tokens differ");
	ec_strvec_free(v);
	c.nontrivial = big > 1000;
}

int main(int argc, char **argv) {
	Suite s;
	s.id = "C05";
	s.rule = "ref: random lines over quotes, escapes, comments, blanks and bytes > 127, non-trivial = 2 tokens or more and a special character; trip: words quoted at random, 2 words or more; node: matching line of 2 tokens or more; long: a word above 1000 bytes";
	s.init = ec::lib_init;
	s.assumptions = {"a token of BUFSIZ bytes or more may be refused with ENOBUFS", "whether the end of line that ends a comment counts as trailing space is unspecified", "LC_ALL=C.UTF-8"};
	s.targets.push_back({"ref", ref_case, 400000, 20000000});
	s.targets.push_back({"many", many_case, 6000, 200000});
	s.targets.push_back({"trip", trip_case, 300000, 10000000});
	s.targets.push_back({"node", node_case, 60000, 1500000});
	s.targets.push_back({"long", long_case, 2000, 20000});
	return run_main(argc, argv, s);
}
