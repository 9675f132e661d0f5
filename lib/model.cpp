#include "model.hpp"
#include <algorithm>
#include <functional>

namespace model {

const char *kind_name[] = {"str", "int", "uint", "any", "space", "empty", "none", "re", "file", "seq", "or",
	"many", "option", "once", "subset", "bypass", "sh_lex", "re_lex", "dynamic", "cond",
	"vp_lower", "vp_parent", "vp_err", "vp_noparse", "vp_wrap", "vp_longest", "vp_not"};

// ================================================================ regexps
static std::string esc(char c) {
	if (strchr(".[]()*+?{}|^$\\", c)) return std::string("\\") + c;
	return std::string(1, c);
}
std::string Re::text() const {
	std::string o;
	auto atom = [](const Re &r) {
		std::string t = r.text();
		return (r.k == LIT || r.k == ANY || r.k == CLASS) ? t : "(" + t + ")";
	};
	switch (k) {
	case LIT: return esc(c);
	case ANY: return ".";
	case CLASS: return std::string("[") + (neg ? "^" : "") + cls + "]";
	case SEQ:
		for (auto &r : ch) o += (r.k == ALT || r.k == SEQ) ? "(" + r.text() + ")" : r.text();
		return o;
	case ALT:
		for (size_t i = 0; i < ch.size(); i++) o += (i ? "|" : "") + ch[i].text();
		return o;
	case STAR: return atom(ch[0]) + "*";
	case PLUS: return atom(ch[0]) + "+";
	case OPT: return atom(ch[0]) + "?";
	}
	return o;
}
void Re::ends(const std::string &s, size_t f, std::set<size_t> &out) const {
	switch (k) {
	case LIT: if (f < s.size() && s[f] == c) out.insert(f + 1); break;
	case ANY: if (f < s.size()) out.insert(f + 1); break;
	case CLASS: if (f < s.size() && (cls.find(s[f]) != std::string::npos) != neg) out.insert(f + 1); break;
	case SEQ: {
		std::set<size_t> cur = {f};
		for (auto &r : ch) {
			std::set<size_t> nx;
			for (size_t p : cur) r.ends(s, p, nx);
			cur = nx;
		}
		out.insert(cur.begin(), cur.end());
		break;
	}
	case ALT: for (auto &r : ch) r.ends(s, f, out); break;
	case OPT: out.insert(f); ch[0].ends(s, f, out); break;
	case STAR: case PLUS: {
		std::set<size_t> seen, todo = {f};
		if (k == STAR) out.insert(f);
		while (!todo.empty()) {
			size_t p = *todo.begin();
			todo.erase(todo.begin());
			if (!seen.insert(p).second) continue;
			std::set<size_t> nx;
			ch[0].ends(s, p, nx);
			for (size_t e : nx) { out.insert(e); if (!seen.count(e)) todo.insert(e); }
		}
		break;
	}
	}
}
bool Re::full(const std::string &s) const { std::set<size_t> e; ends(s, 0, e); return e.count(s.size()); }
int Re::longest(const std::string &s, size_t f) const {
	std::set<size_t> e;
	ends(s, f, e);
	return e.empty() ? -1 : (int)(*e.rbegin() - f);
}
std::string Re::sample(Src &s) const {
	std::string o;
	switch (k) {
	case LIT: return std::string(1, c);
	case ANY: return std::string(1, "ab1-"[s.draw(4)]);
	case CLASS: if (neg) { for (char x : std::string("zq0ab1")) if (cls.find(x) == std::string::npos) return std::string(1, x); return ""; }
		return std::string(1, cls[s.draw(cls.size())]);
	case SEQ: for (auto &r : ch) o += r.sample(s); return o;
	case ALT: return ch[s.draw(ch.size())].sample(s);
	case OPT: return s.draw(2) ? ch[0].sample(s) : "";
	case STAR: case PLUS: {
		int n = s.draw(3) + (k == PLUS);
		while (n--) o += ch[0].sample(s);
		return o;
	}
	}
	return o;
}
Re gen_re(Src &s, int depth, const std::string &alpha) {
	Re r;
	size_t k = depth <= 0 ? s.draw(3) : s.weighted({4, 1, 3, 4, 2, 2, 2, 2});
	switch (k) {
	case 0: r.k = Re::LIT; r.c = alpha[s.draw(alpha.size())]; break;
	case 1: r.k = Re::ANY; break;
	case 2: r.k = Re::CLASS; r.neg = s.chance(1, 6);
		for (char c : alpha) if (isalnum((unsigned char)c) && s.draw(2)) r.cls += c;
		if (r.cls.empty()) r.cls = "a";
		break;
	case 3: case 4:
		r.k = k == 3 ? Re::SEQ : Re::ALT;
		while (s.more(r.ch.size(), 1, 3)) r.ch.push_back(gen_re(s, depth - 1, alpha));
		break;
	default:
		r.k = k == 5 ? Re::STAR : k == 6 ? Re::PLUS : Re::OPT;
		r.ch.push_back(gen_re(s, depth - 1, alpha));
	}
	return r;
}

// ================================================================= tokens
std::string show(const Toks &t) {
	std::string o = "[";
	for (size_t i = 0; i < t.size(); i++)
		o += (i ? ", " : "") + pbt::q(t[i].s) + (t[i].attr.empty() ? "" : "@" + t[i].attr);
	return o + "]";
}
Toks from_strvec(const struct ec_strvec *v) {
	Toks t;
	for (size_t i = 0; i < ec_strvec_len(v); i++) {
		Tok k;
		k.s = ec_strvec_val(v, i);
		const struct ec_dict *d = ec_strvec_get_attrs(v, i);
		if (d)
			for (struct ec_dict_elt_ref *it = ec_dict_iter(d); it; it = ec_dict_iter_next(it))
				k.attr += ec_dict_iter_get_key(it);
		t.push_back(k);
	}
	return t;
}
struct ec_strvec *to_strvec(const Toks &t) {
	struct ec_strvec *v = ec_strvec();
	if (!v) return nullptr;
	for (size_t i = 0; i < t.size(); i++) {
		if (ec_strvec_add(v, t[i].s.c_str()) < 0) { ec_strvec_free(v); return nullptr; }
		if (!t[i].attr.empty()) {
			struct ec_dict *d = ec_dict();
			if (!d || ec_dict_set(d, t[i].attr.c_str(), nullptr, nullptr) < 0 ||
					ec_strvec_set_attrs(v, i, d) < 0) { ec_strvec_free(v); return nullptr; }
		}
	}
	return v;
}

// ============================================================ shell lexer
static bool sp(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\v' || c == '\f' || c == '\r'; }

ShLex sh_lex(const std::string &s) {
	ShLex r;
	size_t i = 0, n = s.size();
	r.trail = true; // empty input counts as trailing space
	while (i < n) {
		if (sp(s[i])) { r.trail = true; r.trail_ambiguous = false; i++; continue; }
		if (s[i] == '#') {
			while (i < n && s[i] != '\n' && s[i] != '\r') i++;
			r.trail = false;
			r.trail_ambiguous = i < n; // the end of line of a comment: a blank, or part of it?
			if (i < n) i++;
			continue;
		}
		r.trail = r.trail_ambiguous = false;
		std::string w;
		while (i < n && !sp(s[i])) {
			if (s[i] == '\'') {
				size_t e = s.find('\'', i + 1);
				if (e == std::string::npos) { w += s.substr(i + 1); i = n; r.unterminated = true; r.quote = '\''; break; }
				w += s.substr(i + 1, e - i - 1);
				i = e + 1;
			} else if (s[i] == '"') {
				i++;
				bool closed = false;
				while (i < n) {
					if (s[i] == '"') { closed = true; i++; break; }
					if (s[i] == '\\') { i++; if (i >= n) break; }
					w += s[i++];
				}
				if (!closed) { r.unterminated = true; r.quote = '"'; }
			} else if (s[i] == '\\') {
				i++;
				if (i >= n) { r.unterminated = true; break; }
				w += s[i++];
			} else w += s[i++];
		}
		r.tokens.push_back(w);
		if (i >= n) r.last_open = true;
	}
	return r;
}

std::string sh_quote(Src &s, const std::string &w) {
	std::string o;
	size_t i = 0;
	if (w.empty()) return s.draw(2) ? "''" : "\"\"";
	while (i < w.size()) {
		size_t l = 1 + s.draw(w.size() - i);
		std::string part = w.substr(i, l);
		int how = s.draw(4);
		if (how == 1 && part.find('\'') != std::string::npos) how = 2;
		if (how == 0) {
			for (char c : part)
				if (sp(c) || strchr("'\"\\", c) || (c == '#' && o.empty())) { how = 2; break; }
		}
		if (how == 0) o += part;
		else if (how == 1) o += "'" + part + "'";
		else if (how == 2) {
			o += '"';
			for (char c : part) { if (c == '"' || c == '\\' || s.draw(8) == 7) o += '\\'; o += c; }
			o += '"';
		} else for (char c : part) { o += '\\'; o += c; }
		i += l;
	}
	return o;
}

// ==================================================================== int
bool ref_int(const std::string &s, unsigned base, __int128 &v, bool is_signed) {
	size_t i = 0;
	while (i < s.size() && sp(s[i])) i++;
	bool neg = false;
	if (i < s.size() && (s[i] == '+' || s[i] == '-')) { neg = s[i] == '-'; i++; }
	if (!is_signed && s.find('-') != std::string::npos) return false;
	auto dig = [](char c) -> unsigned {
		if (c >= '0' && c <= '9') return c - '0';
		if (c >= 'a' && c <= 'z') return c - 'a' + 10;
		if (c >= 'A' && c <= 'Z') return c - 'A' + 10;
		return 99;
	};
	// whether 0b11 is a number depends on the C library
	if ((base == 0 || base == 2) && i + 2 < s.size() && s[i] == '0' && (s[i + 1] == 'b' || s[i + 1] == 'B') && dig(s[i + 2]) < 2) throw pbt::Discard();
	if ((base == 0 || base == 16) && i + 2 < s.size() + 0 && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X') &&
			dig(s[i + 2]) < 16) {
		i += 2;
		base = 16;
	} else if (base == 0) base = i < s.size() && s[i] == '0' ? 8 : 10;
	if (i >= s.size()) return false;
	v = 0;
	const __int128 lim = (__int128)1 << 100;
	for (; i < s.size(); i++) {
		unsigned d = dig(s[i]);
		if (d >= base) return false;
		if (v < lim) v = v * base + d;
	}
	if (neg) v = -v;
	if (is_signed) return v >= INT64_MIN && v <= INT64_MAX;
	return v >= 0 && v <= (__int128)UINT64_MAX;
}

// ============================================================== conditions
std::string Cond::text(Src *s) const {
	auto pad = [&]() { return s && s->chance(1, 5) ? std::string(s->draw(2) ? " " : "\t") : std::string(); };
	switch (k) {
	case STR: return name;
	case INT: return raw.empty() ? std::to_string(i) : raw;
	case FUNC: {
		std::string o = name + pad() + "(" + pad();
		for (size_t j = 0; j < args.size(); j++) o += (j ? pad() + "," + pad() : "") + args[j].text(s);
		return o + pad() + ")";
	}
	}
	return "";
}

// ================================================================= grammar
GenOpt GenOpt::core() {
	GenOpt o;
	o.w[STR] = 10; o.w[INT] = 2; o.w[UINT] = 1; o.w[ANY] = 2; o.w[SPACE] = 1; o.w[EMPTY] = 1; o.w[NONE] = 1;
	o.w[RE] = 2; o.w[SEQ] = 8; o.w[OR] = 8; o.w[MANY] = 5; o.w[OPTION] = 5; o.w[ONCE] = 3; o.w[SUBSET] = 4;
	o.w[BYPASS] = 2;
	return o;
}

struct Gen {
	Src &s;
	const GenOpt &o;
	Grammar &g;
	std::vector<G *> done;       // finished nodes that may be shared
	std::vector<G *> open;       // ancestors a loop may target
	Gen(Src &s_, const GenOpt &o_, Grammar &g_) : s(s_), o(o_), g(g_) {}
	bool tmpl = false;           // inside a dynamic template

	std::string id() {
		size_t k = s.draw(o.ids.size() + 1);
		return k == 0 ? "" : o.ids[k - 1];
	}
	std::string word() { return o.words[s.draw(o.words.size())]; }
	static bool leaf(Kind k) { return k <= FILE_ || (k >= ULOWER && k <= UNOPARSE); }

	Cond cond(int depth, int want) {
		Cond c = cond_(depth, want);
		if (!o.cond_wild || !s.chance(1, 12)) return c;
		static const std::vector<std::string> raws = {"010", "0", "007", "09", "9223372036854775807", "9223372036854775808", "99999999999999999999", "00"};
		static const std::vector<std::string> fn = {"nosuch", "root", "current", "bool", "or", "and", "count", "find", "first_child", "cmp", "eq", "Root", "_x.y9"};
		switch (s.draw(6)) {
		case 0: c = Cond(); c.k = Cond::INT; c.raw = s.pick(raws); break;
		case 1: if (c.k == Cond::FUNC) c.name = s.pick(fn); break;
		case 2: if (!c.args.empty()) c.args.erase(c.args.begin() + s.draw(c.args.size())); break;
		case 3: if (c.k == Cond::FUNC) c.args.insert(c.args.begin() + s.draw(c.args.size() + 1), cond_(depth - 1, 0)); break;
		case 4: if (!c.args.empty()) c.args[s.draw(c.args.size())] = cond_(depth - 1, 0); break;
		default: c.k = Cond::STR; c.name = s.pick(fn); c.args.clear(); break;
		}
		return c;
	}
	Cond cond_(int depth, int want) { // want: 0 any, 1 nodeset, 2 int, 3 str, 4 bool
		Cond c;
		if (want == 0) want = 1 + s.draw(4);
		auto word = [&]() {
			std::string w = o.ids[s.draw(o.ids.size())];
			if (!o.cond_wild || !s.chance(1, 6)) return w;
			switch (s.draw(5)) { // almost the same
			case 0: for (char &ch : w) ch = toupper((unsigned char)ch); return w;
			case 1: return w + "_";
			case 2: return w + "0";
			case 3: return w.size() > 1 ? w.substr(0, w.size() - 1) : w + ".";
			default: return w + "." + w;
			}
		};
		auto id_ = [&]() { Cond x; x.k = Cond::STR; x.name = word(); return x; };
		if (depth <= 0 && want == 4) want = 2;
		switch (want) {
		case 1: {
			size_t k = depth <= 0 ? s.draw(2) : s.weighted({2, 2, 5, 3, 1, 1});
			c.k = Cond::FUNC;
			if (k == 0) c.name = "root";
			else if (k == 1) c.name = "current";
			else if (k == 2) { c.name = "find"; c.args.push_back(cond(depth - 1, 1)); c.args.push_back(id_()); }
			else if (k == 3) { c.name = "first_child"; c.args.push_back(cond(depth - 1, 1)); }
			else {
				c.name = k == 4 ? "or" : "and";
				while (s.more(c.args.size(), 2, 3, 1, 3)) c.args.push_back(cond(depth - 1, 1));
			}
			break;
		}
		case 2:
			if (depth > 0 && s.draw(2)) { c.k = Cond::FUNC; c.name = "count"; c.args.push_back(cond(depth - 1, 1)); }
			else { c.k = Cond::INT; c.i = s.draw(6); }
			break;
		case 3: c.k = Cond::STR; c.name = word(); break;
		case 4: {
			size_t k = s.draw(3);
			c.k = Cond::FUNC;
			if (k == 0) { c.name = "bool"; c.args.push_back(cond(depth - 1, 0)); }
			else if (k == 1) {
				c.name = "cmp";
				Cond op; op.k = Cond::STR;
				static const char *ops[] = {"eq", "ne", "lt", "gt", "le", "ge"};
				int want2 = 1 + s.weighted({3, 5, 1, 1});
				op.name = ops[s.draw(want2 == 2 ? 6 : 2)];
				c.args.push_back(op);
				c.args.push_back(cond(depth - 1, want2));
				c.args.push_back(cond(depth - 1, want2));
			} else {
				c.name = s.draw(2) ? "or" : "and";
				while (s.more(c.args.size(), 2, 4, 1, 3)) c.args.push_back(cond(depth - 1, 0));
			}
			break;
		}
		}
		return c;
	}

	G *node(int depth, bool guarded) {
		if (!tmpl && o.share && !done.empty() && s.chance(1, 10)) {
			g.shared++;
			return done[s.draw(done.size())];
		}
		if (!tmpl && o.loops && guarded && !open.empty() && s.chance(1, 5)) {
			G *r = g.a.make(BYPASS);
			r->id = id();
			r->is_ref = true;
			r->ch.push_back(open[s.draw(open.size())]);
			g.loops = true;
			return r;
		}
		std::vector<unsigned> w = o.w;
		for (int k = 0; k < NKINDS; k++) {
			if (depth <= 0 && !leaf((Kind)k)) w[k] = 0;
			if (tmpl && (k == DYN || k == COND)) w[k] = 0;
		}
		Kind k = (Kind)s.weighted(w);
		G *n = g.a.make(k);
		n->id = id();
		// a loop may only target a node once a token has been consumed below it
		switch (k) {
		case STR: n->str = word(); break;
		case INT: n->min = s.range(-2, 3); n->max = n->min + s.draw(12); n->base = s.draw(3) == 2 ? 16 : s.draw(2) ? 10 : 0; break;
		case UINT: n->min = s.draw(3); n->max = n->min + s.draw(12); n->base = s.draw(2) ? 10 : 0; break;
		case ANY: if (s.chance(1, 4)) n->str = s.draw(2) ? "A" : "B"; break;
		case RE: n->re = gen_re(s, 2); break;
		case SPACE: case EMPTY: case NONE: case FILE_: break;
		case SEQ: {
			open.push_back(n);
			bool grd = false;
			// first child that certainly consumes one token guards the others
			while (s.more(n->ch.size(), 0, o.max_ch, 3, 4)) {
				G *c = node(depth - 1, guarded || grd);
				n->ch.push_back(c);
				if (c->k == STR || c->k == INT || c->k == UINT || c->k == ANY || c->k == RE) grd = true;
			}
			open.pop_back();
			break;
		}
		case OR: case SUBSET: {
			size_t m = k == SUBSET ? std::min<size_t>(o.max_ch, 4) : o.max_ch;
			if (k == SUBSET && o.max_ch >= 4 && s.chance(1, 16)) { // many simple children
				size_t deep = s.draw(10);
				while (s.more(n->ch.size(), 5, 8, 3, 4)) n->ch.push_back(node(n->ch.size() == deep && depth > 1 ? 1 : 0, false));
				break;
			}
			open.push_back(n);
			// below an or/subset no token has been consumed
			std::vector<G *> save;
			while (s.more(n->ch.size(), 0, m, 3, 4)) n->ch.push_back(node(depth - 1, false));
			open.pop_back();
			break;
		}
		case MANY:
			n->min = s.draw(3);
			n->max = s.draw(2) ? 0 : n->min + s.draw(3);
			if (s.chance(1, 16)) n->max = s.draw(n->min + 1); // possibly never matches
			open.push_back(n);
			n->ch.push_back(node(depth - 1, false));
			open.pop_back();
			break;
		case UERR: { static const int e[] = {EPIPE, EIO, EDOM, EINVAL, ENOENT, EBADMSG, ENOMEM, EEXIST, EILSEQ, ENOBUFS}; n->min = e[s.draw(10)]; break; }
		case ULONGEST:
			open.push_back(n);
			while (s.more(n->ch.size(), 1, 3, 3, 4)) n->ch.push_back(node(depth - 1, false));
			open.pop_back();
			break;
		case OPTION: case ONCE: case BYPASS: case UWRAP: case UNOT:
			open.push_back(n);
			n->ch.push_back(node(depth - 1, false));
			open.pop_back();
			break;
		case SHLEX: {
			std::vector<G *> save;
			save.swap(open); // a token may lex to itself: no loops through lexers
			n->ch.push_back(node(depth - 1, false));
			save.swap(open);
			break;
		}
		case RELEX: {
			std::vector<G *> save;
			save.swap(open);
			while (s.more(n->pats.size(), 1, 4)) {
				Pat p;
				switch (s.draw(5)) {
				case 0: p.re = gen_re(s, 2); break;
				case 1: p.re.k = Re::PLUS; p.re.ch.resize(1); p.re.ch[0].k = Re::CLASS; p.re.ch[0].cls = "abcform"; break;
				case 2: p.re.k = Re::PLUS; p.re.ch.resize(1); p.re.ch[0].k = Re::CLASS; p.re.ch[0].cls = "0123456789"; break;
				case 3: p.re.k = Re::PLUS; p.re.ch.resize(1); p.re.ch[0].c = ' '; p.keep = false; break;
				case 4: p.re.k = Re::ANY; break;
				}
				if (s.chance(1, 5)) p.keep = !p.keep;
				if (s.chance(1, 3)) p.attr = s.draw(2) ? "A" : "B";
				n->pats.push_back(p);
			}
			n->ch.push_back(node(depth - 1, false));
			save.swap(open);
			break;
		}
		case DYN: {
			tmpl = true;
			GenOpt t = o;
			while (s.more(n->ch.size(), 1, 3)) {
				G *c = node(std::min(depth - 1, 2), false);
				if (s.draw(2)) c->id = "dk";
				n->ch.push_back(c);
			}
			tmpl = false;
			n->min = s.draw(2); // 1: the choice also depends on where the node is
			break;
		}
		case COND:
			n->cond = cond(o.cond_depth, s.draw(4) ? 4 : 0);
			n->str = n->cond.text(&s);
			open.push_back(n);
			n->ch.push_back(node(depth - 1, false));
			open.pop_back();
			break;
		default: break;
		}
		if (!tmpl) done.push_back(n);
		return n;
	}
};

static void enumerate(G *g, std::vector<G *> &out) {
	if (g->uid >= 0) return;
	g->uid = out.size();
	out.push_back(g);
	if (g->k == DYN) return; // templates are instantiated on demand
	for (G *c : g->ch) enumerate(c, out);
}

// A loop is only legal if a token is consumed before coming back; "open" may
// contain ancestors above an unguarded path, so verify: no cycle through
// edges that may be taken without consuming.
static bool may_empty(const G *g, int d = 0) {
	if (d > 30) return true;
	switch (g->k) {
	case STR: case INT: case UINT: case ANY: case SPACE: case RE: case FILE_: case NONE:
	case ULOWER: case UPARENT: case UERR: return false;
	default: return true; // conservative
	}
}
static bool left_cycle(G *g, std::map<G *, int> &st) {
	int &c = st[g];
	if (c == 1) return true;
	if (c == 2) return false;
	c = 1;
	if (g->k == SEQ) {
		for (G *x : g->ch) {
			if (left_cycle(x, st)) return true;
			if (!may_empty(x)) break;
		}
	} else if (g->k != DYN) {
		for (G *x : g->ch) if (left_cycle(x, st)) return true;
	}
	st[g] = 2;
	return false;
}

// blow up one or two dimensions: number of children, depth, length of words
static void bloat(Src &s, const GenOpt &o, Grammar &g) {
	static const std::vector<size_t> sz = {9, 17, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097};
	auto size = [&]() { return std::min(sz[s.draw(sz.size())], o.big + 1); };
	std::vector<G *> lists, strs;
	for (G &x : g.a.all) {
		if (x.k == SEQ || x.k == OR || x.k == SUBSET) lists.push_back(&x);
		if (x.k == STR) strs.push_back(&x);
	}
	int times = 1 + s.draw(2);
	while (times--) switch (s.draw(4)) {
	case 0: // many children, copies of words so that inputs may still match
		if (!lists.empty()) {
			G *l = lists[s.draw(lists.size())];
			size_t n = l->k == SUBSET ? std::min<size_t>(size(), 300) : size();
			while (l->ch.size() < n) {
				G *c = g.a.make(STR);
				c->str = (l->k == SUBSET ? s.chance(1, 40) : s.draw(4) != 0) ? o.words[s.draw(o.words.size())] : "w" + std::to_string(l->ch.size());
				if (!s.draw(8)) c->id = s.draw(2) ? o.ids[s.draw(o.ids.size())] : "u" + std::to_string(l->ch.size());
				size_t at = s.draw(3) ? l->ch.size() : s.draw(l->ch.size() + 1);
				l->ch.insert(l->ch.begin() + at, c);
			}
		}
		break;
	case 1: { // deep
		size_t n = size();
		for (size_t i = 0; i < n; i++) {
			static const Kind k[] = {BYPASS, SEQ, OR, OPTION, MANY};
			G *w = g.a.make(k[i % 7 ? s.draw(3) : s.draw(5)]);
			if (w->k == MANY) w->max = 1 + s.draw(2);
			w->ch.push_back(g.root);
			g.root = w;
		}
		break;
	}
	case 2: // long words
		if (!strs.empty()) {
			G *x = strs[s.draw(strs.size())];
			static const std::vector<size_t> ls = {31, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2000, 4095, 4096, 4097};
			x->str = std::string(ls[s.draw(ls.size())], "abz"[s.draw(3)]) + (s.draw(2) ? "q" : "");
			if (s.draw(2)) { // and another one that differs at the end
				G *y = strs[s.draw(strs.size())];
				y->str = x->str;
				if (s.draw(2)) y->str.back() = "qaA"[s.draw(3)];
				else if (s.draw(2)) y->str += "a";
				else y->str.pop_back();
			}
		}
		break;
	case 3: { // repeated
		G *m = g.a.make(MANY);
		m->ch.push_back(g.root);
		if (s.draw(3) == 0) { m->min = size() / 2; m->max = s.draw(2) ? m->min + s.draw(10) : 0; }
		g.root = m;
		break;
	}
	}
}

void gen_grammar(Src &s, const GenOpt &o, Grammar &g) {
	Gen gen(s, o, g);
	g.root = gen.node(o.depth, false);
	if (o.big) bloat(s, o, g);
	enumerate(g.root, g.nodes);
	if (g.loops) {
		std::map<G *, int> st;
		for (G *n : g.nodes) if (left_cycle(n, st)) throw pbt::Discard();
	}
}

std::string text(const G *g, int d) {
	std::string o = kind_name[g->k];
	if (g->uid >= 0) o += "." + std::to_string(g->uid);
	if (!g->id.empty()) o += "#" + g->id;
	if (g->is_ref) return o + "->" + std::to_string(g->ch[0]->uid);
	if (d <= 0) return o + "...";
	switch (g->k) {
	case STR: return o + "(" + pbt::q(g->str) + ")";
	case INT: case UINT: return o + "(" + std::to_string(g->min) + ".." + std::to_string(g->max) + "," + std::to_string(g->base) + ")";
	case ANY: return g->str.empty() ? o : o + "(@" + g->str + ")";
	case RE: return o + "(/" + g->re.text() + "/)";
	default: break;
	}
	o += "(";
	if (g->k == MANY) o += std::to_string(g->min) + "," + std::to_string(g->max) + ": ";
	if (g->k == DYN) o += g->min ? "by place: " : "by count: ";
	if (g->k == COND) o += pbt::q(g->str) + ": ";
	for (auto &p : g->pats) o += "/" + p.re.text() + "/" + (p.keep ? "k" : "d") + (p.attr.empty() ? "" : "@" + p.attr) + " ";
	for (size_t i = 0; i < g->ch.size(); i++) o += (i ? ", " : "") + text(g->ch[i], d - 1);
	return o + ")";
}
std::string Grammar::text() const { return model::text(root); }

// ------------------------------------------------------------------ builder
extern "C" struct ec_node *model_dyn_cb(struct ec_pnode *ps, void *opaque) {
	const G *g = (const G *)opaque;
	size_t n = 0;
	struct ec_pnode *root = ec_pnode_get_root(ps);
	for (struct ec_pnode *it = root; it; it = __ec_pnode_iter_next(root, it, 1))
		if (ec_pnode_get_node(it) && !strcmp(ec_node_id(ec_pnode_get_node(it)), "dk")) n++;
	if (g->min) while ((ps = ec_pnode_get_parent(ps))) n++;
	return build_node(g->ch[n % g->ch.size()]);
}
static const char *cid(const G *g) { return g->id.empty() ? EC_NO_ID : g->id.c_str(); }

static struct ec_node *leaf_node(const G *g) {
	switch (g->k) {
	case STR: return ec_node_str(cid(g), g->str.c_str());
	case INT: return ec_node_int(cid(g), g->min, g->max, g->base);
	case UINT: return ec_node_uint(cid(g), g->min, g->max, g->base);
	case ANY: return g->str.empty() ? ec_node("any", cid(g)) : ec_node_any(cid(g), g->str.c_str());
	case RE: return ec_node_re(cid(g), g->re.text().c_str());
	case SPACE: case EMPTY: case NONE: case FILE_: return ec_node(kind_name[g->k], cid(g));
	case DYN: return ec_node_dynamic(cid(g), model_dyn_cb, (void *)g);
	default: return nullptr;
	}
}
static struct ec_node *assemble(const G *g, const std::function<struct ec_node *(G *)> &sub) {
	struct ec_node *n = nullptr, *c;
	if (user_kind(g->k)) {
		std::vector<struct ec_node *> ch;
		bool bad = false;
		for (G *x : g->ch) { ch.push_back(sub(x)); if (!ch.back()) bad = true; }
		if (bad) { for (auto *x : ch) ec_node_free(x); return nullptr; }
		return user_node(g, cid(g), ch);
	}
	switch (g->k) {
	case SEQ: case OR: case SUBSET:
		n = ec_node(kind_name[g->k], cid(g));
		for (G *x : g->ch) {
			if (!n) break;
			c = sub(x);
			int r = !c ? -1 : g->k == SEQ ? ec_node_seq_add(n, c) : g->k == OR ? ec_node_or_add(n, c) : ec_node_subset_add(n, c);
			if (r < 0) { ec_node_free(n); n = nullptr; }
		}
		return n;
	case MANY: return (c = sub(g->ch[0])) ? ec_node_many(cid(g), c, g->min, g->max) : nullptr;
	case OPTION: return (c = sub(g->ch[0])) ? ec_node_option(cid(g), c) : nullptr;
	case ONCE: return (c = sub(g->ch[0])) ? ec_node_once(cid(g), c) : nullptr;
	case BYPASS: return (c = sub(g->ch[0])) ? ec_node_bypass(cid(g), c) : nullptr;
	case SHLEX: return (c = sub(g->ch[0])) ? ec_node_sh_lex(cid(g), c) : nullptr;
	case COND: return (c = sub(g->ch[0])) ? ec_node_cond(cid(g), g->str.c_str(), c) : nullptr;
	case RELEX:
		if (!(c = sub(g->ch[0]))) return nullptr;
		n = ec_node_re_lex(cid(g), c);
		for (auto &p : g->pats)
			if (n && ec_node_re_lex_add(n, p.re.text().c_str(), p.keep, p.attr.empty() ? nullptr : p.attr.c_str()) < 0) {
				ec_node_free(n);
				n = nullptr;
			}
		return n;
	default: return leaf_node(g);
	}
}
struct ec_node *build_node(G *g) {
	return assemble(g, [](G *x) { return build_node(x); });
}
struct ec_node *build(Grammar &g, std::string &err) {
	// every static node is created once; loops are closed at the end
	std::vector<G *> refs;
	std::vector<struct ec_node *> mine(g.nodes.size(), nullptr);
	bool bad = false;
	std::function<struct ec_node *(G *)> mk = [&](G *x) -> struct ec_node * {
		if (!mine[x->uid]) {
			if (x->is_ref) {
				mine[x->uid] = ec_node("bypass", cid(x));
				refs.push_back(x);
			} else mine[x->uid] = assemble(x, mk);
			if (!mine[x->uid]) { if (!bad) err = "cannot create " + text(x); bad = true; return nullptr; }
		}
		return ec_node_clone(mine[x->uid]);
	};
	struct ec_node *root = mk(g.root);
	for (G *r : refs) {
		if (bad) break;
		if (!mine[r->ch[0]->uid] || ec_node_bypass_set_child(mine[r->uid], ec_node_clone(mine[r->ch[0]->uid])) < 0) {
			err = "cannot close loop";
			bad = true;
		}
	}
	for (G *n : g.nodes) n->node = mine[n->uid];
	for (auto *m : mine) ec_node_free(m); // keep only the root reference
	if (bad) { ec_node_free(root); return nullptr; }
	return root;
}

// ----------------------------------------------------------- input sampling
static int sample_steps;
static void sample_in(Src &s, const G *g, Toks &out, int budget, size_t cap) {
	if (budget <= 0 || out.size() > cap) return;
	if (cap > 12 && ++sample_steps > 3000) return;
	auto rest = budget - 1;
	switch (g->k) {
	case STR: out.push_back({g->str, ""}); break;
	case INT: case UINT: {
		int64_t v = g->min + s.draw(g->max - g->min + 1);
		char b[32];
		if (g->base == 16) snprintf(b, sizeof b, "%s%llx", v < 0 ? "-" : "", (unsigned long long)(v < 0 ? -v : v));
		else snprintf(b, sizeof b, "%lld", (long long)v);
		out.push_back({b, ""});
		break;
	}
	case ANY: out.push_back({s.draw(2) ? "zz" : "a", g->str}); break;
	case SPACE: {
		std::string w = s.draw(2) ? " " : "\t ";
		if (s.draw(4) == 3) w += std::string(1, "\v\f\n\r"[s.draw(4)]);
		out.push_back({w, ""});
		break;
	}
	case RE: out.push_back({g->re.sample(s), ""}); break;
	case FILE_: out.push_back({"/tmp", ""}); break;
	case EMPTY: case NONE: break;
	case SEQ: for (G *c : g->ch) sample_in(s, c, out, rest, cap); break;
	case OR: if (!g->ch.empty()) sample_in(s, g->ch[s.draw(g->ch.size())], out, rest, cap); break;
	case MANY: {
		int n = g->min + (cap > 12 && s.draw(2) ? (int)s.draw(cap) : (int)s.draw(3));
		if (cap > 12) n = std::min<int>(n, cap);
		while (n-- > 0 && (cap == 12 || sample_steps < 3000)) sample_in(s, g->ch[0], out, rest, cap);
		break;
	}
	case OPTION: if (s.draw(3)) sample_in(s, g->ch[0], out, rest, cap); break;
	case ONCE: case BYPASS: case COND: case UWRAP: sample_in(s, g->ch[0], out, rest, cap); break;
	case UNOT: case UNOPARSE: break;
	case ULOWER: out.push_back({s.draw(2) ? "zz" : "a", ""}); break;
	case UPARENT: out.push_back({s.draw(2) ? "i1" : "i0", ""}); break;
	case UERR: out.push_back({s.chance(1, 4) ? "boom" : "b", ""}); break;
	case ULONGEST: sample_in(s, g->ch[s.draw(g->ch.size())], out, rest, cap); break;
	case DYN: sample_in(s, g->ch[s.draw(g->ch.size())], out, rest, cap); break;
	case SUBSET: {
		std::vector<G *> t = g->ch;
		while (!t.empty() && s.draw(4)) {
			size_t i = s.draw(t.size());
			sample_in(s, t[i], out, rest, cap);
			t.erase(t.begin() + i);
		}
		break;
	}
	case SHLEX: {
		Toks sub;
		sample_in(s, g->ch[0], sub, rest, cap);
		std::string l = s.draw(3) == 2 ? " " : "";
		for (size_t i = 0; i < sub.size(); i++)
			l += (i ? (s.draw(4) == 3 ? "\t " : " ") : "") + (s.draw(2) && !sub[i].s.empty() &&
				sub[i].s.find_first_of(" \t\n'\"\\#") == std::string::npos ? sub[i].s : sh_quote(s, sub[i].s));
		if (s.chance(1, 6)) l += " ";
		if (s.chance(1, 12)) l += " # x";
		out.push_back({l, ""});
		break;
	}
	case RELEX: {
		Toks sub;
		sample_in(s, g->ch[0], sub, rest, cap);
		std::string l;
		for (size_t i = 0; i < sub.size(); i++) {
			l += sub[i].s;
			for (auto &p : g->pats) if (!p.keep && s.draw(2)) { l += p.re.sample(s); break; }
		}
		out.push_back({l, ""});
		break;
	}
	default: break;
	}
}
static Tok rnd_tok(Src &s, const GenOpt &o) {
	Tok t;
	t.s = o.words[s.draw(o.words.size())];
	if (s.chance(1, 12)) t.attr = s.draw(2) ? "A" : "B";
	return t;
}
void sample(Src &s, const G *g, Toks &out, int budget, size_t cap) {
	sample_steps = 0;
	sample_in(s, g, out, budget, cap);
}
Toks gen_input(Src &s, const Grammar &g, const GenOpt &o) {
	Toks t;
	if (s.draw(6) == 5) {
		while (s.more(t.size(), 0, 6)) t.push_back(rnd_tok(s, o));
		return t;
	}
	if (o.big) sample(s, g.root, t, 24 + 2 * (int)o.big, o.big);
	else sample(s, g.root, t);
	if (s.draw(2)) {
		int n = 1 + s.draw(2);
		while (n--) switch (s.draw(6)) {
		case 5: // a small change inside a word, or at one of its ends
			if (!t.empty()) {
				std::string &w = t[s.draw(t.size())].s;
				if (w.empty()) w = "a";
				else switch (s.draw(4)) {
				case 0: w.back() = "ab1 A"[s.draw(5)]; break;
				case 1: w += "ab1 "[s.draw(4)]; break;
				case 2: w.pop_back(); break;
				case 3: { char &x = w[s.draw(w.size())]; x = isupper((unsigned char)x) ? tolower((unsigned char)x) : toupper((unsigned char)x); break; }
				}
			}
			break;
		case 0: t.push_back(rnd_tok(s, o)); break;
		case 1: if (!t.empty()) t.erase(t.begin() + s.draw(t.size())); break;
		case 2: if (!t.empty()) t[s.draw(t.size())] = rnd_tok(s, o); break;
		case 3: if (t.size() > 1) { size_t a = s.draw(t.size()), b = s.draw(t.size()); std::swap(t[a], t[b]); } break;
		case 4: if (!t.empty()) { size_t a = s.draw(t.size()); Tok x = t[a]; t.insert(t.begin() + a, x); } break;
		}
	}
	if (t.size() > 14 + o.big) t.resize(14 + o.big);
	return t;
}
void complete_cut(Src &s, Toks &t, const GenOpt &o) {
	if (t.empty()) { if (s.draw(4)) t.push_back({"", ""}); return; }
	size_t n = 1 + s.draw(t.size());
	switch (s.draw(4)) {
	case 0: t.resize(n); t[n - 1].s.resize(s.draw(t[n - 1].s.size() + 1)); break;
	case 1: t.resize(n - 1); t.push_back({"", ""}); break;
	case 2: t.push_back({"", ""}); break;
	case 3: t.back().s.resize(s.draw(t.back().s.size() + 1)); break;
	}
}

// ============================================================ reference parse
static Toks sub(const Toks &t, size_t off, size_t n) { return Toks(t.begin() + off, t.begin() + off + n); }
static Toks tail(const Toks &t, size_t off) { return Toks(t.begin() + off, t.end()); }

static size_t count_nodes(P *p, const G *g) {
	size_t n = p->g == g;
	for (auto &c : p->ch) n += count_nodes(c.get(), g);
	return n;
}
static void clear_children(P *p) { p->ch.clear(); }

const G *Ref::instantiate(const G *t) {
	G *c = dyn.make(t->k);
	*c = *t;
	c->uid = -1;
	c->node = nullptr;
	if (t->k != DYN) for (auto &x : c->ch) x = (G *)instantiate(x);
	return c;
}
const G *Ref::dyn_pick(const G *g, P *at) {
	size_t n = 0;
	std::function<void(P *)> walk = [&](P *p) { n += p->g->id == "dk"; for (auto &c : p->ch) walk(c.get()); };
	walk(at->root());
	if (g->min) for (P *p = at; (p = p->parent);) n++;
	return instantiate(g->ch[n % g->ch.size()]);
}

int Ref::parse(const G *g, P *parent, const Toks &t, P *as_root) {
	step();
	P *p = as_root;
	if (!p) {
		parent->ch.emplace_back(new P);
		p = parent->ch.back().get();
		p->parent = parent;
	}
	p->g = g;
	int ret = NOMATCH;
	switch (g->k) {
	case STR: if (!t.empty() && t[0].s == g->str) ret = 1; break;
	case INT: case UINT: {
		__int128 v;
		if (!t.empty() && ref_int(t[0].s, g->base, v, g->k == INT) && v >= g->min && v <= g->max) ret = 1;
		break;
	}
	case ANY: if (!t.empty() && (g->str.empty() || t[0].attr == g->str)) ret = 1; break;
	case SPACE: if (!t.empty() && !t[0].s.empty() && std::all_of(t[0].s.begin(), t[0].s.end(), sp)) ret = 1; break;
	case EMPTY: ret = 0; break;
	case NONE: break;
	case RE: if (!t.empty() && g->re.full(t[0].s)) ret = 1; break;
	case FILE_: if (!t.empty()) ret = 1; break;
	case SEQ: {
		size_t off = 0;
		bool ok = true;
		for (G *c : g->ch) {
			int r = parse(c, p, tail(t, off));
			if (r == NOMATCH) { ok = false; break; }
			off += r;
		}
		if (ok) ret = off;
		break;
	}
	case OR:
		for (G *c : g->ch) { int r = parse(c, p, t); if (r != NOMATCH) { ret = r; break; } }
		break;
	case MANY: {
		size_t off = 0;
		int64_t n = 0;
		while (g->max == 0 || n < g->max) {
			int r = parse(g->ch[0], p, tail(t, off));
			if (r == NOMATCH) break;
			if (r == 0) { p->ch.pop_back(); break; }
			off += r;
			n++;
		}
		if (n >= g->min) ret = off;
		break;
	}
	case OPTION: { int r = parse(g->ch[0], p, t); ret = r == NOMATCH ? 0 : r; break; }
	case ONCE: if (count_nodes(p->root(), g->ch[0]) == 0) ret = parse(g->ch[0], p, t); break;
	case BYPASS: case UWRAP: ret = parse(g->ch[0], p, t); break;
	case ULOWER: if (!t.empty() && !t[0].s.empty() && t[0].s.find_first_not_of("abcdefghijklmnopqrstuvwxyz") == std::string::npos) ret = 1; break;
	case UPARENT: if (!t.empty() && p->parent && !p->parent->g->id.empty() && p->parent->g->id == t[0].s) ret = 1; break;
	case UERR:
		if (!t.empty() && t[0].s == "boom") throw UserErr{(int)g->min};
		if (!t.empty() && t[0].s == "b") ret = 1;
		break;
	case UNOPARSE: throw UserErr{ENOTSUP};
	case UNOT: {
		int r = parse(g->ch[0], p, t);
		p->ch.clear();
		if (r == NOMATCH) ret = 0;
		break;
	}
	case ULONGEST: {
		std::unique_ptr<P> best;
		for (G *c : g->ch) {
			int r = parse(c, p, t);
			if (r == NOMATCH) continue;
			if (ret == NOMATCH || r > ret) { ret = r; best = std::move(p->ch.back()); }
			p->ch.pop_back();
		}
		if (best) p->ch.push_back(std::move(best));
		break;
	}
	case SUBSET: {
		if (t.empty()) break;
		SubRes r = subset(std::vector<const G *>(g->ch.begin(), g->ch.end()), p, t);
		for (auto &c : r.sel) { c->parent = p; p->ch.push_back(std::move(c)); }
		ret = r.len;
		break;
	}
	case SHLEX: case RELEX: {
		Toks in;
		if (!t.empty() && g->k == SHLEX) {
			ShLex l = sh_lex(t[0].s);
			if (l.unterminated) break;
			for (auto &x : l.tokens) in.push_back({x, ""});
		} else if (!t.empty()) {
			size_t off = 0;
			bool bad = false;
			const std::string &str = t[0].s;
			while (off < str.size()) {
				bool hit = false;
				for (auto &pt : g->pats) {
					int l = pt.re.longest(str, off);
					if (l <= 0) continue;
					if (pt.keep) in.push_back({str.substr(off, l), pt.attr});
					off += l;
					hit = true;
					break;
				}
				if (!hit) { bad = true; break; }
			}
			if (bad) break;
		}
		int r = parse(g->ch[0], p, in);
		if (r != NOMATCH && (size_t)r == in.size()) ret = t.empty() ? 0 : 1;
		break;
	}
	case DYN: ret = parse(dyn_pick(g, p), p, t); break;
	case COND: {
		int r = parse(g->ch[0], p, t);
		if (r == NOMATCH) break;
		V v;
		if (!eval(g->cond, p, v)) { cond_error = true; break; }
		if (truth(v)) ret = r;
		break;
	}
	default: break;
	}
	if (ret == NOMATCH) {
		clear_children(p);
		if (!as_root) parent->ch.pop_back();
		return NOMATCH;
	}
	p->matched = true;
	p->toks = sub(t, 0, ret);
	return ret;
}

Ref::SubRes Ref::subset(std::vector<const G *> table, P *at, const Toks &t) {
	SubRes best;
	size_t base = at->ch.size();
	for (size_t i = 0; i < table.size(); i++) {
		int r = parse(table[i], at, t);
		if (r == NOMATCH) continue;
		std::vector<const G *> rest = table;
		rest.erase(rest.begin() + i);
		SubRes s = subset(rest, at, tail(t, r));
		if (s.n + 1 > best.n) {
			best.n = s.n + 1;
			best.len = r + s.len;
			best.sel.clear();
			best.sel.push_back(std::move(at->ch.back()));
			for (auto &c : s.sel) best.sel.push_back(std::move(c));
		}
		at->ch.resize(base);
	}
	return best;
}

std::unique_ptr<P> Ref::parse_root(const G *g, const Toks &t) {
	std::unique_ptr<P> r(new P);
	parse(g, nullptr, t, r.get());
	return r;
}

// ------------------------------------------------------------- conditions
enum { TNS = 1, TINT, TSTR, TBOOL };
bool Ref::truth(const V &v) {
	switch (v.t) {
	case TNS: return !v.ns.empty();
	case TINT: return v.i != 0;
	case TSTR: return !v.s.empty();
	default: return v.b;
	}
}
bool Ref::eval(const Cond &c, P *at, V &o) {
	step();
	if (c.k == Cond::STR) { o.t = TSTR; o.s = c.name; return true; }
	if (c.k == Cond::INT) {
		__int128 v = c.i;
		if (!c.raw.empty() && !ref_int(c.raw, 0, v, true)) return false;
		o.t = TINT;
		o.i = (int64_t)v;
		return true;
	}
	std::vector<V> a(c.args.size());
	for (size_t i = 0; i < a.size(); i++) if (!eval(c.args[i], at, a[i])) return false;
	if (c.name == "root" || c.name == "current") {
		if (!a.empty()) return false;
		o.t = TNS;
		o.ns.insert(c.name == "root" ? at->root() : at);
		return true;
	}
	if (c.name == "bool") { if (a.size() != 1) return false; o.t = TBOOL; o.b = truth(a[0]); return true; }
	if (c.name == "or" || c.name == "and") {
		if (a.size() < 2) return false;
		bool w = c.name == "or";
		for (auto &x : a) { o = x; if (truth(x) == w) break; }
		return true;
	}
	if (c.name == "count") { if (a.size() != 1 || a[0].t != TNS) return false; o.t = TINT; o.i = a[0].ns.size(); return true; }
	if (c.name == "first_child") {
		if (a.size() != 1 || a[0].t != TNS) return false;
		o.t = TNS;
		for (P *p : a[0].ns) if (!p->ch.empty()) o.ns.insert(p->ch[0].get());
		return true;
	}
	if (c.name == "find") {
		if (a.size() != 2 || a[0].t != TNS || a[1].t != TSTR) return false;
		o.t = TNS;
		std::function<void(P *)> walk = [&](P *p) {
			step();
			if ((p->g->id.empty() ? std::string(EC_NO_ID) : p->g->id) == a[1].s) o.ns.insert(p);
			for (auto &x : p->ch) walk(x.get());
		};
		for (P *p : a[0].ns) walk(p);
		return true;
	}
	if (c.name == "cmp") {
		if (a.size() != 3 || a[0].t != TSTR || a[1].t != a[2].t) return false;
		const std::string &op = a[0].s;
		bool eq, gt = false;
		if (a[1].t == TINT) { eq = a[1].i == a[2].i; gt = a[1].i > a[2].i; }
		else {
			if (op != "eq" && op != "ne") return false;
			eq = a[1].t == TNS ? a[1].ns == a[2].ns : a[1].t == TSTR ? a[1].s == a[2].s : a[1].b == a[2].b;
		}
		o.t = TBOOL;
		if (op == "eq") o.b = eq;
		else if (op == "ne") o.b = !eq;
		else if (op == "lt") o.b = !eq && !gt;
		else if (op == "gt") o.b = gt;
		else if (op == "le") o.b = !gt;
		else if (op == "ge") o.b = gt || eq;
		else return false;
		return true;
	}
	return false;
}

// ========================================================= reference completion
std::string Ref::Item::text() const {
	std::ostringstream o;
	o << (type == EC_COMP_FULL ? "full" : type == EC_COMP_PARTIAL ? "partial" : "unknown") << " str=" << str
	  << " comp=" << completion << " disp=" << display << " state=" << pstate;
	return o.str();
}
void Ref::complete(const G *g, const Toks &t) {
	step();
	P *save = cur;
	std::unique_ptr<P> own;
	P *p;
	if (cur) {
		cur->ch.emplace_back(new P);
		p = cur->ch.back().get();
		p->parent = cur;
	} else {
		own.reset(new P);
		p = own.get();
	}
	p->g = g;
	cur = p;
	int call = calls++;
	auto add = [&](int type, const std::string &start, const std::string &full) {
		Item it;
		it.type = type;
		it.node = g;
		if (type == EC_COMP_UNKNOWN) it.str = it.completion = it.display = "NULL";
		else { it.str = it.display = full; it.completion = full.substr(start.size()); }
		it.pstate = render(p->root(), p);
		it.grp = call;
		items.push_back(it);
	};
	switch (g->k) {
	case STR:
		if (t.size() == 1 && g->str.compare(0, t[0].s.size(), t[0].s) == 0) add(EC_COMP_FULL, t[0].s, g->str);
		break;
	case NONE: break;
	case FILE_: {
		if (t.size() != 1) break;
		std::vector<std::pair<std::string, bool>> v;
		if (!files || !files(t[0].s, v)) throw pbt::Discard();
		size_t at = t[0].s.rfind('/');
		std::string dir = at == std::string::npos ? "" : t[0].s.substr(0, at + 1);
		for (auto &f : v) {
			add(f.second ? EC_COMP_PARTIAL : EC_COMP_FULL, t[0].s, dir + f.first + (f.second ? "/" : ""));
			items.back().display = f.first + (f.second ? "/" : "");
		}
		break;
	}
	case SEQ: comp_seq(g, 0, t); break;
	case OR: for (G *c : g->ch) complete(c, t); break;
	case MANY: comp_many(g, g->max, t); break;
	case OPTION: case BYPASS: case COND: case UWRAP: complete(g->ch[0], t); break;
	case UNOT: break;
	case UPARENT:
		if (t.size() == 1 && p->parent && !p->parent->g->id.empty() && p->parent->g->id.compare(0, t[0].s.size(), t[0].s) == 0)
			add(EC_COMP_FULL, t[0].s, p->parent->g->id);
		break;
	case UERR:
		if (t.size() != 1) break;
		if (t[0].s == "boom") throw UserErr{(int)g->min};
		if (t[0].s.empty() || t[0].s == "b") add(EC_COMP_PARTIAL, t[0].s, "b");
		break;
	case ULONGEST:
		for (size_t i = 0; i < g->ch.size(); i++) {
			if (t.size() == 1) add(EC_COMP_PARTIAL, t[0].s, t[0].s + "#" + std::to_string(i));
			complete(g->ch[i], t);
		}
		if (t.size() == 1) add(EC_COMP_UNKNOWN, "", "");
		break;
	case ONCE: if (count_nodes(p->root(), g->ch[0]) == 0) complete(g->ch[0], t); break;
	case SUBSET: comp_subset(std::vector<const G *>(g->ch.begin(), g->ch.end()), t); break;
	case DYN: complete(dyn_pick(g, p), t); break;
	case SHLEX: {
		if (t.size() != 1) break;
		ShLex l = sh_lex(t[0].s);
		Toks in;
		for (auto &x : l.tokens) in.push_back({x, ""});
		if (l.trail_ambiguous) throw pbt::Discard();
		if (l.trail) in.push_back({"", ""});
		size_t before = items.size();
		complete(g->ch[0], in);
		if (l.quote)
			for (size_t i = before; i < items.size(); i++) if (items[i].type == EC_COMP_FULL) {
				items[i].str = std::string(1, l.quote) + items[i].str + l.quote;
				items[i].completion += l.quote;
			}
		break;
	}
	default: // no completion method: "something goes here"
		if (t.size() == 1) add(EC_COMP_UNKNOWN, "", "");
		break;
	}
	cur = save;
	if (cur) cur->ch.pop_back();
}
void Ref::comp_seq(const G *g, size_t i, const Toks &t) {
	step();
	if (i >= g->ch.size()) return;
	complete(g->ch[i], t);
	for (size_t n = 0; n < t.size(); n++) {
		int r = parse(g->ch[i], cur, sub(t, 0, n));
		if (r == NOMATCH) continue;
		if ((size_t)r == n) comp_seq(g, i + 1, tail(t, n));
		cur->ch.pop_back();
	}
}
void Ref::comp_many(const G *g, unsigned max, const Toks &t) {
	step();
	complete(g->ch[0], t);
	if (max == 1) return;
	if (max) max--;
	for (size_t n = 1; n < t.size(); n++) { // an empty match makes no progress
		int r = parse(g->ch[0], cur, sub(t, 0, n));
		if (r == NOMATCH) continue;
		if ((size_t)r == n) comp_many(g, max, tail(t, n));
		cur->ch.pop_back();
	}
}
void Ref::comp_subset(std::vector<const G *> table, const Toks &t) {
	step();
	for (auto *c : table) complete(c, t);
	for (size_t i = 0; i < table.size(); i++) {
		int r = parse(table[i], cur, t);
		if (r == NOMATCH) continue;
		std::vector<const G *> rest = table;
		rest.erase(rest.begin() + i);
		comp_subset(rest, tail(t, r));
		cur->ch.pop_back();
	}
}

// ================================================================= rendering
static std::string who(int uid, const char *type, const char *id) {
	std::string o = type;
	if (uid >= 0) o += "." + std::to_string(uid);
	if (strcmp(id, EC_NO_ID)) o += std::string("#") + id;
	return o;
}
// the strings of a node; long lists by length and hash, or deep trees get huge
static void put(std::string &o, const Toks &t) {
	size_t n = t.size();
	for (auto &x : t) n += x.s.size() / 16;
	std::string s = show(t);
	if (n <= 64) o += s;
	else o += "[" + std::to_string(t.size()) + " strings #" + std::to_string(std::hash<std::string>()(s)) + "]";
}
static void render(std::string &o, const P *p, const P *mark) {
	if (p == mark) o += "*";
	o += who(p->g->uid, kind_name[p->g->k], p->g->id.empty() ? EC_NO_ID : p->g->id.c_str());
	if (p->matched) put(o, p->toks);
	else o += "-";
	if (p->ch.empty()) return;
	o += "(";
	for (size_t i = 0; i < p->ch.size(); i++) {
		if (i) o += " ";
		render(o, p->ch[i].get(), mark);
	}
	o += ")";
}
std::string render(const P *p, const P *mark) {
	std::string o;
	render(o, p, mark);
	return o;
}
Names names(const Grammar &g) {
	Names n;
	for (G *x : g.nodes) n.uid[x->node] = x->uid;
	return n;
}
static void render(std::string &o, const struct ec_pnode *p, const Names &n, const struct ec_pnode *mark) {
	const struct ec_node *nd = ec_pnode_get_node(p);
	auto it = n.uid.find(nd);
	if (p == mark) o += "*";
	o += who(it == n.uid.end() ? -1 : it->second, ec_node_type(nd)->name, ec_node_id(nd));
	const struct ec_strvec *v = ec_pnode_get_strvec(p);
	if (v) put(o, from_strvec(v));
	else o += "-";
	const struct ec_pnode *c = ec_pnode_get_first_child(p);
	if (!c) return;
	o += "(";
	for (bool first = true; c; c = ec_pnode_next(c), first = false) {
		if (!first) o += " ";
		render(o, c, n, mark);
	}
	o += ")";
}
std::string render(const struct ec_pnode *p, const Names &n, const struct ec_pnode *mark) {
	std::string o;
	render(o, p, n, mark);
	return o;
}
std::vector<Ref::Item> actual_items(const struct ec_comp *c, const Names &n) {
	std::vector<Ref::Item> out;
	std::map<const struct ec_comp_group *, int> gid;
	struct ec_comp_item *it;
	for (it = ec_comp_iter_first(c, EC_COMP_ALL); it; it = ec_comp_iter_next(it, EC_COMP_ALL)) {
		Ref::Item x;
		auto z = [](const char *s) { return s ? std::string(s) : std::string("NULL"); };
		x.str = z(ec_comp_item_get_str(it));
		x.completion = z(ec_comp_item_get_completion(it));
		x.display = z(ec_comp_item_get_display(it));
		x.type = ec_comp_item_get_type(it);
		x.node = nullptr;
		const struct ec_comp_group *g = ec_comp_item_get_grp(it);
		x.grp = gid.emplace(g, (int)gid.size()).first->second;
		const struct ec_pnode *ps = ec_comp_group_get_pstate(g);
		if (ec_comp_item_get_node(it) != ec_comp_group_get_node(g) || ec_pnode_get_node(ps) != ec_comp_item_get_node(it))
			x.pstate = "<group/node mismatch>";
		else x.pstate = render(ec_pnode_get_root((struct ec_pnode *)ps), n, ps);
		out.push_back(x);
	}
	return out;
}

} // namespace model
