// ec_yaml_import(): the grammar described by a YAML document, or an error.
#include "model.hpp"
#include <fcntl.h>
#include <functional>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace pbt;
using namespace model;

// ------------------------------------------------------------- YAML documents
struct Y {
	enum K { SCALAR, SEQ_, MAP, ALIAS } k = SCALAR;
	std::string s;              // value, or name of the anchor of an alias
	std::string anchor;
	std::vector<std::pair<Y, Y>> m;
	std::vector<Y> l;
	static Y str(const std::string &s) { Y y; y.s = s; return y; }
	static Y alias(const std::string &s) { Y y; y.k = ALIAS; y.s = s; return y; }
	static Y seq(std::vector<Y> l = {}) { Y y; y.k = SEQ_; y.l = std::move(l); return y; }
	static Y map(std::vector<std::pair<Y, Y>> m = {}) { Y y; y.k = MAP; y.m = std::move(m); return y; }
	Y *get(const std::string &key) { for (auto &p : m) if (p.first.k == SCALAR && p.first.s == key) return &p.second; return nullptr; }
	void del(const std::string &key) { for (size_t i = 0; i < m.size(); i++) if (m[i].first.s == key) { m.erase(m.begin() + i); return; } }
};
struct Emit {
	Src &s;
	std::string out;
	explicit Emit(Src &s_) : s(s_) {}
	static bool plain_ok(const std::string &v) {
		if (v.empty() || v[0] == '-' || v[0] == '.') { if (v.size() < 2 || !isdigit((unsigned char)v[1]) || v[0] != '-') return false; }
		for (size_t i = 0; i < v.size(); i++) {
			unsigned char c = v[i];
			if (isalnum(c) || c == '_' || c == '.' || c == '-' || c == '+' || c == '(' || c == ')' || c == '*' || c >= 0x80) {
				if (i == 0 && (c == '*' || c == '(')) return false;
				continue;
			}
			if (c == ' ' && i && i + 1 < v.size() && v[i + 1] != ' ') continue;
			return false;
		}
		return true;
	}
	void scalar(const std::string &v) {
		size_t how = s.draw(3);
		bool ctl = false;
		for (unsigned char c : v) if (c < 32 || c == 127) ctl = true;
		if (how == 0 && !plain_ok(v)) how = 2;
		if (how == 1 && ctl) how = 2;
		if (how == 0) { out += v; return; }
		if (how == 1) {
			out += '\'';
			for (char c : v) { if (c == '\'') out += '\''; out += c; }
			out += '\'';
			return;
		}
		out += '"';
		char b[8];
		for (unsigned char c : v) {
			if (c == '"' || c == '\\') { out += '\\'; out += c; }
			else if (c == '\n' && s.draw(2)) out += "\\n";
			else if (c == '\t' && s.draw(2)) out += "\\t";
			else if (c < 32 || c == 127 || (c < 128 && s.chance(1, 12))) { snprintf(b, sizeof b, s.draw(2) ? "\\x%02x" : "\\u%04x", c); out += b; }
			else out += c;
		}
		out += '"';
	}
	void props(const Y &y) { if (!y.anchor.empty()) out += "&" + y.anchor + " "; }
	void sp() { if (s.chance(1, 8)) out += s.draw(2) ? "  " : "\n        "; }
	void flow(const Y &y) {
		props(y);
		switch (y.k) {
		case Y::SCALAR: scalar(y.s); break;
		case Y::ALIAS: out += "*" + y.s + " "; break;
		case Y::SEQ_:
			out += "[";
			for (size_t i = 0; i < y.l.size(); i++) { if (i) out += ", "; flow(y.l[i]); }
			if (!y.l.empty() && s.chance(1, 8)) out += ",";
			out += " ]";
			break;
		case Y::MAP:
			out += "{";
			for (size_t i = 0; i < y.m.size(); i++) {
				if (i) out += ", ";
				if (y.m[i].first.k != Y::SCALAR) out += "? ";
				flow(y.m[i].first);
				out += " : ";
				flow(y.m[i].second);
			}
			out += " }";
			break;
		}
	}
	void eol() { if (s.chance(1, 12)) out += " # a comment: [ { \" '"; out += "\n"; }
	// after "key:" or "-"
	void value(const Y &y, size_t ind, bool in_map) {
		bool coll = (y.k == Y::SEQ_ && !y.l.empty()) || (y.k == Y::MAP && !y.m.empty());
		if (!coll || s.chance(1, 4)) { out += " "; flow(y); eol(); return; }
		out += " ";
		props(y);
		if (y.anchor.empty() && !in_map && s.draw(2)) { // compact nested block
			out += " ";
			block(y, ind + 1 + (out.size() ? 2 : 0), true);
			return;
		}
		eol();
		block(y, y.k == Y::SEQ_ && in_map && s.draw(2) ? ind : ind + 1 + s.draw(3), false);
	}
	void block(const Y &y, size_t ind, bool first_inline) {
		std::string pad(ind, ' ');
		bool f = first_inline;
		if (y.k == Y::SEQ_)
			for (auto &x : y.l) { if (!f) out += pad; f = false; out += "-"; value(x, ind, false); }
		else
			for (auto &p : y.m) {
				if (!f) out += pad;
				f = false;
				if (p.first.k != Y::SCALAR) { out += "? "; flow(p.first); out += "\n" + pad + ":"; }
				else { flow(p.first); out += s.chance(1, 6) ? " :" : ":"; }
				value(p.second, ind, true);
			}
	}
	void doc(const Y &y) {
		if (s.chance(1, 4)) out += "# generated\n";
		if (s.chance(1, 4)) out += "%YAML 1.1\n---\n";
		else if (s.draw(2) || y.k == Y::ALIAS) out += "---\n";
		if (y.k == Y::SCALAR || y.k == Y::ALIAS || !y.anchor.empty() || (y.l.empty() && y.m.empty()) || s.chance(1, 3)) { flow(y); out += "\n"; }
		else block(y, s.draw(2), false);
		if (s.chance(1, 6)) out += "...\n";
	}
};

static int import_errno;
static struct ec_node *import_text(const std::string &text) {
	int fd = memfd_create("yaml", MFD_CLOEXEC);
	if (fd < 0 || write(fd, text.data(), text.size()) != (ssize_t)text.size()) { fprintf(stderr, "memfd\n"); _Exit(2); }
	std::string path = "/proc/self/fd/" + std::to_string(fd);
	errno = 0;
	struct ec_node *n = ec_yaml_import(path.c_str());
	import_errno = errno;
	close(fd);
	return n;
}
static int low_fd() { int f = open("/dev/null", O_RDONLY); close(f); return f; }

// --------------------------------------------------- grammar -> YAML document
struct Expect { std::map<std::string, std::string> attrs; };
struct Doc {
	Src &s;
	std::map<const G *, std::string> anchor;
	std::map<const G *, unsigned> refs;
	std::map<const G *, Expect> exp;
	size_t nanchor = 0;
	std::vector<std::pair<std::string, std::string>> scalar_anchors; // value, anchor
	explicit Doc(Src &s_) : s(s_) {}

	std::string num(int64_t v, bool is_signed) {
		char b[40];
		uint64_t u = (uint64_t)v;
		const char *sg = "";
		if (is_signed && v < 0) { sg = "-"; u = -u; }
		else if (s.chance(1, 8)) sg = "+";
		const char *f[] = {"%s%llu", "%s0x%llx", "%s0%llo", "%s0X%llX"};
		snprintf(b, sizeof b, f[s.weighted({6, 1, 1, 1})], sg, (unsigned long long)u);
		return b;
	}
	Y boolean(bool v) {
		std::string t = v ? "true" : "false";
		for (char &c : t) if (s.chance(1, 6)) c = toupper(c);
		return Y::str(t);
	}
	Y scalar(const std::string &v) {
		if (!scalar_anchors.empty() && s.chance(1, 3)) for (auto &p : scalar_anchors) if (p.first == v) return Y::alias(p.second);
		Y y = Y::str(v);
		if (s.chance(1, 8)) { y.anchor = "s" + std::to_string(nanchor++); scalar_anchors.push_back({v, y.anchor}); }
		return y;
	}
	void count(const G *g, std::set<const G *> &seen) {
		refs[g]++;
		if (!seen.insert(g).second) return;
		for (const G *x : g->ch) count(x, seen);
	}
	Y node(const G *g) {
		auto it = anchor.find(g);
		if (it != anchor.end()) return Y::alias(it->second);
		Y y = Y::map();
		if (refs[g] > 1 || s.chance(1, 12)) { y.anchor = "n" + std::to_string(nanchor++); anchor[g] = y.anchor; }
		struct E { std::string k; std::function<Y()> v; };
		std::vector<E> e;
		auto str = [&](const char *k, const std::string &v) { e.push_back({k, [this, v] { return scalar(v); }}); };
		auto raw = [&](const char *k, const std::string &v) { e.push_back({k, [v] { return Y::str(v); }}); };
		str("type", kind_name[g->k]);
		if (!g->id.empty() || s.chance(1, 6)) str("id", g->id);
		Expect &x = exp[g];
		static const std::vector<std::string> txt = {"help me", "", "a: b", "it's \"quoted\"", "{x} [y]", "# no comment", "l1\nl2", "caf\xc3\xa9", "- x", "true", "\ttab", "~", "null", "*x", "&x", "%", "@", "back\\slash", "trailing "};
		static const std::vector<std::string> keys = {"key", "k two", "help", "_x", "type", "id", "12"};
		std::string help;
		bool has_help = s.chance(1, 4);
		if (has_help) { help = s.pick(txt); str("help", help); x.attrs["help"] = help; }
		if (s.chance(1, 4)) {
			std::map<std::string, std::string> at;
			std::vector<std::string> order;
			while (s.more(order.size(), 0, 4)) { std::string k = s.pick(keys); if (at.count(k)) break; at[k] = s.pick(txt); order.push_back(k); }
			for (auto &p : at) x.attrs[p.first] = p.second;
			e.push_back({"attrs", [this, at, order] {
				Y m = Y::map();
				for (auto &k : order) m.m.push_back({Y::str(k), scalar(at.at(k))});
				return m;
			}});
		}
		switch (g->k) {
		case STR: str("string", g->str); break;
		case RE: str("pattern", g->re.text()); break;
		case ANY: if (!g->str.empty()) str("attr", g->str); break;
		case INT: raw("min", num(g->min, true)); raw("max", num(g->max, true)); if (g->base || s.draw(2)) raw("base", num(g->base, false)); break;
		case UINT: if (g->min || s.draw(2)) raw("min", num(g->min, false)); raw("max", num(g->max, false)); if (g->base || s.draw(2)) raw("base", num(g->base, false)); break;
		case MANY: if (g->min || s.draw(2)) raw("min", num(g->min, false)); if (g->max || s.draw(2)) raw("max", num(g->max, false)); break;
		case COND: str("expr", g->str); break;
		case RELEX:
			e.push_back({"patterns", [this, g] {
				Y l = Y::seq();
				for (auto &p : g->pats) {
					Y m = Y::map();
					m.m.push_back({Y::str("pattern"), scalar(p.re.text())});
					m.m.push_back({Y::str("keep"), boolean(p.keep)});
					if (!p.attr.empty()) m.m.push_back({Y::str("attr"), scalar(p.attr)});
					if (s.draw(2)) std::swap(m.m[0], m.m[1]);
					l.l.push_back(m);
				}
				return l;
			}});
			break;
		default: break;
		}
		if (g->k == SEQ || g->k == OR) {
			e.push_back({"children", [this, g] { Y l = Y::seq(); for (const G *c : g->ch) l.l.push_back(node(c)); return l; }});
		} else if (!g->ch.empty()) {
			e.push_back({"child", [this, g] { return node(g->ch[0]); }});
		}
		for (size_t i = e.size(); i > 1; i--) if (s.chance(1, 3)) std::swap(e[i - 1], e[s.draw(i)]);
		for (auto &p : e) y.m.push_back({Y::str(p.k), p.v()});
		return y;
	}
};

static GenOpt yaml_opt() {
	GenOpt o;
	o.w[STR] = 10; o.w[INT] = 2; o.w[UINT] = 2; o.w[ANY] = 2; o.w[RE] = 2; o.w[SEQ] = 8; o.w[OR] = 8; o.w[MANY] = 5;
	o.w[OPTION] = 5; o.w[ONCE] = 3; o.w[BYPASS] = 3; o.w[RELEX] = 2; o.w[COND] = 2;
	o.words.push_back("{a: b}"); o.words.push_back("# x"); o.words.push_back("it's"); o.words.push_back("caf\xc3\xa9"); o.words.push_back("l\n\tz");
	o.words.push_back("0x10"); o.words.push_back("null"); o.words.push_back("~"); o.words.push_back("true"); o.words.push_back("\"q\\"); o.words.push_back(" lead");
	return o;
}
static void gen_yaml_grammar(Src &s, const GenOpt &o, Grammar &g) {
	gen_grammar(s, o, g);
	for (G *x : g.nodes) if (x->k == COND) return; // conditions name identifiers
	static const std::vector<std::string> I = {"an id", "[x]", "12", "it's", "~"};
	for (G *x : g.nodes) if (s.chance(1, 10)) x->id = s.pick(I);
}
static std::string attrs_text(const std::map<std::string, std::string> &m) {
	std::string o;
	for (auto &p : m) o += q(p.first) + "=" + q(p.second) + " ";
	return o;
}
// walk the imported graph along the grammar; fills g.node
static void same_graph(Ctx &c, Grammar &g, struct ec_node *root, Doc &d) {
	std::map<const struct ec_node *, G *> rev;
	std::function<void(G *, struct ec_node *)> walk = [&](G *x, struct ec_node *n) {
		auto it = rev.find(n);
		if (x->node || it != rev.end()) {
			CHECK(c, x->node == n && it != rev.end() && it->second == x, "node " << x->uid << " is " << (x->node ? "duplicated" : "merged with another one"));
			return;
		}
		x->node = n;
		rev[n] = x;
		CHECK(c, std::string(ec_node_type_name(ec_node_type(n))) == kind_name[x->k], "node " << x->uid << " has type " << ec_node_type_name(ec_node_type(n)));
		CHECK(c, x->id == ec_node_id(n), "node " << x->uid << " has identifier " << q(ec_node_id(n)));
		std::map<std::string, std::string> at;
		for (struct ec_dict_elt_ref *r = ec_dict_iter(ec_node_attrs(n)); r; r = ec_dict_iter_next(r))
			at[ec_dict_iter_get_key(r)] = (const char *)ec_dict_iter_get_val(r);
		CHECK(c, at == d.exp[x].attrs, "node " << x->uid << " has attributes " << attrs_text(at) << " instead of " << attrs_text(d.exp[x].attrs));
		CHECK(c, ec_node_get_children_count(n) == x->ch.size(), "node " << x->uid << " has " << ec_node_get_children_count(n) << " children");
		for (size_t i = 0; i < x->ch.size(); i++) {
			struct ec_node *k = nullptr; unsigned rf;
			CHECK(c, ec_node_get_child(n, i, &k, &rf) == 0 && k, "child " << i << " of node " << x->uid);
			walk(x->ch[i], k);
		}
	};
	for (G *x : g.nodes) x->node = nullptr;
	walk(g.root, root);
}
static std::multiset<std::string> texts(const std::vector<Ref::Item> &v) {
	std::multiset<std::string> o;
	for (auto &i : v) o.insert(i.text());
	return o;
}

static void import_case(Ctx &c) {
	uint64_t mark = ec::alloc_mark();
	{
		GenOpt o = yaml_opt();
		if (c.s.chance(1, 100)) { o.big = 130; o.w[RE] = o.w[RELEX] = o.w[COND] = 0; c.label("large document"); }
		Grammar g;
		gen_yaml_grammar(c.s, o, g);
		Doc d(c.s);
		std::set<const G *> seen;
		d.count(g.root, seen);
		Emit e(c.s);
		e.doc(d.node(g.root));
		c.d << "grammar " << g.text() << "\n" << e.out;
		int fd = low_fd();
		struct ec_node *root = import_text(e.out);
		CHECK(c, root, "the document is refused, errno " << import_errno);
		CHECK(c, low_fd() == fd, "a file descriptor is left open");
		same_graph(c, g, root, d);
		Names nm = names(g);
		bool cond = false;
		for (G *x : g.nodes) if (x->k == COND) cond = true;
		size_t k = 0;
		bool any = false;
		while (c.s.more(k, 1, 3)) {
			k++;
			Toks in = gen_input(c.s, g, o);
			Ref r;
			if (o.big) r.limit = 1500;
			auto t = r.parse_root(g.root, in);
			if (!r.cond_error) {
				struct ec_strvec *v = to_strvec(in);
				struct ec_pnode *p = ec_parse_strvec(root, v);
				CHECK(c, p, "parse of " << model::show(in) << " fails, errno " << errno);
				std::string got = render(p, nm), want = render(t.get());
				CHECK(c, got == want, "parse of " << model::show(in) << " gives\n" << got << "\n  instead of\n" << want);
				if (t->matched && t->toks.size()) any = true;
				ec_pnode_free(p);
				ec_strvec_free(v);
			}
			if (cond || in.empty()) continue;
			complete_cut(c.s, in, o);
			Ref z;
			z.limit = 6000;
			z.complete_root(g.root, in);
			struct ec_strvec *v = to_strvec(in);
			struct ec_comp *cp = ec_complete_strvec(root, v);
			CHECK(c, cp, "completion fails");
			CHECK(c, texts(actual_items(cp, nm)) == texts(z.items), "completion of " << model::show(in) << " differs");
			ec_comp_free(cp);
			ec_strvec_free(v);
		}
		ec_node_free(root);
		if (g.loops) c.label("recursive grammar");
		if (g.shared) c.label("shared nodes");
		if (any) c.label("a non-empty prefix matched");
		c.nontrivial = g.nodes.size() >= 3;
		for (G *n : g.nodes) c.labels[std::string("has ") + kind_name[n->k]] = 1;
		CHECK(c, ec::alloc().error.empty(), ec::alloc().error);
	}
	std::string l = ec::leaks(mark);
	CHECK(c, l.empty(), "leak " << l);
}

// ------------------------------------------------------ documents to refuse
static void maps(Y &y, bool is_node, std::vector<Y *> &out) {
	if (y.k == Y::MAP) {
		if (is_node) out.push_back(&y);
		for (auto &p : y.m) {
			if (p.first.k != Y::SCALAR) continue;
			if (p.first.s == "child") maps(p.second, true, out);
			if (p.first.s == "children" && p.second.k == Y::SEQ_) for (auto &x : p.second.l) maps(x, true, out);
		}
	}
}
static Y wrong(Src &s) { return s.draw(2) ? Y::seq({Y::str("a")}) : Y::map({{Y::str("a"), Y::str("b")}}); }
// one thing wrong in one node of the document; says what, "" if not applicable
static std::string spoil(Src &s, Y &doc) {
	std::vector<Y *> v;
	maps(doc, true, v);
	Y &y = *v[s.draw(v.size())];
	std::string type = y.get("type")->k == Y::SCALAR ? y.get("type")->s : "";
	if (type.empty()) return "";
	auto add = [&](Y k, Y val) { y.m.insert(y.m.begin() + s.draw(y.m.size() + 1), {k, val}); };
	size_t how = s.draw(15);
	if (type == "re_lex" && s.draw(2)) how = 9; // what few types have
	if ((type == "int" || type == "uint" || type == "many") && s.chance(1, 3)) how = 8;
	switch (how) {
	case 0: y.del("type"); return "type missing";
	case 1: { static const std::vector<std::string> T = {"nosuch", "", "STR", "str ", "seqx", "se"}; *y.get("type") = Y::str(s.pick(T)); return "unknown type"; }
	case 2: *y.get("type") = wrong(s); return "type not scalar";
	case 3: {
		static const std::vector<std::string> K = {"type", "id", "help", "attrs"};
		std::string k = s.pick(K);
		Y val = k == "attrs" ? Y::map({{Y::str("x"), Y::str("y")}}) : k == "type" ? Y::str(type) : Y::str("v");
		if (!y.get(k)) add(Y::str(k), val);
		add(Y::str(k), val);
		return "two " + k;
	}
	case 4: {
		static const std::vector<std::string> K = {"foo", "string", "pattern", "children", "child", "min", "patterns", "expr", "Type", "", "helps", "_x", "typo", "ids", "type2", "child_", "i"};
		std::string k = s.pick(K);
		const struct ec_config_schema *sc = ec_node_type_schema(ec_node_type_lookup(type.c_str()));
		if (y.get(k) || ec_config_schema_lookup(sc, k.c_str())) return "";
		add(Y::str(k), s.draw(2) ? Y::str("1") : wrong(s));
		return "unknown key " + k;
	}
	case 5: { const char *k = s.draw(2) ? "id" : "help"; y.del(k); add(Y::str(k), wrong(s)); return std::string(k) + " not scalar"; }
	case 6: y.del("attrs"); add(Y::str("attrs"), s.draw(2) ? Y::str("x") : Y::seq({Y::str("x")})); return "attrs not a mapping";
	case 7: {
		const char *k = type == "str" ? "string" : type == "re" ? "pattern" : type == "seq" || type == "or" ? "children" : type == "int" || type == "uint" || type == "any" ? nullptr :
			type == "cond" && s.draw(2) ? "expr" : "child";
		if (!k) return "";
		// the anchors defined below would be missed: only aliases may follow
		if (y.get(k)->k == Y::MAP || y.get(k)->k == Y::SEQ_) y.m.clear(), y.m.push_back({Y::str("type"), Y::str(type)});
		else y.del(k);
		return std::string("missing ") + k;
	}
	case 8: {
		if (type != "int" && type != "uint" && type != "many") return "";
		static const std::vector<std::string> K = {"min", "max", "base"};
		static const std::vector<std::string> B = {"", "abc", "1x", "0x", "1 ", "99999999999999999999", "-99999999999999999999", "1.5", "1e3", "--1", " ", "1,0", "18446744073709551616", "08"};
		std::string k = s.pick(K), b = s.pick(B);
		if (type == "many" && k == "base") return "";
		if (type != "int" && s.chance(1, 3)) { static const std::vector<std::string> NB = {"-1", "-0x1", " -1", "\t-1", "+-1", "-18446744073709551615"}; b = s.pick(NB); }
		y.del(k);
		add(Y::str(k), s.chance(1, 4) ? wrong(s) : Y::str(b));
		return "bad integer " + k;
	}
	case 9: {
		if (type != "re_lex") return "";
		Y &l = *y.get("patterns");
		if (s.chance(1, 5)) { l = s.draw(2) ? Y::str("x") : Y::map({{Y::str("pattern"), Y::str("x")}, {Y::str("keep"), Y::str("true")}}); return "patterns not a list"; }
		if (l.k != Y::SEQ_ || l.l.empty()) return "";
		Y &p = l.l[s.draw(l.l.size())];
		if (p.k != Y::MAP) return "";
		static const std::vector<std::string> B = {"", "yes", "1", "truee", "tru", "on", "no", "truex", "true1", "true ", " true", "falsee", "false0", "t", "f"};
		switch (s.draw(6)) {
		case 0: *p.get("keep") = s.chance(1, 4) ? wrong(s) : Y::str(s.pick(B)); return "bad boolean";
		case 1: p.del("keep"); return "missing keep";
		case 2: if (p.get("pattern")->anchor.empty()) { *p.get("pattern") = wrong(s); return "pattern not scalar"; } return "";
		case 3: if (p.get("pattern")->anchor.empty()) { p.del("pattern"); return "missing pattern"; } return "";
		case 4: p.m.push_back({Y::str("foo"), Y::str("x")}); return "unknown key in pattern";
		default: p = Y::str("x"); return "pattern not a mapping";
		}
	}
	case 10: {
		const char *k = type == "str" ? "string" : type == "re" ? "pattern" : type == "cond" ? "expr" : type == "any" ? "attr" : nullptr;
		if (!k) return "";
		y.del(k);
		add(Y::str(k), wrong(s));
		return std::string(k) + " not scalar";
	}
	case 11: {
		Y *ch = y.get("child");
		if (ch) { Y x = s.draw(2) ? Y::str("x") : Y::seq({*ch}); if (ch->anchor.empty() || x.k == Y::SEQ_) { *ch = x; return "child not a mapping"; } return ""; }
		ch = y.get("children");
		if (!ch) return "";
		switch (s.draw(3)) {
		case 0: ch->l.insert(ch->l.begin() + s.draw(ch->l.size() + 1), s.draw(2) ? Y::str("x") : Y::seq({})); return "element of children not a mapping";
		case 1: if (ch->l.empty()) { *ch = Y::str("x"); return "children scalar"; } return "";
		default: if (ch->l.size() == 1) { Y x = ch->l[0]; *ch = x; return x.k == Y::MAP ? "children a mapping" : ""; } return "";
		}
	}
	case 12: add(wrong(s), Y::str("x")); return "key not scalar";
	case 13: y.del("attrs"); add(Y::str("attrs"), Y::map({{wrong(s), Y::str("x")}})); return "attribute key not scalar";
	default: y.del("attrs"); add(Y::str("attrs"), Y::map({{Y::str("ok"), Y::str("x")}, {Y::str("x"), wrong(s)}})); return "attribute not scalar";
	}
}
static void refuse_case(Ctx &c) {
	uint64_t mark = ec::alloc_mark();
	{
		GenOpt o = yaml_opt();
		o.depth = 3;
		o.w[RELEX] = 6;
		Grammar g;
		gen_yaml_grammar(c.s, o, g);
		Doc d(c.s);
		std::set<const G *> seen;
		d.count(g.root, seen);
		Y y = d.node(g.root);
		Emit e(c.s);
		std::string why;
		switch (c.s.weighted({20, 1, 1, 1, 1})) {
		case 0: why = spoil(c.s, y); if (why.empty()) throw Discard(); e.doc(y); break;
		case 1: why = "root not a mapping"; e.doc(c.s.draw(2) ? Y::str("x") : Y::seq({y})); break;
		case 2: { why = "empty document"; static const std::vector<std::string> E = {"", "\n", "# only\n", "---\n", "   "}; e.out = c.s.pick(E); break; }
		case 3: { why = "syntax"; static const std::vector<std::string> E = {"{", "[", "'", "\"", "{type: str, string: x", "- [", "*nosuch", "{type: *u}", "\t- x: y", "a: b: c", "%FOO", "type: str\n string: x\n", "\xff\xfe", "\x01", "@a", "\"\\q\"", "&a &b c", "key: [unclosed\nother: x"}; e.out = c.s.pick(E); break; }
		default: why = "undefined alias"; y.m.push_back({Y::str("attrs"), Y::alias("undefined")}); e.doc(y); break;
		}
		c.d << why << "\n" << e.out << "\n";
		c.label(why);
		int fd = low_fd();
		struct ec_node *root = import_text(e.out);
		CHECK(c, !root, "accepted: " << why);
		CHECK(c, import_errno > 0, "errno is not set: " << why);
		CHECK(c, low_fd() == fd, "a file descriptor is left open");
		c.nontrivial = g.nodes.size() >= 2;
		CHECK(c, ec::alloc().error.empty(), ec::alloc().error);
	}
	std::string l = ec::leaks(mark);
	CHECK(c, l.empty(), "leak " << l);
}

// ----------------------------------------- files that cannot be read, faults
static Suite *suite;
static void nomem_case(Ctx &c) {
	uint64_t mark = ec::alloc_mark();
	{
		GenOpt o = yaml_opt();
		o.depth = 2;
		Grammar g;
		gen_yaml_grammar(c.s, o, g);
		Doc d(c.s);
		std::set<const G *> seen;
		d.count(g.root, seen);
		Emit e(c.s);
		e.doc(d.node(g.root));
		c.d << "grammar " << g.text() << "\n" << e.out;
		ec::Alloc &a = ec::alloc();
		uint64_t a0 = a.n_alloc;
		struct ec_node *root = import_text(e.out);
		CHECK(c, root, "the document is refused, errno " << import_errno);
		uint64_t n = a.n_alloc - a0;
		ec_node_free(root);
		bool burst = c.s.draw(2);
		uint64_t step = n > 60 ? n / 40 : 1;
		for (uint64_t i = 1 + c.s.draw(step); i <= n; i += step) {
			uint64_t m2 = ec::alloc_mark();
			int fd = low_fd();
			a.n_failed = 0;
			a.fail_from = a.n_alloc + i;
			a.fail_to = burst ? UINT64_MAX : a.fail_from;
			root = import_text(e.out);
			a.fail_from = a.fail_to = 0;
			if (!root) CHECK(c, import_errno > 0, "allocation " << i << " fails, errno is not set");
			else { same_graph(c, g, root, d); ec_node_free(root); }
			CHECK(c, low_fd() == fd, "a file descriptor is left open when allocation " << i << " fails");
			std::string l = ec::leaks(m2);
			CHECK(c, l.empty(), "leak when allocation " << i << " of " << n << " fails: " << l);
		}
		c.nontrivial = n >= 10;
		// what cannot be read at all
		std::string p = suite->tmp + "/none";
		errno = 0;
		CHECK(c, !ec_yaml_import(p.c_str()) && errno == ENOENT, "file that does not exist: errno " << errno);
		errno = 0;
		CHECK(c, !ec_yaml_import(suite->tmp.c_str()) && errno > 0, "directory: errno " << errno);
		CHECK(c, ec::alloc().error.empty(), ec::alloc().error);
	}
	std::string l = ec::leaks(mark);
	CHECK(c, l.empty(), "leak " << l);
}

// ---------------------------------------------------------------- any bytes
static void bytes_case(Ctx &c) {
	uint64_t mark = ec::alloc_mark();
	{
		GenOpt o = yaml_opt();
		o.depth = 3;
		Grammar g;
		gen_yaml_grammar(c.s, o, g);
		Doc d(c.s);
		std::set<const G *> seen;
		d.count(g.root, seen);
		Emit e(c.s);
		Y y = d.node(g.root);
		if (c.s.draw(2)) spoil(c.s, y);
		e.doc(y);
		std::string t = e.out;
		size_t k = 0;
		static const std::vector<std::string> BITS = {"{", "}", "[", "]", ",", ":", " ", "\n", "*n0 ", "&n0 ", "*n1", "- ", "? ", "type: ", "child: ", "children: ", "id: ", "attrs: ", "help: ", "\"", "'", "\t", "seq", "cmd", "expr: ", "file", "subset", "!!x ", "| \n", "<<: *n0", "sh_lex", "dynamic", "space", "min: ", "keep: ", "-", "0", "\xc3", "\xff", "..."};
		while (c.s.more(k, 1, 10)) {
			k++;
			size_t at = c.s.draw(t.size() + 1);
			switch (c.s.draw(4)) {
			case 0: t.insert(at, c.s.pick(BITS)); break;
			case 1: t.erase(at, 1 + c.s.draw(8)); break;
			case 2: if (at < t.size()) t[at] = (char)c.s.draw(256); break;
			default: { size_t from = c.s.draw(t.size() + 1), n = c.s.draw(40); std::string cp = t.substr(from, n); t.insert(at, cp); break; }
			}
		}
		c.d << q(t) << "\n";
		int fd = low_fd();
		struct ec_node *root = import_text(t);
		if (!root) { CHECK(c, import_errno > 0, "refused, errno is not set"); c.label("refused"); }
		else {
			c.label("accepted");
			// usable: enumeration of the graph terminates and every node is configured
			std::set<struct ec_node *> vis;
			std::vector<struct ec_node *> todo = {root};
			while (!todo.empty()) {
				struct ec_node *n = todo.back();
				todo.pop_back();
				if (!vis.insert(n).second) continue;
				CHECK(c, ec_node_get_config(n), "node " << q(ec_node_id(n)) << " of type " << ec_node_type_name(ec_node_type(n)) << " is not configured");
				size_t m = ec_node_get_children_count(n);
				for (size_t i = 0; i < m; i++) { struct ec_node *x = nullptr; unsigned rf; if (ec_node_get_child(n, i, &x, &rf) == 0 && x) todo.push_back(x); }
			}
			ec_node_free(root);
		}
		CHECK(c, low_fd() == fd, "a file descriptor is left open");
		c.nontrivial = g.nodes.size() >= 2;
		CHECK(c, ec::alloc().error.empty(), ec::alloc().error);
	}
	std::string l = ec::leaks(mark);
	CHECK(c, l.empty(), "leak " << l);
}

int main(int argc, char **argv) {
	Suite s;
	suite = &s;
	s.id = "C17";
	s.rule = "a document of at least 2 or 3 nodes (10 allocations for faults)";
	s.init = [] {
		ec::lib_init();
		FILE *f = fopen("/dev/null", "w");
		if (f) stderr = f; // the importer reports errors on stderr
	};
	s.assumptions = {"libyaml parses YAML correctly", "node types without configuration schema cannot be imported; whether they should is not specified"};
	s.targets.push_back({"import", import_case, 25000, 500000});
	s.targets.push_back({"refuse", refuse_case, 80000, 500000});
	s.targets.push_back({"nomem", nomem_case, 1500, 30000});
	s.targets.push_back({"bytes", bytes_case, 20000, 500000});
	return run_main(argc, argv, s);
}
