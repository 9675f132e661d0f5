// Configurations: values, lists and dictionaries vs. a model; schema
// validation vs. a reference validator; configuration of nodes.
#include "model.hpp"
#include <algorithm>
#include <regex.h>
using namespace pbt;

enum T { TNONE, TBOOL, TI64, TU64, TSTR, TNODE, TLIST, TDICT };
static const char *TN[] = {"none", "bool", "int64", "uint64", "string", "node", "list", "dict"};
struct M {
	T t = TBOOL;
	uint64_t n = 0;
	std::string s;                   // string
	struct ec_node *node = nullptr;  // node (borrowed pointer)
	std::vector<M> l;
	std::map<std::string, M> d;
	bool operator==(const M &o) const { return t == o.t && n == o.n && s == o.s && node == o.node && l == o.l && d == o.d; }
	std::string text() const {
		switch (t) {
		case TBOOL: return n ? "true" : "false";
		case TI64: return std::to_string((int64_t)n);
		case TU64: return std::to_string(n) + "u";
		case TSTR: return q(s);
		case TNODE: return "<node>";
		case TLIST: { std::string r = "["; for (auto &x : l) r += (r.size() > 1 ? ", " : "") + x.text(); return r + "]"; }
		case TDICT: { std::string r = "{"; for (auto &x : d) r += (r.size() > 1 ? ", " : "") + x.first + ": " + x.second.text(); return r + "}"; }
		default: return "none";
		}
	}
};
static std::vector<struct ec_node *> g_nodes; // pool, one reference each
static const std::vector<std::string> KEYS = {"a", "b", "c", "key", "", "id", "type", "child", "x y"};
static const std::vector<std::string> STRS = {"", "a", "b", "foo", "1", "%s%n", "\xc3\xa9", "true"};
static uint64_t num(Ctx &c) {
	static const std::vector<uint64_t> V = {0, 1, 2, 10, UINT64_MAX, INT64_MAX, (uint64_t)INT64_MIN, 4294967295u, 4294967296u};
	return c.s.pick(V);
}
static bool g_big; // large values are generated too
static M gen(Ctx &c, int depth) {
	M m;
	if (g_big && depth > 1 && c.s.chance(1, 3)) {
		static const size_t K[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300};
		size_t n = K[c.s.draw(17)];
		switch (c.s.draw(4)) {
		case 0: {
			m.t = TLIST;
			M x = gen(c, 0), y = gen(c, 0);
			for (size_t i = 0; i < n; i++) m.l.push_back(i % 3 ? x : y);
			break;
		}
		case 1: {
			m.t = TDICT;
			M x = gen(c, 0), y = gen(c, 0);
			for (size_t i = 0; i < n; i++) m.d["k" + std::to_string(i)] = i % 3 ? x : y;
			break;
		}
		case 2:
			m = gen(c, 0);
			for (size_t i = 0; i < n; i++) {
				M x;
				if (i % 5) { x.t = TLIST; x.l.push_back(m); } else { x.t = TDICT; x.d["n"] = m; }
				m = x;
			}
			break;
		default: m.t = TSTR; m.s = std::string(n * (1 + c.s.draw(20)), "ab"[c.s.draw(2)]) + (c.s.draw(2) ? "c" : "");
		}
		return m;
	}
	m.t = (T)(1 + c.s.weighted({3, 3, 3, 3, 2, depth > 0 ? 3u : 0u, depth > 0 ? 3u : 0u}));
	switch (m.t) {
	case TBOOL: m.n = c.s.draw(2); break;
	case TI64: case TU64: m.n = num(c); break;
	case TSTR: m.s = c.s.pick(STRS); break;
	case TNODE: m.node = c.s.pick(g_nodes); break;
	case TLIST: while (c.s.more(m.l.size(), 0, 4)) m.l.push_back(gen(c, depth - 1)); break;
	case TDICT: { size_t k = 0; while (c.s.more(k++, 0, 4)) m.d[c.s.pick(KEYS)] = gen(c, depth - 1); break; }
	default: break;
	}
	return m;
}
static struct ec_config *mk(const M &m) {
	switch (m.t) {
	case TBOOL: return ec_config_bool(m.n);
	case TI64: return ec_config_i64(m.n);
	case TU64: return ec_config_u64(m.n);
	case TSTR: return ec_config_string(m.s.c_str());
	case TNODE: return ec_config_node(ec_node_clone(m.node));
	case TLIST: { auto *r = ec_config_list(); for (auto &x : m.l) if (ec_config_list_add(r, mk(x)) < 0) abort(); return r; }
	case TDICT: { auto *r = ec_config_dict(); for (auto &x : m.d) if (ec_config_dict_set(r, x.first.c_str(), mk(x.second)) < 0) abort(); return r; }
	default: return nullptr;
	}
}
// full comparison through the public structure and accessors
static void same(Ctx &c, struct ec_config *a, const M &m, const std::string &what) {
	CHECK(c, a, what << ": missing value, expected " << m.text());
	CHECK(c, (int)ec_config_get_type(a) == (int)m.t, what << ": type " << ec_config_get_type(a) << ", expected " << TN[m.t]);
	errno = 0;
	ssize_t n = ec_config_count(a);
	switch (m.t) {
	case TBOOL: CHECK(c, a->boolean == !!m.n, what); break;
	case TI64: CHECK(c, a->i64 == (int64_t)m.n, what << ": " << a->i64); break;
	case TU64: CHECK(c, a->u64 == m.n, what << ": " << a->u64); break;
	case TSTR: CHECK(c, a->string && m.s == a->string, what << ": " << q(a->string) << ", expected " << q(m.s)); break;
	case TNODE: CHECK(c, a->node == m.node, what << ": another node"); break;
	case TLIST: {
		CHECK(c, n == (ssize_t)m.l.size(), what << ": " << n << " elements, expected " << m.l.size());
		struct ec_config *e = ec_config_list_first(a);
		for (size_t i = 0; i < m.l.size(); i++, e = ec_config_list_next(a, e)) same(c, e, m.l[i], what + "[" + std::to_string(i) + "]");
		CHECK(c, e == nullptr, what << ": more elements than expected");
		return;
	}
	case TDICT:
		CHECK(c, n == (ssize_t)m.d.size(), what << ": " << n << " entries, expected " << m.d.size());
		for (auto &x : m.d) same(c, ec_config_dict_get(a, x.first.c_str()), x.second, what + "." + x.first);
		errno = 0;
		CHECK(c, ec_config_dict_get(a, "absent") == nullptr && errno == ENOENT, what << ": absent key, errno " << errno);
		return;
	default: break;
	}
	CHECK(c, n == -1, what << ": count of a scalar is " << n);
	errno = 0;
	CHECK(c, ec_config_dict_get(a, "a") == nullptr && errno == EINVAL, what << ": a key was found in a scalar");
	CHECK(c, ec_config_list_first(a) == nullptr, what << ": a scalar has list elements");
}
static void lines(const M &m, const std::string *key, int indent, std::multiset<std::string> &out) {
	std::string s(indent * 4, ' ');
	if (key) s += "key=" + *key + " ";
	s += std::string("type=") + TN[m.t];
	char b[64];
	switch (m.t) {
	case TBOOL: s += m.n ? " val=true" : " val=false"; break;
	case TI64: s += " val=" + std::to_string((int64_t)m.n); break;
	case TU64: s += " val=" + std::to_string(m.n); break;
	case TSTR: s += " val=" + m.s; break;
	case TNODE: snprintf(b, sizeof b, " val=%p", (void *)m.node); s += b; break;
	default: break;
	}
	out.insert(s);
	for (auto &x : m.l) lines(x, nullptr, indent + 1, out);
	for (auto &x : m.d) lines(x.second, &x.first, indent + 1, out);
}
static std::multiset<std::string> split(const std::string &s) {
	std::multiset<std::string> r;
	size_t a = 0;
	while (a < s.size()) { size_t b = s.find('\n', a); if (b == std::string::npos) b = s.size(); std::string l = s.substr(a, b - a); if (l.compare(0, 5, "-----") != 0) r.insert(l); a = b + 1; }
	return r;
}
template <class F> static std::string dumped(F f) {
	char *b = nullptr; size_t n = 0;
	FILE *o = open_memstream(&b, &n);
	f(o);
	fclose(o);
	std::string s(b, n);
	free(b);
	return s;
}
struct Pool {
	Pool() { for (int i = 0; i < 3; i++) g_nodes.push_back(ec_node_str(("n" + std::to_string(i)).c_str(), "x")); }
	~Pool() { for (auto *n : g_nodes) ec_node_free(n); g_nodes.clear(); }
};

// all the containers of a tree, paired with the model
struct Ref { struct ec_config *a; M *m; };
static void walk(struct ec_config *a, M &m, std::vector<Ref> &out) {
	out.push_back({a, &m});
	if (m.t == TLIST) { auto *e = ec_config_list_first(a); for (auto &x : m.l) { walk(e, x, out); e = ec_config_list_next(a, e); } }
	if (m.t == TDICT) for (auto &x : m.d) walk(ec_config_dict_get(a, x.first.c_str()), x.second, out);
}

static void ops_case(Ctx &c) {
	uint64_t mark = ec::alloc_mark();
	g_big = c.s.chance(1, 50);
	if (g_big) c.label("large values");
	{
		Pool pool;
		std::vector<struct ec_config *> cs;
		std::vector<M> ms;
		size_t ops = 0, dups = 0;
		while (c.s.more(ops, 1, 30, 14, 15)) {
			ops++;
			std::string what;
			size_t k = cs.empty() ? 0 : c.s.weighted({2, 4, 4, 2, 2, 3, 2, 1, 2});
			size_t i = cs.empty() ? 0 : c.s.draw(cs.size());
			if (k == 0) {
				M m = gen(c, 3);
				what = "c" + std::to_string(cs.size()) + " = " + m.text();
				cs.push_back(mk(m));
				ms.push_back(m);
			} else if (k == 3) {
				struct ec_config *d = ec_config_dup(cs[i]);
				what = "c" + std::to_string(cs.size()) + " = dup(c" + std::to_string(i) + ")";
				CHECK(c, d, what);
				cs.push_back(d); ms.push_back(M(ms[i]));
				dups++;
			} else if (k == 7) {
				what = "free(c" + std::to_string(i) + ")";
				ec_config_free(cs[i]);
				cs.erase(cs.begin() + i); ms.erase(ms.begin() + i);
			} else if (k == 8) {
				what = "dump(c" + std::to_string(i) + ")";
				std::string got = dumped([&](FILE *f) { ec_config_dump(f, cs[i]); });
				std::multiset<std::string> want;
				lines(ms[i], nullptr, 0, want);
				CHECK(c, split(got) == want, what << " of " << ms[i].text() << " gives\n" << got);
			} else {
				std::vector<Ref> all;
				walk(cs[i], ms[i], all);
				// favour the containers
				std::vector<Ref> cont;
				for (auto &r : all) if (r.m->t == TLIST || r.m->t == TDICT) cont.push_back(r);
				Ref r = !cont.empty() && c.s.draw(6) ? cont[c.s.draw(cont.size())] : all[c.s.draw(all.size())];
				std::string key = c.s.pick(KEYS);
				errno = 0;
				if (k == 1) {
					M m = gen(c, 2);
					what = "c" + std::to_string(i) + ": list_add(" + r.m->text() + ", " + m.text() + ")";
					int x = ec_config_list_add(r.a, mk(m));
					if (r.m->t == TLIST) { CHECK(c, x == 0, what); r.m->l.push_back(m); } else CHECK(c, x == -1 && errno == EINVAL, what << " returns " << x << " errno " << errno);
				} else if (k == 2) {
					M m = gen(c, 2);
					what = "c" + std::to_string(i) + ": dict_set(" + r.m->text() + ", " + key + ", " + m.text() + ")";
					int x = ec_config_dict_set(r.a, key.c_str(), mk(m));
					if (r.m->t == TDICT) { CHECK(c, x == 0, what); r.m->d[key] = m; } else CHECK(c, x == -1 && errno == EINVAL, what << " returns " << x << " errno " << errno);
				} else if (k == 4) {
					what = "c" + std::to_string(i) + ": dict_del(" + r.m->text() + ", " + key + ")";
					int x = ec_config_dict_del(r.a, key.c_str());
					if (r.m->t != TDICT) CHECK(c, x == -1 && errno == EINVAL, what << " returns " << x << " errno " << errno);
					else if (!r.m->d.count(key)) CHECK(c, x == -1 && errno == ENOENT, what << " returns " << x << " errno " << errno);
					else { CHECK(c, x == 0, what); r.m->d.erase(key); }
				} else if (k == 5) {
					what = "c" + std::to_string(i) + ": list_del(" + r.m->text() + ")";
					if (r.m->t == TLIST && !r.m->l.empty()) {
						size_t at = c.s.draw(r.m->l.size());
						auto *e = ec_config_list_first(r.a);
						for (size_t z = 0; z < at; z++) e = ec_config_list_next(r.a, e);
						CHECK(c, ec_config_list_del(r.a, e) == 0, what);
						r.m->l.erase(r.m->l.begin() + at);
					} else if (r.m->t != TLIST) CHECK(c, ec_config_list_del(r.a, nullptr) == -1 && errno == EINVAL, what << ": errno " << errno);
				} else {
					what = "invalid arguments";
					M m = gen(c, 1);
					CHECK(c, ec_config_list_add(nullptr, mk(m)) == -1 && errno == EINVAL, "list_add(NULL)");
					errno = 0;
					CHECK(c, ec_config_dict_set(nullptr, "a", mk(m)) == -1 && errno == EINVAL, "dict_set(NULL)");
					errno = 0;
					CHECK(c, ec_config_dict_set(r.a, nullptr, mk(m)) == -1 && errno == EINVAL, "dict_set(key NULL)");
					errno = 0;
					CHECK(c, ec_config_dict_set(r.a, "a", nullptr) == -1 && errno == EINVAL, "dict_set(value NULL)");
					errno = 0;
					CHECK(c, ec_config_list_add(r.a, nullptr) == -1 && errno == EINVAL, "list_add(value NULL)");
					errno = 0;
					CHECK(c, ec_config_dict_del(nullptr, "a") == -1 && errno == EINVAL, "dict_del(NULL): errno " << errno);
					errno = 0;
					CHECK(c, ec_config_list_del(nullptr, nullptr) == -1 && errno == EINVAL, "list_del(NULL): errno " << errno);
					errno = 0;
					CHECK(c, ec_config_dup(nullptr) == nullptr && errno == EINVAL, "dup(NULL)");
					errno = 0;
					CHECK(c, ec_config_string(nullptr) == nullptr && errno == EINVAL, "string(NULL): errno " << errno);
					errno = 0;
					CHECK(c, ec_config_node(nullptr) == nullptr && errno == EINVAL, "node(NULL): errno " << errno);
					CHECK(c, ec_config_cmp(cs[i], nullptr) != 0 && ec_config_cmp(nullptr, cs[i]) != 0, "cmp(NULL)");
					ec_config_free(nullptr);
				}
			}
			c.d << what << "\n";
			for (size_t z = 0; z < cs.size(); z++) {
				same(c, cs[z], ms[z], "after " + what + ": c" + std::to_string(z));
				for (size_t y = 0; y < cs.size(); y++) CHECK(c, (ec_config_cmp(cs[z], cs[y]) == 0) == (ms[z] == ms[y]),
					"after " << what << ": cmp(" << ms[z].text() << ", " << ms[y].text() << ") is " << ec_config_cmp(cs[z], cs[y]));
			}
			CHECK(c, ec::alloc().error.empty(), ec::alloc().error);
		}
		c.nontrivial = ops >= 4 && dups >= 1;
		for (auto *x : cs) ec_config_free(x);
	}
	std::string l = ec::leaks(mark);
	CHECK(c, l.empty(), "leak " << l);
}

// ------------------------------------------------------------- schemas
struct S { std::string key; bool has_key = true; T t = TBOOL; bool has_sub = false; std::vector<S> sub; };
struct Schemas { std::deque<std::vector<struct ec_config_schema>> arr; std::deque<std::string> str; };
static const struct ec_config_schema *mks(Schemas &a, const std::vector<S> &v) {
	std::vector<struct ec_config_schema> r;
	for (auto &s : v) {
		struct ec_config_schema e = {};
		if (s.has_key) { a.str.push_back(s.key); e.key = a.str.back().c_str(); }
		e.desc = "d";
		e.type = (enum ec_config_type)s.t;
		if (s.has_sub) e.subschema = mks(a, s.sub);
		r.push_back(e);
	}
	r.push_back({});
	a.arr.push_back(r);
	return a.arr.back().data();
}
static bool reserved(const std::string &k) { return k == "id" || k == "attrs" || k == "help" || k == "type"; }
static bool valid(const std::vector<S> &v, bool list) {
	if (list) { if (v.size() != 1 || v[0].has_key) return false; }
	else {
		std::set<std::string> seen;
		for (auto &s : v) { if (!s.has_key || reserved(s.key) || !seen.insert(s.key).second) return false; }
	}
	for (auto &s : v) {
		if (s.t == TLIST) { if (!s.has_sub || !valid(s.sub, true)) return false; }
		else if (s.t == TDICT) { if (!s.has_sub || s.sub.empty() || !valid(s.sub, false)) return false; }
		else if ((int)s.t < 1 || (int)s.t > 7 || s.has_sub) return false;
	}
	return true;
}
static std::string stext(const std::vector<S> &v) {
	std::string r = "{";
	for (auto &s : v) r += (r.size() > 1 ? ", " : "") + (s.has_key ? s.key + ":" : std::string("-:")) + ((int)s.t <= 7 ? TN[s.t] : "?") + (s.has_sub ? stext(s.sub) : "");
	return r + "}";
}
static std::vector<S> gens(Ctx &c, int depth, bool list, bool wild) {
	static const std::vector<std::string> K = {"a", "b", "c", "key", "child", "id", "attrs", "help", "type"};
	std::vector<S> v;
	size_t lo = list ? 1 : depth == 4 ? 0 : 1, hi = list ? 1 : 4;
	if (wild && c.s.chance(1, 10)) { lo = 0; hi = 3; }
	while (c.s.more(v.size(), lo, hi)) {
		S s;
		s.has_key = !list;
		if (wild && c.s.chance(1, 12)) s.has_key = !s.has_key;
		s.key = wild && c.s.chance(1, 10) ? K[c.s.draw(K.size())] : K[c.s.draw(5)];
		if (!wild) { bool dup = false; for (auto &o : v) dup |= o.key == s.key; if (dup && !list) { if (v.size() >= 1 && v.size() >= lo) break; continue; } }
		s.t = (T)(1 + c.s.weighted({2, 2, 2, 2, 2, depth > 0 ? 3u : 0u, depth > 0 ? 3u : 0u}));
		if (wild && c.s.chance(1, 20)) s.t = (T)8;
		s.has_sub = s.t == TLIST || s.t == TDICT;
		if (wild && c.s.chance(1, 12)) s.has_sub = !s.has_sub;
		if (s.has_sub) s.sub = gens(c, depth - 1, s.t == TLIST, wild);
		v.push_back(s);
	}
	return v;
}
static bool conforms(const M &m, const std::vector<S> &v) { // dict
	for (auto &x : m.d) {
		const S *s = nullptr;
		for (auto &e : v) if (e.key == x.first) { s = &e; break; }
		if (!s || s->t != x.second.t) return false;
		if (s->t == TDICT && !conforms(x.second, s->sub)) return false;
		if (s->t == TLIST) {
			std::function<bool(const M &, const S &)> lst = [&](const M &l, const S &e) {
				for (auto &y : l.l) {
					if (y.t != e.t) return false;
					if (e.t == TLIST && !lst(y, e.sub[0])) return false;
					if (e.t == TDICT && !conforms(y, e.sub)) return false;
				}
				return true;
			};
			if (!lst(x.second, s->sub[0])) return false;
		}
	}
	return true;
}
// value following the schema, sometimes mutated
static M follow(Ctx &c, const S &s, bool mut);
static M follow_dict(Ctx &c, const std::vector<S> &v, bool mut) {
	M m;
	m.t = TDICT;
	for (auto &s : v) if (c.s.draw(4)) m.d[s.key] = follow(c, s, mut);
	if (mut && c.s.chance(1, 6)) m.d[c.s.pick(KEYS)] = gen(c, 1);
	return m;
}
static M follow(Ctx &c, const S &s, bool mut) {
	if (mut && c.s.chance(1, 8)) return gen(c, 2);
	M m;
	m.t = s.t;
	switch (s.t) {
	case TBOOL: m.n = c.s.draw(2); break;
	case TI64: case TU64: m.n = num(c); break;
	case TSTR: m.s = c.s.pick(STRS); break;
	case TNODE: m.node = c.s.pick(g_nodes); break;
	case TLIST: while (c.s.more(m.l.size(), 0, 4)) m.l.push_back(follow(c, s.sub[0], mut)); break;
	case TDICT: m = follow_dict(c, s.sub, mut); break;
	default: break;
	}
	return m;
}
static void schema_case(Ctx &c) {
	uint64_t mark = ec::alloc_mark();
	{
		Pool pool;
		Schemas a;
		bool wild = c.s.draw(2);
		std::vector<S> v = gens(c, 4, false, wild);
		c.d << "schema " << stext(v) << "\n";
		const struct ec_config_schema *s = mks(a, v);
		errno = 0;
		int r = ec_config_schema_validate(s);
		bool ok = valid(v, false);
		CHECK(c, (r == 0) == ok, "the schema is " << (ok ? "valid" : "invalid") << ", validation returns " << r);
		if (r) CHECK(c, errno > 0, "errno is not set");
		c.label(ok ? "valid schema" : "invalid schema");
		if (ok) {
			for (auto &k : KEYS) {
				const S *e = nullptr;
				for (auto &x : v) if (x.key == k) { e = &x; break; }
				errno = 0;
				const struct ec_config_schema *f = ec_config_schema_lookup(s, k.c_str());
				CHECK(c, !!f == !!e, "lookup of " << q(k));
				if (f) CHECK(c, (int)ec_config_schema_type(f) == (int)e->t && !!ec_config_schema_sub(f) == e->has_sub && k == f->key, "lookup of " << q(k));
				else CHECK(c, errno == ENOENT, "lookup: errno " << errno);
				CHECK(c, ec_config_key_is_reserved(k.c_str()) == reserved(k), "reserved keys");
			}
			std::string d = dumped([&](FILE *f) { ec_config_schema_dump(f, s); });
			for (auto &x : v) CHECK(c, d.find("key=" + x.key + " type=" + TN[x.t]) != std::string::npos, "the dump lacks " << x.key << ":\n" << d);
			for (int i = 0; i < 3; i++) {
				M m = c.s.chance(1, 8) ? gen(c, 3) : follow_dict(c, v, c.s.draw(2));
				c.d << "config " << m.text() << "\n";
				struct ec_config *x = mk(m);
				errno = 0;
				r = ec_config_validate(x, s);
				ok = m.t == TDICT && conforms(m, v);
				CHECK(c, (r == 0) == ok, "the configuration " << m.text() << (ok ? " follows" : " does not follow") << " the schema, validation returns " << r);
				if (r) CHECK(c, errno > 0, "errno is not set");
				c.label(ok ? "valid config" : "invalid config");
				c.nontrivial = c.nontrivial || (m.t == TDICT && m.d.size() >= 2);
				same(c, x, m, "after validation");
				ec_config_free(x);
			}
		}
	}
	std::string l = ec::leaks(mark);
	CHECK(c, l.empty(), "leak " << l);
}

// ------------------------------------------------- configuration of nodes
static std::vector<S> from_schema(const struct ec_config_schema *s) {
	std::vector<S> v;
	for (; s->type != EC_CONFIG_TYPE_NONE; s++) {
		S e;
		e.has_key = !!s->key;
		if (s->key) e.key = s->key;
		e.t = (T)s->type;
		e.has_sub = !!s->subschema;
		if (s->subschema) e.sub = from_schema(s->subschema);
		v.push_back(e);
	}
	return v;
}
static bool re_ok(const std::string &s) { regex_t r; if (regcomp(&r, s.c_str(), REG_EXTENDED)) return false; regfree(&r); return true; }
static const std::vector<std::string> TYPES = {"str", "int", "uint", "re", "any", "option", "once", "bypass", "many", "seq", "or", "re_lex", "cond", "cmd"};
static const std::vector<std::string> RES = {"x", "[0-9]+", "a|x", "(", "x*", "[", "a{2,1}"}, CONDS = {"cmp(eq, 1, 1)", "find(root(), n0)", "cmp(", "1", "", "f(x"}, CMDS = {"x", "n0", "n0 n1", "x|n2", "x [n1]", "(", "n0,n1", "a|", "", "n0+"};
// expected acceptance of a configuration that follows the schema
static bool accepted(const std::string &t, const M &m) {
	auto has = [&](const char *k) { return m.d.count(k) > 0; };
	if (t == "str") return has("string");
	if (t == "int") return !(has("min") && has("max") && (int64_t)m.d.at("min").n > (int64_t)m.d.at("max").n);
	if (t == "uint") return !(has("min") && has("max") && m.d.at("min").n > m.d.at("max").n);
	if (t == "re") return has("pattern") && re_ok(m.d.at("pattern").s);
	if (t == "any") return true;
	if (t == "option" || t == "once" || t == "bypass") return has("child");
	if (t == "many") return has("child") && !(has("min") && m.d.at("min").n >= UINT_MAX) && !(has("max") && m.d.at("max").n >= UINT_MAX);
	if (t == "seq" || t == "or") return has("children");
	if (t == "re_lex") {
		if (!has("child")) return false;
		if (has("patterns")) for (auto &p : m.d.at("patterns").l) if (!p.d.count("pattern") || !p.d.count("keep") || !re_ok(p.d.at("pattern").s)) return false;
		return true;
	}
	if (t == "cond") { if (!has("expr") || !has("child")) return false; const std::string &e = m.d.at("expr").s; return e == CONDS[0] || e == CONDS[1] || e == "1"; }
	if (t == "cmd") { if (!has("expr") || !has("children")) return false; const std::string &e = m.d.at("expr").s; return e != "(" && e != "a|" && e != ""; }
	return true;
}
static M node_config(Ctx &c, const std::string &t, const std::vector<S> &v, bool mut) {
	M m = follow_dict(c, v, mut);
	// meaningful values
	auto str = [&](M &d, const char *k, const std::vector<std::string> &l) { auto it = d.d.find(k); if (it != d.d.end() && it->second.t == TSTR) it->second.s = c.s.pick(l); };
	if (t == "re") str(m, "pattern", RES);
	if (t == "cond") str(m, "expr", CONDS);
	if (t == "cmd") str(m, "expr", CMDS);
	if (t == "str") { static const std::vector<std::string> X = {"x", "", "foo"}; str(m, "string", X); }
	if (t == "re_lex" && m.d.count("patterns") && m.d["patterns"].t == TLIST) for (auto &p : m.d["patterns"].l) if (p.t == TDICT) {
		static const std::vector<std::string> X = {"x", " ", "[0-9]+", "(", "foo"};
		if (!p.d.count("keep") && c.s.draw(4)) { M b; b.t = TBOOL; b.n = 1; p.d["keep"] = b; }
		if (!p.d.count("pattern") && c.s.draw(4)) { M b; b.t = TSTR; p.d["pattern"] = b; }
		str(p, "pattern", X);
	}
	if (m.d.count("base") && m.d["base"].t == TU64) m.d["base"].n = c.s.draw(2) ? 10 : 0;
	if (t == "many") for (const char *k : {"min", "max"}) if (m.d.count(k) && m.d[k].t == TU64 && c.s.draw(3)) m.d[k].n = c.s.draw(4);
	return m;
}
static std::string behave(struct ec_node *n) {
	static const std::vector<std::vector<std::string>> IN = {{}, {"x"}, {"x", "x"}, {"x", "x", "x"}, {"y"}, {""}, {"1"}, {"-1"}, {"18446744073709551615"}, {"5"}, {"x 1 foo"}, {"foo"}, {"a"}, {"aa"}, {"x", "a"}};
	std::string r;
	for (auto &v : IN) {
		struct ec_strvec *s = ec::mk(v);
		struct ec_pnode *p = ec_parse_strvec(n, s);
		r += p ? ec_pnode_matches(p) ? std::to_string(ec_pnode_len(p)) : "-" : "E" + std::to_string(errno);
		if (p) r += dumped([&](FILE *f) { for (struct ec_pnode *x = p; x; x = EC_PNODE_ITER_NEXT(p, x, 1)) fprintf(f, "/%s", ec_node_id(ec_pnode_get_node(x))); });
		ec_pnode_free(p);
		if (v.size()) {
			struct ec_comp *k = ec_complete_strvec(n, s);
			r += "c";
			if (k) { struct ec_comp_item *it; EC_COMP_FOREACH(it, k, EC_COMP_ALL) { const char *z = ec_comp_item_get_str(it); r += z ? z : "?"; r += "|"; } }
			else r += "E" + std::to_string(errno);
			ec_comp_free(k);
		}
		ec_strvec_free(s);
		r += ",";
	}
	return r;
}
// the functions that change one thing of a node; m becomes what it should hold
static bool has_setter(const std::string &t) { return t != "int" && t != "uint" && t != "any" && t != "cond" && t != "cmd"; }
static int set_one(Ctx &c, const std::string &t, struct ec_node *n, M &m) {
	auto str = [](const std::string &s) { M x; x.t = TSTR; x.s = s; return x; };
	M k, u;
	k.t = TNODE;
	u.t = TU64;
	k.node = c.s.pick(g_nodes);
	c.d << "  set";
	c.label("setter");
	auto ref = [&] { return ec_node_clone(k.node); };
	errno = 0;
	if (t == "str") { static const std::vector<std::string> X = {"x", "", "foo"}; m.d["string"] = str(c.s.pick(X)); c.d << " string " << m.d["string"].s; return ec_node_str_set_str(n, m.d["string"].s.c_str()); }
	if (t == "re") { m.d["pattern"] = str(c.s.pick(RES)); c.d << " pattern " << m.d["pattern"].s; return ec_node_re_set_regexp(n, m.d["pattern"].s.c_str()); }
	if (t == "seq" || t == "or") { M &l = m.d["children"]; l.t = TLIST; l.l.push_back(k); c.d << " one more child"; return t == "seq" ? ec_node_seq_add(n, ref()) : ec_node_or_add(n, ref()); }
	if (t == "re_lex") {
		static const std::vector<std::string> X = {"x", " ", "[0-9]+", "(", "foo"};
		M p, b;
		p.t = TDICT;
		b.t = TBOOL;
		b.n = c.s.draw(2);
		std::string s = c.s.pick(X), a = c.s.draw(2) ? "w" : "";
		p.d["pattern"] = str(s);
		p.d["keep"] = b;
		if (!a.empty()) p.d["attr"] = str(a);
		M &l = m.d["patterns"];
		l.t = TLIST;
		l.l.push_back(p);
		c.d << " pattern " << p.text();
		return ec_node_re_lex_add(n, s.c_str(), b.n, a.empty() ? nullptr : a.c_str());
	}
	m.d["child"] = k;
	c.d << " child";
	if (t == "option") return ec_node_option_set_child(n, ref());
	if (t == "once") return ec_node_once_set_child(n, ref());
	if (t == "bypass") return ec_node_bypass_set_child(n, ref());
	unsigned lo = c.s.draw(3), hi = c.s.draw(4);
	u.n = lo;
	m.d["min"] = u;
	u.n = hi;
	m.d["max"] = u;
	c.d << " " << lo << " " << hi;
	return ec_node_many_set_params(n, ref(), lo, hi);
}
static void node_case(Ctx &c) {
	uint64_t mark = ec::alloc_mark();
	{
		Pool pool;
		std::string t = c.s.pick(TYPES);
		const struct ec_node_type *type = ec_node_type_lookup(t.c_str());
		CHECK(c, type && t == ec_node_type_name(type), "type " << t);
		std::vector<S> v = from_schema(ec_node_type_schema(type));
		struct ec_node *n = ec_node(t.c_str(), "nid");
		CHECK(c, n, "create");
		CHECK(c, ec_node_get_config(n) == nullptr, "a new node has a configuration");
		M cur;
		bool have = false;
		std::string beh;
		size_t k = 0, acc = 0;
		c.d << t << "\n";
		while (c.s.more(k, 2, 6)) {
			k++;
			bool setter = c.s.chance(1, 3) && has_setter(t);
			M m, base;
			if (have) base = cur; else base.t = TDICT;
			if (setter) m = base; else m = node_config(c, t, v, c.s.draw(3) == 0);
			int r;
			if (setter) r = set_one(c, t, n, m);
			else {
				c.d << "  set_config " << m.text() << std::flush;
				struct ec_config *x = mk(m);
				errno = 0;
				r = ec_node_set_config(n, x); // consumes x
			}
			bool ok = conforms(m, v) && accepted(t, m);
			c.d << " -> " << r << "\n";
			CHECK(c, (r == 0) == ok, t << ": configuration " << m.text() << " is " << (r ? "refused" : "accepted"));
			if (r) { CHECK(c, errno > 0, "errno is not set"); c.label("refused"); }
			else { cur = m; have = true; acc++; c.label("accepted"); }
			if (!have) { CHECK(c, ec_node_get_config(n) == nullptr, "a configuration appeared"); continue; }
			same(c, (struct ec_config *)ec_node_get_config(n), cur, "configuration of the node");
			std::string b = behave(n);
			if (r) CHECK(c, b == beh, "a refused configuration changes the behaviour of the node:\n  before " << beh << "\n  after  " << b);
			beh = b;
			// a configuration says all about a node
			struct ec_node *o = ec_node(t.c_str(), "nid");
			CHECK(c, ec_node_set_config(o, ec_config_dup(ec_node_get_config(n))) == 0, "the configuration cannot be set on another node");
			CHECK(c, behave(o) == beh, "another node with the same configuration behaves differently:\n  first  " << beh << "\n  second " << behave(o));
			ec_node_free(o);
		}
		c.nontrivial = acc >= 1 && k >= 2;
		ec_node_free(n);
		// types without schema cannot be configured
		static const std::vector<std::string> NS = {"space", "empty", "none"};
		n = ec_node(c.s.pick(NS).c_str(), "x");
		errno = 0;
		CHECK(c, ec_node_set_config(n, ec_config_dict()) == -1 && errno > 0, "configuration of a type that has no schema");
		ec_node_free(n);
		CHECK(c, ec::alloc().error.empty(), ec::alloc().error);
	}
	std::string l = ec::leaks(mark);
	CHECK(c, l.empty(), "leak " << l);
}

int main(int argc, char **argv) {
	Suite s;
	s.id = "C16";
	s.rule = "4+ operations with a copy; a configuration of 2+ entries; a node accepting a configuration among several";
	s.init = ec::lib_init;
	s.assumptions = {"the order of dictionary entries in dumps is not specified", "POSIX regcomp decides whether a pattern is valid"};
	s.targets.push_back({"ops", ops_case, 15000, 300000});
	s.targets.push_back({"schema", schema_case, 40000, 800000});
	s.targets.push_back({"node", node_case, 30000, 600000});
	return run_main(argc, argv, s);
}
