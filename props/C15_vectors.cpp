// String vectors, generic vectors, string and allocation helpers.
#include "ec.hpp"
#include "engine.hpp"
#include <algorithm>
using namespace pbt;

// ------------------------------------------------------------ strvec
static std::set<int *> g_live;
static std::string g_err;
static void val_free(void *p) {
	auto it = g_live.find((int *)p);
	if (it == g_live.end()) { if (g_err.empty()) g_err = "attribute destroyed twice"; return; }
	g_live.erase(it);
	delete (int *)p;
}
struct Elt { std::string s; int attr; bool operator<(const Elt &o) const { return s != o.s ? s < o.s : attr < o.attr; } }; // attr: -1 none
typedef std::vector<Elt> MV;

static std::string word(Ctx &c) {
	static const std::vector<std::string> W = {"", "a", "b", "ab", "aa", "foo bar", "\xc3\xa9", "B", "\x80\xff", "0123456789012345678901234567890123456789"};
	if (c.s.chance(1, 24)) {
		static const size_t L[] = {63, 64, 127, 128, 254, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 5000};
		return std::string(L[c.s.draw(16)], "xy"[c.s.draw(2)]) + (c.s.draw(2) ? "z" : "");
	}
	if (c.s.chance(1, 3)) { std::string r; while (c.s.more(r.size(), 0, 8)) r += (char)(1 + c.s.draw(255)); return r; }
	return c.s.pick(W);
}
static int attr_of(const struct ec_strvec *v, size_t i) {
	const struct ec_dict *d = ec_strvec_get_attrs(v, i);
	if (!d) return -1;
	int *p = (int *)ec_dict_get(d, "k");
	return p ? *p : -2;
}
static void same(Ctx &c, const struct ec_strvec *v, const MV &m, const std::string &what) {
	CHECK(c, ec_strvec_len(v) == m.size(), what << ": length " << ec_strvec_len(v) << ", expected " << m.size());
	for (size_t i = 0; i < m.size(); i++) {
		const char *s = ec_strvec_val(v, i);
		CHECK(c, s && m[i].s == s, what << ": string " << i << " is " << q(s) << ", expected " << q(m[i].s));
		CHECK(c, attr_of(v, i) == m[i].attr, what << ": attribute of string " << i << " (" << q(s) << ") is " << attr_of(v, i) << ", expected " << m[i].attr);
	}
	for (size_t i : {m.size(), m.size() + 1, (size_t)-1, (size_t)1 << 63}) {
		CHECK(c, ec_strvec_val(v, i) == nullptr, what << ": value past the end");
		CHECK(c, ec_strvec_get_attrs(v, i) == nullptr, what << ": attributes past the end");
	}
}
static int cmp_len(const char *a, const char *b) { size_t x = strlen(a), y = strlen(b); return x < y ? -1 : x > y; }
static int cmp_rev(const char *a, const char *b) { return strcmp(b, a); }

static void strvec_case(Ctx &c) {
	g_live.clear();
	g_err.clear();
	uint64_t mark = ec::alloc_mark();
	std::vector<struct ec_strvec *> vs;
	std::vector<MV> ms;
	int next = 0;
	size_t ops = 0, dups = 0, big = c.s.chance(1, 8) ? 200 : 40;
	auto check_all = [&](const std::string &what) {
		for (size_t i = 0; i < vs.size(); i++) same(c, vs[i], ms[i], what + ": vector " + std::to_string(i));
		for (size_t i = 0; i + 1 < vs.size(); i++) {
			bool eq = ms[i].size() == ms[i + 1].size();
			for (size_t j = 0; eq && j < ms[i].size(); j++) eq = ms[i][j].s == ms[i + 1][j].s;
			CHECK(c, (ec_strvec_cmp(vs[i], vs[i + 1]) == 0) == eq, what << ": comparison of vectors " << i << " and " << i + 1 << " is wrong");
			CHECK(c, (ec_strvec_cmp(vs[i + 1], vs[i]) == 0) == eq, what << ": comparison of vectors " << i + 1 << " and " << i << " is wrong");
			CHECK(c, ec_strvec_cmp(vs[i], vs[i]) == 0, what << ": a vector differs from itself");
		}
		CHECK(c, g_err.empty(), what << ": " << g_err);
		CHECK(c, ec::alloc().error.empty(), what << ": " << ec::alloc().error);
		std::set<int> need, have;
		for (auto &m : ms) for (auto &e : m) if (e.attr >= 0) need.insert(e.attr);
		for (auto *p : g_live) have.insert(*p);
		CHECK(c, need == have, what << ": " << have.size() << " attribute sets alive, expected " << need.size());
	};
	while (c.s.more(ops, 1, big, 19, 20)) {
		ops++;
		if (vs.empty()) { vs.push_back(ec_strvec()); ms.push_back({}); CHECK(c, vs[0], "create"); }
		size_t a = c.s.draw(vs.size());
		std::string what;
		switch (c.s.weighted({8, 4, 4, 3, 4, 4, 2, 2, 2, 2, 2})) {
		case 0: {
			std::string w = word(c);
			what = "add(v" + std::to_string(a) + ", " + q(w) + ")";
			size_t n = 1;
			if (big == 200 && c.s.chance(1, 30)) { n = 100 + c.s.draw(500); what += " x" + std::to_string(n); c.label("hundreds of strings"); }
			while (n--) {
				CHECK(c, ec_strvec_add(vs[a], w.c_str()) == 0, what);
				ms[a].push_back({w, -1});
			}
			break;
		}
		case 1: {
			size_t i = c.s.draw(ms[a].size() + 2);
			std::string w = word(c);
			what = "set(v" + std::to_string(a) + ", " + std::to_string(i) + ", " + q(w) + ")";
			errno = 0;
			int r = ec_strvec_set(vs[a], i, w.c_str());
			if (i < ms[a].size()) { CHECK(c, r == 0, what); ms[a][i] = {w, -1}; }
			else CHECK(c, r == -1 && errno == EINVAL, what << " past the end returns " << r << " errno " << errno);
			break;
		}
		case 2: {
			what = "del_last(v" + std::to_string(a) + ")";
			errno = 0;
			int r = ec_strvec_del_last(vs[a]);
			if (ms[a].empty()) CHECK(c, r == -1 && errno == EINVAL, what << " on an empty vector returns " << r << " errno " << errno);
			else { CHECK(c, r == 0, what); ms[a].pop_back(); }
			break;
		}
		case 3: {
			what = "dup(v" + std::to_string(a) + ")";
			struct ec_strvec *v = ec_strvec_dup(vs[a]);
			CHECK(c, v, what);
			vs.push_back(v); ms.push_back(MV(ms[a]));
			dups++;
			if (ms[a].size() < 40 && c.s.chance(1, 300)) { // many more for a while
				std::vector<struct ec_strvec *> more;
				for (size_t n = ms[a].size() < 4 && c.s.chance(1, 8) ? 66000 : 260 + c.s.draw(100); n--; ) { more.push_back(ec_strvec_dup(n & 1 ? v : vs[a])); CHECK(c, more.back(), what); }
				same(c, more[c.s.draw(more.size())], ms[a], "one of many duplicates");
				for (auto *x : more) ec_strvec_free(x);
				c.label("hundreds of duplicates");
			}
			break;
		}
		case 4: {
			static const size_t H[] = {(size_t)-1, (size_t)-2, (size_t)1 << 63, (size_t)-1 / 8 + 1};
			size_t off = c.s.draw(ms[a].size() + 2), len = c.s.draw(ms[a].size() + 2);
			if (c.s.chance(1, 8)) off = H[c.s.draw(4)] - c.s.draw(4);
			if (c.s.chance(1, 8)) len = H[c.s.draw(4)] - c.s.draw(4);
			what = "ndup(v" + std::to_string(a) + ", " + std::to_string(off) + ", " + std::to_string(len) + ")";
			bool ok = off <= ms[a].size() && len <= ms[a].size() - off;
			errno = 0;
			struct ec_strvec *v = ec_strvec_ndup(vs[a], off, len);
			CHECK(c, !!v == ok, what << " of a vector of " << ms[a].size() << (v ? " succeeds" : " fails"));
			if (!v) { CHECK(c, errno == EINVAL, what << ": errno " << errno); c.label("ndup out of bounds"); break; }
			vs.push_back(v);
			ms.push_back(MV(ms[a].begin() + off, ms[a].begin() + off + len));
			dups++;
			break;
		}
		case 5: {
			size_t i = c.s.draw(ms[a].size() + 1);
			struct ec_dict *d = ec_dict();
			int *p = new int(next++);
			g_live.insert(p);
			CHECK(c, ec_dict_set(d, "k", p, val_free) == 0, "dict");
			int id = *p;
			what = "set_attrs(v" + std::to_string(a) + ", " + std::to_string(i) + ", " + std::to_string(id) + ")";
			errno = 0;
			int r = ec_strvec_set_attrs(vs[a], i, d);
			if (i < ms[a].size()) { CHECK(c, r == 0, what); ms[a][i].attr = id; if (dups) c.label("attributes set on a shared string"); }
			else CHECK(c, r == -1 && errno == EINVAL, what << " past the end returns " << r << " errno " << errno);
			break;
		}
		case 6: {
			what = "free(v" + std::to_string(a) + ")";
			ec_strvec_free(vs[a]);
			vs.erase(vs.begin() + a); ms.erase(ms.begin() + a);
			break;
		}
		case 7: {
			int k = c.s.draw(4);
			what = "sort(v" + std::to_string(a) + (k == 0 ? ")" : k == 3 ? ", strcmp)" : k == 1 ? ", by length)" : ", reversed)");
			auto f = k == 0 || k == 3 ? (int (*)(const char *, const char *))strcmp : k == 1 ? cmp_len : cmp_rev;
			ec_strvec_sort(vs[a], k == 0 ? nullptr : f);
			MV got;
			CHECK(c, ec_strvec_len(vs[a]) == ms[a].size(), what << " changes the length");
			for (size_t i = 0; i < ms[a].size(); i++) {
				got.push_back({ec_strvec_val(vs[a], i), attr_of(vs[a], i)});
				if (i) CHECK(c, f(got[i - 1].s.c_str(), got[i].s.c_str()) <= 0, what << ": " << q(got[i - 1].s) << " is before " << q(got[i].s));
			}
			MV x = got, y = ms[a];
			std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
			CHECK(c, x.size() == y.size() && std::equal(x.begin(), x.end(), y.begin(), [](const Elt &l, const Elt &r) { return l.s == r.s && l.attr == r.attr; }), what << " does not keep the strings with their attributes");
			ms[a] = got;
			break;
		}
		case 8: {
			std::vector<std::string> w;
			while (c.s.more(w.size(), 0, 5)) w.push_back(word(c));
			std::vector<const char *> p;
			for (auto &x : w) p.push_back(x.c_str());
			bool bad = c.s.chance(1, 4);
			size_t at = c.s.draw(p.size() + 1);
			if (bad) p.insert(p.begin() + at, nullptr);
			what = "from_array(" + ec::show(w) + (bad ? " with a NULL)" : ")");
			errno = 0;
			struct ec_strvec *v = ec_strvec_from_array(p.data(), p.size());
			if (bad) { CHECK(c, !v && errno == EINVAL, what << ": errno " << errno); break; }
			CHECK(c, v, what);
			vs.push_back(v);
			MV m;
			for (auto &x : w) m.push_back({x, -1});
			ms.push_back(m);
			break;
		}
		case 9: {
			what = "invalid arguments";
			errno = 0;
			CHECK(c, ec_strvec_add(vs[a], nullptr) == -1 && errno == EINVAL, "add NULL");
			errno = 0;
			CHECK(c, ec_strvec_set(vs[a], 0, nullptr) == -1 && errno == EINVAL, "set NULL");
			errno = 0;
			CHECK(c, ec_strvec_add(nullptr, "x") == -1 && errno == EINVAL, "add to NULL");
			CHECK(c, ec_strvec_val(nullptr, 0) == nullptr, "value of NULL");
			ec_strvec_free(nullptr);
			break;
		}
		default: {
			what = "dump(v" + std::to_string(a) + ")";
			char *buf = nullptr;
			size_t n = 0;
			FILE *f = open_memstream(&buf, &n);
			ec_strvec_dump(f, vs[a]);
			ec_strvec_dump(f, nullptr);
			fclose(f);
			std::string s(buf, n), want = "[";
			free(buf);
			for (size_t i = 0; i < ms[a].size(); i++) want += (i ? ", " : "") + ms[a][i].s;
			CHECK(c, s.find(want + "]") != std::string::npos && s.find("(len=" + std::to_string(ms[a].size()) + ")") != std::string::npos, what << " gives " << q(s));
		}
		}
		c.d << what << "\n";
		check_all(what);
	}
	c.nontrivial = dups >= 1 && ops >= 5;
	while (!vs.empty()) {
		size_t a = c.s.draw(vs.size());
		ec_strvec_free(vs[a]);
		vs.erase(vs.begin() + a); ms.erase(ms.begin() + a);
		check_all("final release");
	}
	std::string l = ec::leaks(mark);
	CHECK(c, l.empty(), "leak " << l);
}

// --------------------------------------------------------------- vec
// elements start with an id; live copies are counted
static std::map<uint32_t, long> g_cnt;
static size_t g_esz;
static std::string key(const void *p) { return std::string((const char *)p, g_esz); }
static std::multiset<std::string> g_elts;
static void e_copy(void *d, void *s) { memcpy(d, s, g_esz); g_elts.insert(key(d)); }
static void e_free(void *p) { auto it = g_elts.find(key(p)); if (it == g_elts.end()) { if (g_err.empty()) g_err = "element released twice"; return; } g_elts.erase(it); }

static void vec_case(Ctx &c) {
	g_err.clear();
	g_elts.clear();
	uint64_t mark = ec::alloc_mark();
	static const std::vector<size_t> SZ = {1, 2, 4, 8, 3, 24, 100, 300};
	g_esz = c.s.pick(SZ);
	bool cb = c.s.draw(2);
	size_t pre = c.s.draw(4) ? 0 : c.s.draw(20);
	errno = 0;
	CHECK(c, ec_vec(0, pre, nullptr, nullptr) == nullptr && errno == EINVAL, "vector of empty elements: errno " << errno);
	std::vector<struct ec_vec *> vs{ec_vec(g_esz, pre, cb ? e_copy : nullptr, cb ? e_free : nullptr)};
	std::vector<std::vector<std::string>> ms(1);
	CHECK(c, vs[0], "create");
	c.d << "vector of " << g_esz << "-byte elements, initial size " << pre << (cb ? ", with callbacks" : "") << "\n";
	size_t ops = 0, dups = 0;
	auto check_all = [&](const std::string &what) {
		std::multiset<std::string> all;
		for (size_t i = 0; i < vs.size(); i++) {
			CHECK(c, ec_vec_len(vs[i]) == ms[i].size(), what << ": vector " << i << ": length " << ec_vec_len(vs[i]) << ", expected " << ms[i].size());
			std::string b(g_esz, 0);
			for (size_t j = 0; j < ms[i].size(); j++) {
				CHECK(c, ec_vec_get(&b[0], vs[i], j) == 0 && b == ms[i][j], what << ": vector " << i << ": element " << j << " is " << q(b) << ", expected " << q(ms[i][j]));
				all.insert(ms[i][j]);
			}
			for (size_t j : {ms[i].size(), (size_t)-1}) { errno = 0; CHECK(c, ec_vec_get(&b[0], vs[i], j) == -1 && errno == EINVAL, what << ": element past the end"); }
		}
		if (cb) CHECK(c, all == g_elts, what << ": " << g_elts.size() << " elements alive, expected " << all.size());
		CHECK(c, g_err.empty(), what << ": " << g_err);
	};
	while (c.s.more(ops, 1, 40, 14, 15) && !vs.empty()) {
		ops++;
		size_t a = c.s.draw(vs.size());
		std::string what;
		switch (c.s.weighted({8, 4, 3, 4, 2})) {
		case 0: {
			std::string e(g_esz, 0);
			for (auto &x : e) x = c.s.draw(256);
			what = "add_by_ref(v" + std::to_string(a) + ", " + q(e) + ")";
			size_t n = 1;
			if (c.s.chance(1, 200)) { n = 60 + c.s.draw(500); what += " x" + std::to_string(n); c.label("hundreds of elements"); }
			while (n--) {
				CHECK(c, ec_vec_add_by_ref(vs[a], &e[0]) == 0, what);
				ms[a].push_back(e);
				if (cb) g_elts.insert(e);
			}
			break;
		}
		case 1: { // typed addition: accepted iff the size matches
			size_t n = c.s.draw(5);
			uint64_t v = c.s.bits64();
			static const size_t S[] = {1, 2, 4, 8, sizeof(void *)};
			what = std::string("add_") + (n == 4 ? "ptr" : n == 0 ? "u8" : n == 1 ? "u16" : n == 2 ? "u32" : "u64") + "(v" + std::to_string(a) + ", " + std::to_string(v) + ")";
			errno = 0;
			int r = n == 0 ? ec_vec_add_u8(vs[a], v) : n == 1 ? ec_vec_add_u16(vs[a], v) : n == 2 ? ec_vec_add_u32(vs[a], v) : n == 3 ? ec_vec_add_u64(vs[a], v) : ec_vec_add_ptr(vs[a], (void *)v);
			if (S[n] != g_esz) { CHECK(c, r == -1 && errno == EINVAL, what << " in a vector of " << g_esz << "-byte elements returns " << r << " errno " << errno); break; }
			CHECK(c, r == 0, what);
			std::string e((char *)&v, g_esz); // little endian
			ms[a].push_back(e);
			if (cb) g_elts.insert(e);
			break;
		}
		case 2: {
			what = "dup(v" + std::to_string(a) + ")";
			struct ec_vec *v = ec_vec_dup(vs[a]);
			CHECK(c, v, what);
			vs.push_back(v); ms.push_back(std::vector<std::string>(ms[a]));
			dups++;
			break;
		}
		case 3: {
			static const size_t H[] = {(size_t)-1, (size_t)-2, (size_t)1 << 63, (size_t)-1 / 8 + 1};
			size_t off = c.s.draw(ms[a].size() + 2), len = c.s.draw(ms[a].size() + 2);
			if (c.s.chance(1, 8)) off = H[c.s.draw(4)] - c.s.draw(4);
			if (c.s.chance(1, 8)) len = H[c.s.draw(4)] - c.s.draw(4);
			what = "ndup(v" + std::to_string(a) + ", " + std::to_string(off) + ", " + std::to_string(len) + ")";
			bool ok = off <= ms[a].size() && len <= ms[a].size() - off;
			errno = 0;
			struct ec_vec *v = ec_vec_ndup(vs[a], off, len);
			CHECK(c, !!v == ok, what << " of a vector of " << ms[a].size() << (v ? " succeeds" : " fails"));
			if (!v) { CHECK(c, errno == EINVAL, what << ": errno " << errno); break; }
			vs.push_back(v);
			ms.push_back(std::vector<std::string>(ms[a].begin() + off, ms[a].begin() + off + len));
			dups++;
			break;
		}
		default:
			what = "free(v" + std::to_string(a) + ")";
			ec_vec_free(vs[a]);
			vs.erase(vs.begin() + a); ms.erase(ms.begin() + a);
		}
		c.d << what << "\n";
		check_all(what);
	}
	c.nontrivial = dups >= 1 && ops >= 4;
	for (auto *v : vs) ec_vec_free(v);
	vs.clear(); ms.clear();
	check_all("final release");
	std::string l = ec::leaks(mark);
	CHECK(c, l.empty(), "leak " << l);
}

// ----------------------------------------------------------- strings
static int vwrap(char **b, const char *f, ...) { va_list ap; va_start(ap, f); int r = ec_vasprintf(b, f, ap); va_end(ap); return r; }
static void str_case(Ctx &c) {
	uint64_t mark = ec::alloc_mark();
	std::string a = word(c), b = c.s.chance(1, 2) ? a.substr(0, c.s.draw(a.size() + 1)) + (c.s.draw(3) ? "" : word(c)) : word(c);
	c.d << q(a) << " " << q(b) << "\n";
	size_t n = 0;
	while (n < a.size() && n < b.size() && a[n] == b[n]) n++;
	CHECK(c, ec_strcmp_count(a.c_str(), b.c_str()) == n, "common prefix is " << ec_strcmp_count(a.c_str(), b.c_str()) << ", expected " << n);
	CHECK(c, !!ec_str_startswith(a.c_str(), b.c_str()) == (a.compare(0, b.size(), b) == 0), "startswith");
	c.nontrivial = n > 0;
	std::string sp;
	static const std::string SPC = " \t\n\v\f\r";
	while (c.s.more(sp.size(), 0, 6)) sp += c.s.chance(1, 5) ? (char)(1 + c.s.draw(255)) : SPC[c.s.draw(6)];
	CHECK(c, ec_str_is_space(sp.c_str()) == (sp.find_first_not_of(SPC) == std::string::npos), "is_space(" << q(sp) << ")");
	// formatting: same as libc's
	int w = c.s.draw(300);
	int64_t v = c.s.bits64();
	for (int k = 0; k < 2; k++) {
		char *x = nullptr, *y = nullptr;
		int r = k ? vwrap(&x, "%s|%*d%%%s|%llx", a.c_str(), w, (int)v, b.c_str(), (long long)v) : ec_asprintf(&x, "%s|%*d%%%s|%llx", a.c_str(), w, (int)v, b.c_str(), (long long)v);
		int t = asprintf(&y, "%s|%*d%%%s|%llx", a.c_str(), w, (int)v, b.c_str(), (long long)v);
		CHECK(c, r == t && x && !strcmp(x, y), "formatted " << q(x) << " (" << r << "), expected " << q(y) << " (" << t << ")");
		free(y);
		CHECK(c, ec::alloc().live.count(x), "the string is not allocated with the library's allocator");
		ec_free(x);
	}
	// allocation helpers
	size_t cut = c.s.draw(a.size() + 3);
	char *d = (char *)ec_strdup(a.c_str()), *e = (char *)ec_strndup(a.c_str(), cut);
	CHECK(c, d && a == d, "strdup gives " << q(d));
	CHECK(c, e && a.substr(0, cut) == e, "strndup(" << cut << ") gives " << q(e));
	ec_free(d);
	ec_free(e);
	// a buffer that is not terminated is not read beyond n
	std::unique_ptr<char[]> raw(new char[a.size() + 1]);
	memcpy(raw.get(), a.data(), a.size());
	raw[a.size()] = 'x';
	e = (char *)ec_strndup(raw.get(), a.size());
	CHECK(c, e && a == e, "strndup of an unterminated buffer gives " << q(e));
	ec_free(e);
	size_t nm = c.s.draw(20), sz = c.s.draw(20);
	bool over = c.s.chance(1, 3);
	if (over) { nm = 2 + c.s.draw(1000); sz = (size_t)-1 / nm + 1 + c.s.draw(5); }
	unsigned char *z = (unsigned char *)ec_calloc(nm, sz);
	if (over) CHECK(c, z == nullptr, "calloc(" << nm << ", " << sz << ") succeeds");
	else {
		CHECK(c, z, "calloc");
		for (size_t i = 0; i < nm * sz; i++) CHECK(c, z[i] == 0, "calloc memory is not zeroed");
		if (nm * sz) memset(z, 0xa5, nm * sz);
		size_t k = nm * sz + c.s.draw(50) + 1;
		unsigned char *y = (unsigned char *)ec_realloc(z, k);
		CHECK(c, y, "realloc");
		for (size_t i = 0; i < nm * sz; i++) CHECK(c, y[i] == 0xa5, "realloc loses the content");
		ec_free(y);
	}
	errno = 0;
	CHECK(c, ec_malloc_register(nullptr, nullptr, nullptr) == -1 && errno == EINVAL, "NULL handlers accepted");
	std::string l = ec::leaks(mark);
	CHECK(c, l.empty(), "leak " << l);
}

int main(int argc, char **argv) {
	Suite s;
	s.id = "C15";
	s.rule = "history of 4+ operations with at least one (partial) copy; for strings, a common prefix";
	s.init = ec::lib_init;
	s.assumptions = {"NULL vectors are only given to the functions that document it"};
	s.targets.push_back({"strvec", strvec_case, 150000, 3000000});
	s.targets.push_back({"vec", vec_case, 100000, 2000000});
	s.targets.push_back({"str", str_case, 60000, 1000000});
	return run_main(argc, argv, s);
}
