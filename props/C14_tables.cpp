#include "model.hpp"
extern "C" {
#include <ecoli_murmurhash.h>
}
using namespace pbt;

// values: tracked objects
struct Obj { int id; };
static std::map<Obj *, int> g_live;
static std::string g_err;
static int g_next;
static bool g_collide;
static void obj_free(void *p) {
	if (!p) { if (g_err.empty()) g_err = "destructor called on NULL"; return; }
	auto it = g_live.find((Obj *)p);
	if (it == g_live.end()) { if (g_err.empty()) g_err = "destructor called twice on a value"; return; }
	g_live.erase(it);
	delete (Obj *)p;
}

static void null_free(void *p) { if (p && g_err.empty()) g_err = "destructor of a NULL value called with another value"; }

struct Val { Obj *o = nullptr; bool owned = false; bool null = false; };
typedef std::map<std::string, std::shared_ptr<Val>> M;

// one implementation for both APIs
struct Tab {
	bool dict;
	struct ec_htable *h = nullptr;
	struct ec_dict *d = nullptr;
	M m;
	int set(const std::string &k, void *v, void (*f)(void *)) { return dict ? ec_dict_set(d, k.c_str(), v, f) : ec_htable_set(h, k.data(), k.size(), v, f); }
	void *get(const std::string &k) const { return dict ? ec_dict_get(d, k.c_str()) : ec_htable_get(h, k.data(), k.size()); }
	bool has(const std::string &k) const { return dict ? ec_dict_has_key(d, k.c_str()) : ec_htable_has_key(h, k.data(), k.size()); }
	int del(const std::string &k) { return dict ? ec_dict_del(d, k.c_str()) : ec_htable_del(h, k.data(), k.size()); }
	size_t len() const { return dict ? ec_dict_len(d) : ec_htable_len(h); }
	void free_() { if (dict) ec_dict_free(d); else ec_htable_free(h); m.clear(); }
};

static void verify(Ctx &c, const Tab &t) {
	CHECK(c, g_err.empty(), g_err);
	CHECK(c, t.len() == t.m.size(), "length " << t.len() << " expected " << t.m.size());
	std::set<std::string> seen;
	auto one = [&](const std::string &k, void *v) {
		auto it = t.m.find(k);
		CHECK(c, it != t.m.end(), "iteration visits unknown key " << q(k));
		CHECK(c, v == (void *)it->second->o, "iteration gives a wrong value for " << q(k));
		CHECK(c, seen.insert(k).second, "iteration visits " << q(k) << " twice");
	};
	if (t.dict) for (struct ec_dict_elt_ref *i = ec_dict_iter(t.d); i; i = ec_dict_iter_next(i)) one(ec_dict_iter_get_key(i), ec_dict_iter_get_val(i));
	else for (struct ec_htable_elt_ref *i = ec_htable_iter(t.h); i; i = ec_htable_iter_next(i)) one(std::string((const char *)ec_htable_iter_get_key(i), ec_htable_iter_get_key_len(i)), ec_htable_iter_get_val(i));
	CHECK(c, seen.size() == t.m.size(), "iteration visits " << seen.size() << " keys of " << t.m.size());
	for (auto &e : t.m) {
		errno = 99;
		void *v = t.get(e.first);
		CHECK(c, v == (void *)e.second->o, "wrong value for " << q(e.first));
		if (!v) CHECK(c, errno == 0, "NULL value found but errno=" << errno);
		CHECK(c, t.has(e.first), "key " << q(e.first) << " not in table");
	}
}
static void dump_ok(Ctx &c, const Tab &t) {
	char *buf = nullptr;
	size_t n = 0;
	FILE *f = open_memstream(&buf, &n);
	if (t.dict) ec_dict_dump(f, t.d); else ec_htable_dump(f, t.h);
	fclose(f);
	std::string s = buf ? buf : "";
	free(buf);
	if (t.dict) for (auto &e : t.m) CHECK(c, s.find("  " + e.first + ": ") != std::string::npos, "key " << q(e.first) << " not in the dump");
	else CHECK(c, s.find(std::to_string(t.m.size())) != std::string::npos, "number of elements not in the dump");
}

// Keys with the same murmurhash3 for every seed (bit 18 of the first mixed
// block ends up in bit 31 of the state, where the second block cancels it).
static std::string colliding(uint32_t i) {
	static std::vector<std::string> all;
	if (all.empty()) {
		auto rot = [](uint32_t x, int r) { return (x << r) | (x >> (32 - r)); };
		auto inv = [](uint32_t a) { uint32_t x = a; for (int k = 0; k < 5; k++) x *= 2 - a * x; return x; };
		const uint32_t c1 = 0xcc9e2d51, c2 = 0x1b873593, i1 = inv(c1), i2 = inv(c2);
		auto flip = [&](uint32_t raw, uint32_t d) { uint32_t k = rot(raw * c1, 15) * c2; k ^= d; return rot(k * i2, 17) * i1; };
		auto str = [](uint32_t a, uint32_t b) { std::string s((char *)&a, 4); return s + std::string((char *)&b, 4); };
		uint32_t a = 0x61616161;
		while (all.size() < 16) { // 8 pairs without any NUL byte
			uint32_t b = 0x62626262, x = flip(a, 0x00040000), y = flip(b, 0x80000000);
			std::string s = str(a, b), t = str(x, y);
			if (t.find('\0') == std::string::npos) { all.push_back(s); all.push_back(t); }
			a++;
		}
		if (ec_murmurhash3(all[0].data(), 8, 42) == ec_murmurhash3(all[1].data(), 8, 42)) g_collide = true;
	}
	return all[i % all.size()];
}

static void table_case(Ctx &c, bool dict, bool faults) {
	g_live.clear();
	g_err.clear();
	g_next = 0;
	uint64_t mark = ec::alloc_mark();
	std::vector<Tab> ts;
	std::vector<Obj *> unowned;
	size_t nk = 2 + c.s.draw(c.s.draw(4) == 0 ? 300 : 12);
	bool collisions = c.s.chance(1, 3), huge = c.s.chance(1, 40), longs = c.s.chance(1, huge ? 2 : 4), nuls = c.s.chance(1, 4);
	if (collisions) { colliding(0); if (g_collide) c.label("colliding keys"); }
	auto key = [&]() -> std::string {
		uint32_t k = c.s.draw(nk);
		if (collisions && k >= 2 && k % 2) return colliding(k / 2);
		if (longs && k >= 4 && k % 3 == 0) { // long keys that differ at the end, or by their length only
			static const size_t L[] = {15, 16, 17, 31, 32, 63, 64, 127, 128, 254, 255, 256, 257, 258, 510, 512, 513, 1024, 4096, 65535, 65536, 65540, 70000};
			std::string x(L[(k / 3) % (huge ? 23 : 19)], 'p');
			if (k % 2) x.back() = 'q';
			return x;
		}
		if (dict) { static const char *sp[] = {"", "a", "ab", "b"}; return k < 4 ? sp[k] : "key" + std::to_string(k); }
		std::string s = k < 3 ? std::string(k + 1, '\0') : k < 6 ? std::string("a\0b\0", k - 2) : nuls ? std::string("n\0", 2) + (char)k + (char)(k >> 8) : "k" + std::to_string(k) + std::string(k % 5, '\0');
		return s;
	};
	auto fresh = [&](bool d) { Tab t; t.dict = dict; if (dict) t.d = ec_dict(); else t.h = ec_htable(); CHECK(c, t.d || t.h, "create"); ts.push_back(t); };
	auto put = [&](Tab &t, const std::string &k) {
		auto v = std::make_shared<Val>();
		v->null = c.s.chance(1, 8);
		if (!v->null) {
			v->o = new Obj{g_next++};
			v->owned = c.s.draw(4) != 0;
			if (v->owned) g_live[v->o] = 1; else unowned.push_back(v->o);
		}
		uint64_t at = 0;
		if (faults && c.s.chance(1, 4)) { at = 1 + c.s.draw(4); ec::alloc().fail_from = ec::alloc().n_alloc + at; ec::alloc().fail_to = UINT64_MAX; }
		uint64_t f0 = ec::alloc().n_failed;
		errno = 0;
		// (whether a destructor is called on a NULL value is left open)
		int r = t.set(k, v->o, v->owned ? obj_free : v->null && c.s.draw(2) ? null_free : nullptr);
		int e = errno;
		ec::alloc().fail_from = ec::alloc().fail_to = 0;
		bool failed = ec::alloc().n_failed > f0;
		CHECK(c, r == (failed ? -1 : 0), "set returned " << r << ", allocation failed: " << failed);
		if (r < 0) {
			CHECK(c, e == ENOMEM, "errno=" << e);
			if (v->owned) CHECK(c, !g_live.count(v->o), "value not freed when set fails");
			c.label("set fails");
		} else t.m[k] = v;
	};
	fresh(dict);
	size_t ops = 4 + c.s.draw(60), resized = 0;
	for (size_t i = 0; i < ops; i++) {
		size_t ti = c.s.draw(ts.size());
		Tab &t = ts[ti];
		switch (c.s.weighted({8, 4, 3, 1, 1, 1, 1, 1})) {
		case 0: { auto k = key(); c.d << "set " << ti << " " << q(k) << "; "; put(t, k); break; }
		case 1: {
			auto k = key();
			c.d << "del " << ti << " " << q(k) << "; ";
			auto it = t.m.find(k);
			errno = 0;
			int r = t.del(k);
			CHECK(c, r == (it == t.m.end() ? -1 : 0), "del returned " << r);
			if (r) CHECK(c, errno == ENOENT, "errno=" << errno);
			if (it != t.m.end()) t.m.erase(it);
			break;
		}
		case 2: {
			auto k = key();
			c.d << "get " << ti << " " << q(k) << "; ";
			auto it = t.m.find(k);
			errno = 99;
			void *v = t.get(k);
			if (it == t.m.end()) CHECK(c, !v && errno == ENOENT && !t.has(k), "missing key found, errno=" << errno);
			else CHECK(c, v == (void *)it->second->o, "wrong value");
			break;
		}
		case 3:
			if (ts.size() < 4) {
				c.d << "dup " << ti << "; ";
				Tab n = t;
				if (faults && c.s.draw(2)) { ec::alloc().fail_from = ec::alloc().n_alloc + 1 + c.s.draw(1 + 2 * t.m.size()); ec::alloc().fail_to = UINT64_MAX; }
				uint64_t f0 = ec::alloc().n_failed;
				if (dict) n.d = ec_dict_dup(t.d); else n.h = ec_htable_dup(t.h);
				ec::alloc().fail_from = ec::alloc().fail_to = 0;
				bool failed = ec::alloc().n_failed > f0;
				CHECK(c, (n.d || n.h) && (dict ? !!n.d : !!n.h) == !failed || failed, "dup failed");
				if (!failed && t.m.size() && t.m.size() < 20 && c.s.chance(1, 100)) { // many more for a while
					std::vector<Tab> more;
					for (size_t k = t.m.size() < 3 && c.s.chance(1, 20) ? 66000 : 260 + c.s.draw(100); k--; ) {
						Tab x = t;
						if (dict) x.d = ec_dict_dup(k & 1 ? t.d : n.d); else x.h = ec_htable_dup(k & 1 ? t.h : n.h);
						CHECK(c, dict ? !!x.d : !!x.h, "one of many dups failed");
						more.push_back(x);
					}
					for (auto &x : more) x.free_();
					c.label("hundreds of dups");
				}
				if (failed) { CHECK(c, dict ? !n.d : !n.h, "dup succeeds though an allocation failed"); c.label("dup fails"); }
				else { ts.push_back(n); c.label("dup"); }
			}
			break;
		case 4: if (ts.size() < 4) { c.d << "new; "; fresh(dict); } break;
		case 5: if (ts.size() > 1) { c.d << "free " << ti << "; "; t.free_(); ts.erase(ts.begin() + ti); } break;
		case 6: { size_t n = huge && !ts[ti].m.count("bulk80") ? 300 + c.s.draw(2000) : c.s.draw(80); c.d << "bulk " << ti << " x" << n << "; "; for (size_t k = 0; k < n; k++) put(t, "bulk" + std::to_string(k)); if (n > 8) resized++; break; }
		case 7: {
			c.d << "invalid " << ti << "; ";
			Obj *o = new Obj{g_next++};
			g_live[o] = 1;
			errno = 0;
			int r, w = c.s.draw(dict ? 2 : 3);
			if (dict) r = w ? ec_dict_set(nullptr, "k", o, obj_free) : ec_dict_set(t.d, nullptr, o, obj_free);
			else r = w == 0 ? ec_htable_set(t.h, nullptr, 3, o, obj_free) : w == 1 ? ec_htable_set(nullptr, "k", 1, o, obj_free) : ec_htable_set(t.h, "k", 0, o, obj_free);
			CHECK(c, r == -1 && errno == EINVAL, "invalid argument accepted");
			CHECK(c, !g_live.count(o), "value not freed when set fails");
			errno = 0;
			CHECK(c, !(dict ? ec_dict_get(t.d, nullptr) : ec_htable_get(t.h, nullptr, 2)) && errno == EINVAL, "get with an invalid key");
			break;
		}
		}
		CHECK(c, g_err.empty(), g_err);
		if (c.s.chance(1, 6)) for (auto &x : ts) verify(c, x);
	}
	for (auto &x : ts) { verify(c, x); dump_ok(c, x); }
	// an owned value is alive iff a table holds it
	auto lifetime = [&]() {
		std::set<Obj *> held;
		for (auto &x : ts) for (auto &e : x.m) if (e.second->owned) held.insert(e.second->o);
		for (Obj *o : held) CHECK(c, g_live.count(o), "a value held by a table was destroyed");
		CHECK(c, held.size() == g_live.size(), g_live.size() - held.size() << " values never destroyed");
	};
	lifetime();
	size_t big = 0;
	for (auto &x : ts) big = std::max(big, x.m.size());
	c.nontrivial = big >= 5 && ops >= 10;
	if (big > 64) c.label(big > 1000 ? "more than 1000 keys" : "more than 64 keys");
	while (!ts.empty()) { ts.back().free_(); ts.pop_back(); CHECK(c, g_err.empty(), g_err); lifetime(); }
	for (Obj *o : unowned) delete o;
	std::string l = ec::leaks(mark);
	CHECK(c, l.empty(), "leak " << l);
}

// the same bytes hash the same wherever they are
static void hash_case(Ctx &c) {
	std::string d;
	while (c.s.more(d.size(), 0, 40, 9, 10)) d += (char)c.s.draw(256);
	uint32_t seed = c.s.draw(2) ? (uint32_t)c.s.bits64() : 0;
	c.d << "hash " << q(d) << " seed " << seed;
	uint32_t h = ec_murmurhash3(d.data(), d.size(), seed);
	for (size_t off = 1; off < 4; off++) {
		std::vector<char> b(d.size() + 8, 'x');
		memcpy(b.data() + off, d.data(), d.size());
		CHECK(c, ec_murmurhash3(b.data() + off, d.size(), seed) == h, "hash depends on what is around or on the alignment " << off);
	}
	c.nontrivial = d.size() > 4;
}

int main(int argc, char **argv) {
	Suite s;
	s.id = "C14";
	s.rule = "at least 10 operations and a table that ends with 5 keys or more; hash: more than 4 bytes";
	s.init = ec::lib_init;
	s.assumptions = {"the order of iteration is unspecified", "whether the destructor of a NULL value is called is unspecified"};
	s.targets.push_back({"dict", [](Ctx &c) { table_case(c, true, false); }, 30000, 800000});
	s.targets.push_back({"htable", [](Ctx &c) { table_case(c, false, false); }, 30000, 800000});
	s.targets.push_back({"faults", [](Ctx &c) { table_case(c, c.s.draw(2), true); }, 30000, 800000});
	s.targets.push_back({"hash", hash_case, 50000, 500000});
	return run_main(argc, argv, s);
}
