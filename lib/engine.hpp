// Choice-sequence property-testing engine (Hypothesis-style) with
// coverage-guided mutation, crash isolation by fork, shrinking and replay.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <ostream>
#include <streambuf>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

// ---------------------------------------------------------------- PRNG
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 0) : s(seed) {}
	uint64_t next() {
		uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
		return z ^ (z >> 31);
	}
	uint32_t below(uint32_t n) { return n <= 1 ? 0 : (uint32_t)((next() >> 11) % n); }
};

inline uint64_t hash64(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
	const unsigned char *c = (const unsigned char *)p;
	for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
	h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ULL; h ^= h >> 32;
	return h;
}
inline uint64_t hash64(const std::string &s, uint64_t h = 1469598103934665603ULL) {
	return hash64(s.data(), s.size(), h);
}

// ------------------------------------------------------- choice source
// Every random decision of a case goes through draw(); 0 is always the
// simplest alternative, so that shrinking = shorter/lower sequences.
struct Src {
	std::vector<uint32_t> in;   // choices to replay first
	size_t pos = 0;
	bool random_tail = false;   // after `in`: random (true) or zeros (false)
	Rng rng;
	std::vector<uint32_t> rec;  // what was actually chosen
	uint32_t *shm = nullptr;    // mirror of rec, survives a crash
	uint32_t *shm_n = nullptr;
	size_t shm_cap = 0;

	uint32_t draw(uint32_t n) {
		uint32_t v;
		if (n <= 1) return 0;
		if (pos < in.size()) v = in[pos++] % n;
		else if (random_tail) v = rng.below(n);
		else v = 0;
		rec.push_back(v);
		if (shm && rec.size() <= shm_cap) { shm[rec.size() - 1] = v; *shm_n = rec.size(); }
		return v;
	}
	// true with probability num/den; shrinks to false
	bool chance(uint32_t num, uint32_t den) { return draw(den) >= den - num; }
	// [lo, hi], shrinks to lo
	int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint32_t)(hi - lo + 1)); }
	uint64_t bits64() {
		uint64_t v = 0;
		for (int i = 0; i < 4; i++) v = (v << 16) | draw(65536);
		return v;
	}
	// index weighted by w[]; put the simplest first
	size_t weighted(const std::vector<unsigned> &w) {
		unsigned tot = 0;
		for (unsigned x : w) tot += x;
		unsigned v = draw(tot);
		for (size_t i = 0; i < w.size(); i++) { if (v < w[i]) return i; v -= w[i]; }
		return 0;
	}
	template <class T> const T &pick(const std::vector<T> &v) { return v[draw((uint32_t)v.size())]; }
	// list continuation: mean ~ den/(den-num)... ; shrinks to stop
	bool more(size_t have, size_t lo, size_t hi, uint32_t num = 2, uint32_t den = 3) {
		if (have < lo) return true;
		if (have >= hi) return false;
		return chance(num, den);
	}
};

struct Fail {
	std::string msg;
};
struct Discard {};

// Description stream, mirrored into shared memory so that a crash keeps it.
struct DBuf : std::streambuf {
	std::string s;
	char *shm = nullptr;
	size_t cap = 0;
	void mirror(const char *p, size_t n) {
		size_t at = s.size();
		if (!shm || at + n >= cap) return;
		memcpy(shm + at, p, n);
		shm[at + n] = 0;
	}
	std::streamsize xsputn(const char *p, std::streamsize n) override { mirror(p, n); s.append(p, n); return n; }
	int overflow(int c) override { if (c != EOF) { char k = c; mirror(&k, 1); s.push_back(k); } return c; }
};
struct Desc : std::ostream {
	DBuf b;
	Desc() : std::ostream(nullptr) { rdbuf(&b); }
	const std::string &str() const { return b.s; }
};

struct Ctx {
	Src &s;
	Desc d;                          // human readable case
	std::map<std::string, uint64_t> labels;
	bool nontrivial = false;
	explicit Ctx(Src &src) : s(src) {}
	void label(const std::string &l) { labels[l]++; }
	void fail(const std::string &m) { throw Fail{m}; }
};

#define CHECK(c, cond, ...) do { if (!(cond)) { std::ostringstream o_; \
	o_ << __FILE__ << ":" << __LINE__ << ": " #cond ": " << __VA_ARGS__; \
	throw pbt::Fail{o_.str()}; } } while (0)

struct Target {
	std::string name;
	std::function<void(Ctx &)> fn;
	uint64_t quick, thorough;   // number of cases
	unsigned hang_s = 20;       // CPU seconds for one case
	bool no_leak = false;       // memory may grow from one run to the next
};

struct KnownFinding {
	std::string what;                  // text printed after KNOWN-FINDING
	std::function<bool()> still_fails; // run in a forked child; crash = fails
};

struct Suite {
	std::string id;
	std::string rule;
	std::vector<std::string> assumptions;
	std::vector<Target> targets;
	std::vector<KnownFinding> known;
	std::function<void()> init;  // once per process
	std::string level = "exploration";
	std::string tmp;             // scratch directory, set by the engine
};

int run_main(int argc, char **argv, Suite &suite);

// quoting helper for rendering
inline std::string q(const std::string &s) {
	std::string o = "\"";
	char b[8];
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c == '\n') o += "\\n";
		else if (c == '\t') o += "\\t";
		else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
		else o += c;
	}
	return o + "\"";
}
inline std::string q(const char *s) { return s ? q(std::string(s)) : std::string("NULL"); }

} // namespace pbt
