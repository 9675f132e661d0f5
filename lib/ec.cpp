#include "ec.hpp"
#include "engine.hpp"
#include <algorithm>

namespace ec {

Alloc &alloc() { static Alloc *a = new Alloc; return *a; }
static uint64_t seq;
static const size_t MEM_LIMIT = (size_t)1 << 30;

static bool should_fail() {
	Alloc &a = alloc();
	a.n_alloc++;
	if (a.fail_from && a.n_alloc >= a.fail_from && a.n_alloc <= a.fail_to) { a.n_failed++; return true; }
	return false;
}
static void *t_malloc(size_t size, const char *file, unsigned line) {
	Alloc &a = alloc();
	if (should_fail()) { errno = ENOMEM; return nullptr; }
	if (a.bytes + size > MEM_LIMIT) {
		fprintf(stderr, "runaway allocation: %zu bytes live, request of %zu at %s:%u\n", a.bytes, size, file, line);
		abort();
	}
	void *p = malloc(size);
	if (p) {
		a.live[p] = Alloc::Blk{size, file, line, ++seq};
		a.bytes += size;
		memset(p, 0xa5, size); // "the memory is not initialized"
	}
	return p;
}
static void t_free(void *p, const char *file, unsigned line) {
	Alloc &a = alloc();
	if (!p) return;
	auto it = a.live.find(p);
	if (it == a.live.end()) {
		if (a.error.empty()) {
			char b[400];
			snprintf(b, sizeof b, "ec_free() at %s:%u of a block that is not live in the registered allocator", file, line);
			a.error = b;
		}
		free(p); // let ASan see a double free
		return;
	}
	a.bytes -= it->second.size;
	a.live.erase(it);
	free(p);
}
static void *t_realloc(void *p, size_t size, const char *file, unsigned line) {
	Alloc &a = alloc();
	if (!p) return t_malloc(size, file, line);
	auto it = a.live.find(p);
	if (it == a.live.end()) {
		if (a.error.empty()) {
			char b[400];
			snprintf(b, sizeof b, "ec_realloc() at %s:%u of a block that is not live in the registered allocator", file, line);
			a.error = b;
		}
		return realloc(p, size);
	}
	if (should_fail()) { errno = ENOMEM; return nullptr; }
	// always move, so that stale pointers are caught
	void *q = malloc(size ? size : 1);
	if (!q) return nullptr;
	size_t old = it->second.size;
	memset(q, 0xa5, size ? size : 1);
	memcpy(q, p, std::min(old, size));
	a.bytes = a.bytes - old + size;
	a.live.erase(it);
	free(p);
	a.live[q] = Alloc::Blk{size, file, line, ++seq};
	return q;
}

void alloc_install() {
	if (ec_malloc_register(t_malloc, t_free, t_realloc) < 0) {
		fprintf(stderr, "ec_malloc_register failed\n");
		_Exit(2);
	}
}

static int quiet(int, enum ec_log_level, void *, const char *) { return 0; }

void lib_init() {
	alloc_install();
	if (ec_init() < 0) { fprintf(stderr, "ec_init failed\n"); _Exit(2); }
	ec_log_fct_register(quiet, nullptr);
}

uint64_t alloc_mark() { return seq; }

std::string leaks(uint64_t since, size_t max) {
	std::vector<std::pair<uint64_t, Alloc::Blk>> v;
	for (auto &b : alloc().live)
		if (b.second.seq > since) v.push_back({b.second.seq, b.second});
	if (v.empty()) return "";
	std::sort(v.begin(), v.end(), [](auto &x, auto &y) { return x.first < y.first; });
	std::ostringstream o;
	o << v.size() << " block(s) never freed:";
	for (size_t i = 0; i < v.size() && i < max; i++) {
		const char *f = strrchr(v[i].second.file, '/');
		o << " " << (f ? f + 1 : v[i].second.file) << ":" << v[i].second.line << "(" << v[i].second.size << "B)";
	}
	return o.str();
}

std::vector<std::string> vec(const struct ec_strvec *v) {
	std::vector<std::string> r;
	for (size_t i = 0; i < ec_strvec_len(v); i++) r.push_back(ec_strvec_val(v, i));
	return r;
}
struct ec_strvec *mk(const std::vector<std::string> &v) {
	std::vector<const char *> p;
	for (auto &s : v) p.push_back(s.c_str());
	const char *none = nullptr;
	return ec_strvec_from_array(v.empty() ? &none : p.data(), v.size());
}
std::string show(const std::vector<std::string> &v) {
	std::string o = "[";
	for (size_t i = 0; i < v.size(); i++) o += (i ? ", " : "") + pbt::q(v[i]);
	return o + "]";
}

} // namespace ec
