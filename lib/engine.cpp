#include "engine.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

// ------------------------------------------------ coverage (library only)
static uint8_t *cov_start, *cov_stop;
extern "C" void __sanitizer_cov_8bit_counters_init(uint8_t *start, uint8_t *stop) {
	// one module only (the library objects); keep the widest range
	if (!cov_start || start < cov_start) cov_start = start;
	if (!cov_stop || stop > cov_stop) cov_stop = stop;
}
extern "C" __attribute__((used, visibility("default"))) const char *__asan_default_options() {
	return "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:"
	       "quarantine_size_mb=8:handle_abort=0:malloc_context_size=12:symbolize=0:"
	       "detect_stack_use_after_return=0:max_allocation_size_mb=1024";
}
extern "C" __attribute__((used, visibility("default"))) const char *__ubsan_default_options() {
	return "print_stacktrace=0:halt_on_error=1:exitcode=99";
}

extern "C" size_t __sanitizer_get_current_allocated_bytes(void);

namespace pbt {

static const size_t REC_CAP = 1 << 15;
static const size_t TXT_CAP = 1 << 15;

struct Shm {
	uint64_t cases;
	uint64_t discards;
	int failed;        // 1: Fail raised, 2: hang
	int running;       // a case is running
	uint32_t rec_n;
	uint32_t rec[REC_CAP];
	char msg[TXT_CAP];
	char desc[TXT_CAP];
};

static Shm *new_shm() {
	Shm *s = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE,
			MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (s == MAP_FAILED) { perror("mmap"); exit(2); }
	return s;
}

static void put(char *dst, const std::string &s) {
	size_t n = std::min(s.size(), TXT_CAP - 1);
	memcpy(dst, s.data(), n);
	dst[n] = 0;
}

static Shm *g_shm;
static void on_prof(int sig) {
	if (g_shm) {
		g_shm->failed = 2;
		strcpy(g_shm->msg, sig == SIGALRM ? "the call does not terminate (blocked)" : "the call does not terminate (CPU limit for one case exceeded)");
	}
	_exit(97);
}
static void arm(unsigned sec) {
	struct itimerval it;
	memset(&it, 0, sizeof it);
	it.it_value.tv_sec = sec;
	setitimer(ITIMER_PROF, &it, nullptr);
	if (sec) it.it_value.tv_sec = sec * 2 > 45 ? sec * 2 : 45; // blocked, or a very loaded machine
	setitimer(ITIMER_REAL, &it, nullptr);
}

// a case that runs out of time is only believed when it does with much more time
static unsigned g_patience = 1;

static double now() {
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec * 1e-9;
}

static double cpu() {
	struct timespec t;
	clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
	return t.tv_sec + t.tv_nsec * 1e-9;
}

static Ctx *ctx;
// Run one case in this process. Returns true if it passed.
static bool run_once(const Target &t, Src &src, Shm *shm, unsigned hang, Ctx *&out) {
	delete ctx;
	ctx = new Ctx(src);
	out = ctx;
	shm->rec_n = 0;
	shm->desc[0] = 0;
	ctx->d.b.shm = shm->desc;
	ctx->d.b.cap = TXT_CAP;
	src.shm = shm->rec;
	src.shm_n = &shm->rec_n;
	src.shm_cap = REC_CAP;
	shm->running = 1;
	arm(hang);
	bool ok = true;
	try {
		t.fn(*ctx);
	} catch (const Fail &f) {
		ok = false;
		shm->failed = 1;
		put(shm->msg, f.msg);
	} catch (const Discard &) {
		ctx->nontrivial = false;
		ctx->labels.clear();
		ctx->label("discarded");
	}
	arm(0);
	shm->running = 0;
	return ok;
}

// The same case again and again: memory that grows by the same amount each
// time is leaked, whatever allocator it comes from.
static bool leaks_memory(const Target &t, const std::vector<uint32_t> &rec, Shm *shm, unsigned hang) {
	size_t at[5];
	for (int i = 0; i < 5; i++) {
		Ctx *c;
		Src s;
		s.in = rec;
		bool ok = run_once(t, s, shm, hang, c);
		delete ctx;
		ctx = nullptr;
		if (!ok) return false; // reported as any other failure
		std::vector<uint32_t>().swap(s.rec);
		at[i] = __sanitizer_get_current_allocated_bytes();
	}
	for (int i = 2; i < 5; i++)
		if (at[i] <= at[i - 1] || at[i] - at[i - 1] != at[2] - at[1]) return false;
	shm->failed = 4;
	put(shm->msg, "the case leaks " + std::to_string(at[2] - at[1]) + " bytes each time it is run");
	return true;
}
static bool run_case(const Target &t, Src &src, Shm *shm, unsigned hang, Ctx *&out, bool leak) {
	if (leak) {
		bool ok = run_once(t, src, shm, hang, out);
		if (!ok || out->labels.count("discarded")) return ok;
		std::vector<uint32_t> rec = src.rec;
		if (rec.size() < REC_CAP && (leaks_memory(t, rec, shm, hang) || shm->failed)) return false;
		Src s;
		s.in = rec;
		ok = run_once(t, s, shm, hang, out);
		src.rec = s.rec;
		return ok;
	}
	return run_once(t, src, shm, hang, out);
}

struct Stats {
	uint64_t cases = 0;
	std::map<std::string, uint64_t> labels;
	std::unordered_set<uint64_t> nontriv;
	std::vector<std::string> samples;
	uint64_t corpus = 0, edges = 0, mutated = 0;
	uint64_t slowest_ms = 0;
};

static void mutate(std::vector<uint32_t> &v, Rng &r, const std::vector<std::vector<uint32_t>> &corpus) {
	unsigned n = 1 + r.below(4);
	while (n--) {
		size_t len = v.size();
		switch (r.below(6)) {
		case 0: if (len) v[r.below(len)] = r.below(1 << 16); break;
		case 1: if (len) { size_t p = r.below(len); v[p] = v[p] + (r.below(2) ? 1 : -1); } break;
		case 2: if (len > 1) { size_t p = r.below(len), l = 1 + r.below(std::min<size_t>(8, len - p));
				v.erase(v.begin() + p, v.begin() + p + l); } break;
		case 3: if (len && len < 4000) { size_t p = r.below(len), l = 1 + r.below(std::min<size_t>(16, len - p));
				std::vector<uint32_t> c(v.begin() + p, v.begin() + p + l);
				v.insert(v.begin() + r.below(len), c.begin(), c.end()); } break;
		case 4: if (!corpus.empty()) { auto &o = corpus[r.below(corpus.size())];
				size_t p = len ? r.below(len) : 0, p2 = o.empty() ? 0 : r.below(o.size());
				v.resize(p); v.insert(v.end(), o.begin() + p2, o.end()); } break;
		case 5: if (len) v.resize(r.below(len)); break; // random tail follows
		}
	}
	if (v.size() > 8000) v.resize(8000);
}

static int bucket(uint8_t c) {
	return c == 0 ? 0 : c == 1 ? 1 : c == 2 ? 2 : c == 3 ? 4 : c < 8 ? 8 : c < 16 ? 16 : c < 32 ? 32 : c < 128 ? 64 : 128;
}

// worker body: never returns
static void worker(const Suite &suite, const Target &t, uint64_t seed, unsigned w, uint64_t ncases,
		uint64_t stop_after, double deadline, Shm *shm, const std::string &statfile) {
	g_shm = shm;
	signal(SIGPROF, on_prof);
		signal(SIGALRM, on_prof);
	struct rlimit rl = {0, 0};
	setrlimit(RLIMIT_CORE, &rl);
	if (suite.init) suite.init();
	Stats st;
	std::vector<std::vector<uint32_t>> corpus;
	size_t ncov = cov_start ? cov_stop - cov_start : 0;
	std::vector<uint8_t> seen(ncov, 0);
	Rng master(hash64(t.name, seed * 1000003ULL + w * 7919ULL + 17));
	int rc = 0;
	for (uint64_t i = 0; i < ncases && i < stop_after; i++) {
		if (now() > deadline) break;
		Src src;
		src.random_tail = true;
		src.rng = Rng(master.next());
		Rng mr(master.next());
		bool mut = false;
		if (!corpus.empty() && mr.below(100) < 35) {
			src.in = corpus[mr.below(corpus.size())];
			mutate(src.in, mr, corpus);
			mut = true;
		}
		if (ncov) memset(cov_start, 0, ncov);
		Ctx *ctx;
		double c0 = cpu();
		bool ok = run_case(t, src, shm, t.hang_s * g_patience, ctx, !t.no_leak && i % 40 == 7);
		st.slowest_ms = std::max<uint64_t>(st.slowest_ms, (cpu() - c0) * 1000);
		st.cases++;
		shm->cases = st.cases;
		if (mut) st.mutated++;
		if (!ok) { rc = 3; break; }
		for (auto &l : ctx->labels) st.labels[l.first] += 1;
		if (ctx->nontrivial) {
			std::string ds = ctx->d.str();
			if (st.nontriv.insert(hash64(ds)).second && st.samples.size() < 2 && (i % 7) == 3)
				st.samples.push_back(ds);
		}
		bool fresh = false;
		for (size_t e = 0; e < ncov; e++) {
			if (!cov_start[e]) continue;
			uint8_t b = bucket(cov_start[e]);
			if (!(seen[e] & b)) { if (!seen[e]) st.edges++; seen[e] |= b; fresh = true; }
		}
		if (fresh && src.rec.size() < 4000 && corpus.size() < 2000) corpus.push_back(src.rec);
	}
	st.corpus = corpus.size();
	std::ofstream f(statfile, std::ios::binary);
	f << st.cases << " " << st.mutated << " " << st.corpus << " " << st.edges << " " << st.slowest_ms << "\n";
	f << st.labels.size() << "\n";
	for (auto &l : st.labels) f << l.second << " " << l.first << "\n";
	f << st.nontriv.size() << "\n";
	for (auto h : st.nontriv) f.write((const char *)&h, 8);
	f << st.samples.size() << "\n";
	for (auto &s : st.samples) f << s.size() << "\n" << s << "\n";
	f.close();
	_exit(rc);
}

static bool load_stats(const std::string &file, Stats &st) {
	std::ifstream f(file, std::ios::binary);
	if (!f) return false;
	uint64_t a, b, c, d, m;
	f >> a >> b >> c >> d >> m;
	st.slowest_ms = std::max(st.slowest_ms, m);
	st.cases += a; st.mutated += b; st.corpus += c; st.edges = std::max(st.edges, d);
	size_t n;
	f >> n;
	for (size_t i = 0; i < n; i++) {
		uint64_t k; std::string l;
		f >> k; f.get(); std::getline(f, l);
		st.labels[l] += k;
	}
	f >> n; f.get();
	for (size_t i = 0; i < n; i++) { uint64_t h; f.read((char *)&h, 8); st.nontriv.insert(h); }
	f >> n;
	for (size_t i = 0; i < n; i++) {
		size_t l; f >> l; f.get();
		std::string s(l, 0); f.read(&s[0], l);
		st.samples.push_back(s);
	}
	return true;
}

struct Outcome {
	bool fail = false;
	int kind = 0; // 1 oracle, 2 hang, 3 crash, 4 leak
	bool repeat = false; // fails when the case is run several times only
	std::string msg, desc;
	std::vector<uint32_t> rec;
};

// Run the choices in a fresh process.
static Outcome probe(const Suite &suite, const Target &t, const std::vector<uint32_t> &in, unsigned hang,
		const std::string &errfile, bool leak = false) {
	Outcome o;
	Shm *shm = new_shm();
	fflush(stdout);
	pid_t p = fork();
	if (p == 0) {
		int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
		dup2(fd, 2);
		int nul = open("/dev/null", O_WRONLY);
		dup2(nul, 1);
		g_shm = shm;
		signal(SIGPROF, on_prof);
		signal(SIGALRM, on_prof);
		struct rlimit rl = {0, 0};
		setrlimit(RLIMIT_CORE, &rl);
		if (suite.init) suite.init();
		Src src;
		src.in = in;
		Ctx *ctx;
		bool ok = run_case(t, src, shm, hang, ctx, leak && !t.no_leak);
		_exit(ok ? 0 : 3);
	}
	int status = 0;
	while (waitpid(p, &status, 0) < 0 && errno == EINTR) {}
	o.rec.assign(shm->rec, shm->rec + std::min<size_t>(shm->rec_n, REC_CAP));
	bool clean = WIFEXITED(status) && WEXITSTATUS(status) == 0;
	if (!clean) {
		o.fail = true;
		if (shm->failed == 1) { o.kind = 1; o.msg = shm->msg; }
		else if (shm->failed == 2) { o.kind = 2; o.msg = shm->msg; }
		else if (shm->failed == 4) { o.kind = 4; o.msg = shm->msg; }
		else {
			o.kind = 3;
			std::ostringstream m;
			if (WIFSIGNALED(status)) m << "killed by signal " << WTERMSIG(status);
			else m << "abnormal exit " << WEXITSTATUS(status) << " (sanitizer report)";
			std::ifstream f(errfile);
			std::string l;
			int k = 0;
			std::string prev;
			while (std::getline(f, l) && k < 40) {
				// repeated frames (deep recursion) once
				size_t at = l.find("0x"), fr = l.find("    #");
				std::string key = fr == 0 && at != std::string::npos ? l.substr(at) : l;
				if (key == prev) continue;
				prev = key;
				m << "\n    | " << l;
				k++;
			}
			o.msg = m.str();
		}
		o.desc = shm->desc;
	}
	munmap(shm, sizeof(Shm));
	return o;
}

// Replace "(exe+0xoff)" by function and line, for the report only.
static std::string symbolize(const std::string &msg) {
	char exe[4096];
	ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
	if (n <= 0) return msg;
	exe[n] = 0;
	std::string pat = std::string("(") + exe + "+0x", out;
	std::istringstream in(msg);
	std::string l;
	int k = 0;
	while (std::getline(in, l)) {
		size_t at = l.find(pat);
		if (at != std::string::npos && k++ < 25) {
			size_t a = at + pat.size() - 2, e = l.find(')', a);
			std::string cmd = std::string("llvm-symbolizer --obj=") + exe + " -f -s -p --no-inlines " + l.substr(a, e - a) + " 2>/dev/null";
			FILE *f = popen(cmd.c_str(), "r");
			char b[512];
			if (f && fgets(b, sizeof b, f)) {
				b[strcspn(b, "\n")] = 0;
				size_t h = l.find('#');
				l = "    | " + (h == std::string::npos ? std::string() : l.substr(h, l.find(' ', h) - h)) + " " + b;
			}
			if (f) pclose(f);
		}
		out += l + "\n";
	}
	return out;
}

static std::vector<uint32_t> trim0(std::vector<uint32_t> v) {
	while (!v.empty() && v.back() == 0) v.pop_back();
	return v;
}

static Outcome shrink(const Suite &suite, const Target &t, Outcome cur, double budget, const std::string &errfile) {
	double end = now() + budget;
	unsigned hang = cur.kind == 2 ? 3 : t.hang_s;
	bool leak = cur.repeat;
	uint64_t tries = 0;
	auto attempt = [&](std::vector<uint32_t> v) -> bool {
		v = trim0(v);
		if (now() > end || tries > 4000) return false;
		if (v.size() > cur.rec.size() || (v.size() == cur.rec.size() && v >= cur.rec)) return false;
		tries++;
		Outcome o = probe(suite, t, v, hang, errfile, leak);
		if (!o.fail || (o.kind == 2 && cur.kind != 2)) return false;
		std::vector<uint32_t> r = trim0(o.rec);
		if (r.size() > v.size()) r = v;
		o.rec = r;
		o.repeat = cur.repeat;
		cur = o;
		return true;
	};
	cur.rec = trim0(cur.rec);
	bool progress = true;
	while (progress && now() < end && tries < 4000) {
		progress = false;
		for (size_t chunk = std::max<size_t>(1, cur.rec.size() / 2); chunk >= 1; chunk /= 2) {
			for (size_t p = 0; p + chunk <= cur.rec.size();) {
				std::vector<uint32_t> v = cur.rec;
				v.erase(v.begin() + p, v.begin() + p + chunk);
				if (attempt(v)) progress = true;
				else p += chunk;
				if (now() > end) break;
			}
			if (now() > end) break;
		}
		for (size_t chunk : {8, 4, 2, 1}) {
			for (size_t p = 0; p + chunk <= cur.rec.size(); p++) {
				std::vector<uint32_t> v = cur.rec;
				bool any = false;
				for (size_t k = 0; k < chunk; k++) { any |= v[p + k] != 0; v[p + k] = 0; }
				if (any && attempt(v)) progress = true;
				if (now() > end) break;
			}
		}
		for (size_t p = 0; p < cur.rec.size(); p++) {
			for (uint32_t cand : {cur.rec[p] / 2, cur.rec[p] - 1}) {
				if (p >= cur.rec.size() || cur.rec[p] == 0) break;
				std::vector<uint32_t> v = cur.rec;
				if (cand >= v[p]) continue;
				v[p] = cand;
				if (attempt(v)) progress = true;
			}
			if (p + 1 < cur.rec.size() && cur.rec[p] > 0) {
				// lower a count and drop one following choice
				std::vector<uint32_t> v = cur.rec;
				v[p]--;
				v.erase(v.begin() + p + 1);
				if (attempt(v)) progress = true;
			}
			if (now() > end) break;
		}
	}
	return cur;
}

static std::string jstr(const std::string &s) {
	std::string o = "\"";
	char b[8];
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c == '\n') o += "\\n";
		else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += c;
	}
	return o + "\"";
}

static std::vector<std::string> g_scratch;
static void rm_rf(const std::string &d) {
	if (d.find("/pbt-") == std::string::npos) return;
	DIR *dir = opendir(d.c_str());
	if (!dir) return;
	while (struct dirent *e = readdir(dir)) {
		std::string n = e->d_name;
		if (n == "." || n == "..") continue;
		std::string p = d + "/" + n;
		struct stat sb;
		if (lstat(p.c_str(), &sb) == 0 && S_ISDIR(sb.st_mode)) rm_rf(p);
		else unlink(p.c_str());
	}
	closedir(dir);
	rmdir(d.c_str());
}

int run_main(int argc, char **argv, Suite &suite) {
	std::string tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick";
	uint64_t seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), nullptr, 10) : 1;
	std::string evidence, outdir = "/verif/out", replay, only;
	double scale = 1;
	unsigned W = 8;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--tier") tier = val();
		else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
		else if (a == "--evidence") evidence = val();
		else if (a == "--out") outdir = val();
		else if (a == "--replay") replay = val();
		else if (a == "--only") only = val();
		else if (a == "--scale") scale = atof(val().c_str());
		else if (a == "--jobs") W = atoi(val().c_str());
		else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
	}
	signal(SIGPIPE, SIG_IGN);
	char tmpl[] = "/tmp/pbt-XXXXXX";
	if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
	suite.tmp = tmpl;
	mkdir(outdir.c_str(), 0755);
	std::string errfile = suite.tmp + "/stderr";

	if (!replay.empty()) {
		std::ifstream f(replay);
		std::string l, tn;
		std::vector<uint32_t> v;
		uint64_t hw = 0, hn = 0, hseed = 0; bool hist = false;
		while (std::getline(f, l)) {
			std::istringstream is(l);
			std::string k; is >> k;
			if (k == "target") is >> tn;
			else if (k == "history") { hist = true; is >> hseed >> hw >> hn; }
			else if (k == "choices") { uint32_t x; while (is >> x) v.push_back(x); }
		}
		int rc = 2;
		for (auto &t : suite.targets) if (t.name == tn) {
			if (hist) { fprintf(stderr, "history replay: re-run the check with the recorded seed\n"); break; }
			Outcome o = probe(suite, t, v, t.hang_s, errfile, true);
			o.msg = symbolize(o.msg);
			if (o.fail) printf("FAILS\ncase:\n%s\nreason: %s\n", o.desc.c_str(), o.msg.c_str());
			else printf("passes\n");
			rc = o.fail ? 1 : 0;
		}
		rm_rf(suite.tmp);
		return rc;
	}

	double t0 = now();
	double limit = tier == "thorough" ? 3600 : 420; // safety stop of the search
	if (getenv("PBT_LIMIT")) limit = atof(getenv("PBT_LIMIT"));
	int violations = 0;
	Stats total;
	std::ostringstream tj;
	bool firstt = true;

	for (auto &k : suite.known) {
		fflush(stdout);
		pid_t p = fork();
		if (p == 0) {
			int nul = open("/dev/null", O_WRONLY);
			dup2(nul, 2); dup2(nul, 1);
			signal(SIGPROF, on_prof);
		signal(SIGALRM, on_prof);
			arm(5);
			if (suite.init) suite.init();
			bool f = true;
			try { f = k.still_fails(); } catch (...) {}
			_exit(f ? 1 : 0);
		}
		int st;
		while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
		if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
			printf("KNOWN-FINDING: property=%s %s\n", suite.id.c_str(), k.what.c_str());
	}

	uint64_t slow = 0;
	const uint64_t seed0 = seed;
	for (size_t ti = 0, attempt = 0; ti < suite.targets.size(); ti++) {
		auto &t = suite.targets[ti];
		if (!only.empty() && t.name != only) continue;
		seed = seed0 + 1000003 * attempt;
		uint64_t n = (uint64_t)((tier == "thorough" ? t.thorough : t.quick) * scale);
		if (n == 0) continue;
		double tt = now();
		std::vector<pid_t> pids(W, 0);
		std::vector<Shm *> shms(W);
		fflush(stdout);
		for (unsigned w = 0; w < W; w++) {
			shms[w] = new_shm();
			pid_t p = fork();
			if (p == 0) {
				std::string ef = suite.tmp + "/err." + std::to_string(w);
				int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
				dup2(fd, 2);
				int nul = open("/dev/null", O_WRONLY);
				dup2(nul, 1);
				worker(suite, t, seed, w, (n + W - 1) / W, UINT64_MAX, t0 + limit, shms[w],
					suite.tmp + "/stat." + std::to_string(w));
			}
			pids[w] = p;
		}
		int failed = -1;
		unsigned alive = W;
		while (alive) {
			int status;
			pid_t p = waitpid(-1, &status, 0);
			if (p < 0) { if (errno == EINTR) continue; break; }
			for (unsigned w = 0; w < W; w++) if (pids[w] == p) {
				pids[w] = 0;
				alive--;
				if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
					if (failed < 0) {
						failed = w;
						for (unsigned x = 0; x < W; x++) if (pids[x]) kill(pids[x], SIGKILL);
					}
				}
			}
		}
		Stats st;
		uint64_t partial = 0;
		for (unsigned w = 0; w < W; w++) {
			if (!load_stats(suite.tmp + "/stat." + std::to_string(w), st)) partial += shms[w]->cases;
			unlink((suite.tmp + "/stat." + std::to_string(w)).c_str());
		}
		st.cases += partial;
		fprintf(stderr, "[%s/%s] %llu cases, %zu distinct non-trivial, corpus %llu, edges %llu, %.1fs, slowest case %llu ms\n",
			suite.id.c_str(), t.name.c_str(), (unsigned long long)st.cases, st.nontriv.size(),
			(unsigned long long)st.corpus, (unsigned long long)st.edges, now() - tt, (unsigned long long)st.slowest_ms);
		for (auto &l : st.labels)
			fprintf(stderr, "    %-40s %llu\n", l.first.c_str(), (unsigned long long)l.second);
		if (failed >= 0) {
			Shm *sh = shms[failed];
			std::vector<uint32_t> rec(sh->rec, sh->rec + std::min<size_t>(sh->rec_n, REC_CAP));
			const bool hang = sh->failed == 2;
			const unsigned patience = hang ? 4 : 1;
			Outcome o = probe(suite, t, rec, t.hang_s * patience, errfile);
			if (!o.fail && !hang) {
				o = probe(suite, t, rec, t.hang_s, errfile, true);
				o.repeat = o.fail;
			}
			bool history = false;
			std::string path = outdir + "/" + suite.id + "-" + t.name + ".replay";
			std::ofstream rf;
			if (o.fail) {
				Outcome full = o;
				o = shrink(suite, t, o, tier == "thorough" ? 120 : 60, errfile);
				int again = 0;
				if (hang) { // shrunk to a case that is merely slow?
					Outcome r = probe(suite, t, o.rec, t.hang_s * 2, errfile);
					if (!r.fail) o = full;
					again = 3;
				} else for (int k = 0; k < 3; k++) {
					Outcome r = probe(suite, t, o.rec, t.hang_s, errfile, o.repeat);
					if (r.fail) { again++; o.msg = r.msg; o.desc = r.desc; }
				}
				if (again < 3) {
					fprintf(stderr, "flaky failure (%d/3): %s\n", again, o.msg.c_str());
					if (again == 0) o.fail = false;
				}
			}
			if (!o.fail) {
				// depends on earlier cases of the same process: replay the history
				int again = 0;
				g_patience = patience;
				for (int k = 0; k < 3 && again == k; k++) {
					Shm *s2 = new_shm();
					fflush(stdout);
					pid_t p = fork();
					if (p == 0) {
						int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
						dup2(fd, 2);
						int nul = open("/dev/null", O_WRONLY);
						dup2(nul, 1);
						worker(suite, t, seed, failed, (n + W - 1) / W, sh->cases + 1,
							now() + 600, s2, suite.tmp + "/stat.h");
					}
					int status;
					while (waitpid(p, &status, 0) < 0 && errno == EINTR) {}
					if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
						again++;
						o.msg = s2->failed ? s2->msg : "crash";
						o.desc = s2->desc;
						if (!s2->failed) {
							std::ifstream f(errfile);
							std::string l; int kk = 0;
							while (std::getline(f, l) && kk++ < 20) o.msg += "\n    | " + l;
						}
					}
					munmap(s2, sizeof(Shm));
				}
				g_patience = 1;
				if (again == 3) { o.fail = true; history = true; }
				else if (hang) {
					fprintf(stderr, "slow case: %s/%s worker %d stopped, but the case ends when given more time\n",
						suite.id.c_str(), t.name.c_str(), failed);
					slow++;
				} else fprintf(stderr, "NOT REPRODUCIBLE: %s/%s worker %d (%d/3): %s\n", suite.id.c_str(),
					t.name.c_str(), failed, again, sh->msg);
			}
			if (o.fail) {
				o.msg = symbolize(o.msg);
				violations++;
				rf.open(path);
				rf << "property " << suite.id << "\ntarget " << t.name << "\nseed " << seed << "\n";
				if (history) rf << "history " << seed << " " << failed << " " << sh->cases + 1 << "\n";
				rf << "choices";
				for (auto c : o.rec) rf << " " << c;
				rf << "\n\ncase:\n" << o.desc << "\nreason: " << o.msg << "\n";
				rf.close();
				printf("case:\n%s\nreason: %s\n", o.desc.c_str(), o.msg.c_str());
				printf("VIOLATION property=%s replay=%s\n", suite.id.c_str(), path.c_str());
				fflush(stdout);
			} else if (!hang) {
				// a worker died and nothing reproduces it: an error of the check
				for (unsigned w = 0; w < W; w++) munmap(shms[w], sizeof(Shm));
				rm_rf(suite.tmp);
				return 2;
			}
		}
		for (unsigned w = 0; w < W; w++) munmap(shms[w], sizeof(Shm));
		total.cases += st.cases;
		total.mutated += st.mutated;
		total.corpus += st.corpus;
		for (auto h : st.nontriv) total.nontriv.insert(h ^ hash64(t.name));
		for (size_t i = 0; i < st.samples.size() && i < 2; i++)
			total.samples.push_back("[" + t.name + "] " + st.samples[i]);
		tj << (firstt ? "" : ",") << "\n   " << jstr(t.name + (attempt ? "#" + std::to_string(attempt + 1) : "")) << ": {\"cases\": " << st.cases
		   << ", \"distinct_nontrivial\": " << st.nontriv.size() << ", \"mutated_from_corpus\": " << st.mutated
		   << ", \"edges\": " << st.edges << ", \"slowest_case_ms\": " << st.slowest_ms << ", \"classes\": {";
		bool fl = true;
		for (auto &l : st.labels) { tj << (fl ? "" : ", ") << jstr(l.first) << ": " << l.second; fl = false; }
		tj << "}}";
		firstt = false;
		if (violations) break;
		// go on with other cases in place of those that were not run
		if (failed >= 0 && attempt < 2) { attempt++; ti--; }
		else attempt = 0;
	}
	seed = seed0;
	double wall = now() - t0;
	if (!evidence.empty()) {
		std::ofstream e(evidence);
		e << "{\n \"property\": " << jstr(suite.id) << ",\n \"tier\": " << jstr(tier) << ",\n \"seed\": " << seed
		  << ",\n \"level\": " << jstr(suite.level) << ",\n \"coverage\": {\n  \"evaluations\": " << total.cases
		  << ",\n  \"distinct_nontrivial\": " << total.nontriv.size() << ",\n  \"rule\": " << jstr(suite.rule)
		  << ",\n  \"samples\": [";
		for (size_t i = 0; i < total.samples.size() && i < 16; i++)
			e << (i ? "," : "") << "\n   " << jstr(total.samples[i].substr(0, 1500));
		e << "\n  ],\n  \"targets\": {" << tj.str() << "\n  }\n },\n \"assumptions\": [";
		for (size_t i = 0; i < suite.assumptions.size(); i++)
			e << (i ? ", " : "") << jstr(suite.assumptions[i]);
		e << "],\n \"slow_cases\": " << slow << ",\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
	}
	rm_rf(suite.tmp);
	return violations ? 1 : 0;
}

} // namespace pbt
