// Completion of file names against real directories in a scratch folder.
#include "model.hpp"
#include <algorithm>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <unistd.h>
using namespace pbt;
using namespace model;

static Suite *suite;

// ------------------------------------------------ stand-ins for the libc calls
// (they call the real ones; faults only when armed)
static struct {
	bool on = false;
	bool unknown = false;     // the file system does not know the type of entries
	int eio_at = -1;          // readdir fails after this number of entries
	int eio_count = 0;
	bool eio_hit = false;
	bool no_open = false, open_hit = false;
	bool no_dirfd = false, no_stat = false, stat_hit = false;
} fault;
extern "C" struct dirent *readdir(DIR *d) {
	static auto real = (struct dirent * (*)(DIR *)) dlsym(RTLD_NEXT, "readdir");
	if (fault.on && fault.eio_at >= 0 && fault.eio_count++ >= fault.eio_at) { fault.eio_hit = true; errno = EIO; return nullptr; }
	struct dirent *e = real(d);
	if (e && fault.on && fault.unknown) e->d_type = DT_UNKNOWN;
	return e;
}
extern "C" struct dirent64 *readdir64(DIR *d) {
	static auto real = (struct dirent64 * (*)(DIR *)) dlsym(RTLD_NEXT, "readdir64");
	if (fault.on && fault.eio_at >= 0 && fault.eio_count++ >= fault.eio_at) { fault.eio_hit = true; errno = EIO; return nullptr; }
	struct dirent64 *e = real(d);
	if (e && fault.on && fault.unknown) e->d_type = DT_UNKNOWN;
	return e;
}
extern "C" DIR *opendir(const char *p) {
	static auto real = (DIR * (*)(const char *)) dlsym(RTLD_NEXT, "opendir");
	if (fault.on && fault.no_open) { fault.open_hit = true; errno = EMFILE; return nullptr; }
	return real(p);
}
extern "C" int dirfd(DIR *d) {
	static auto real = (int (*)(DIR *)) dlsym(RTLD_NEXT, "dirfd");
	if (fault.on && fault.no_dirfd) { fault.stat_hit = true; errno = ENOTSUP; return -1; }
	return real(d);
}
extern "C" int fstatat(int fd, const char *p, struct stat *st, int flags) {
	static auto real = (int (*)(int, const char *, struct stat *, int)) dlsym(RTLD_NEXT, "fstatat");
	if (fault.on && fault.no_stat) { fault.stat_hit = true; errno = EIO; return -1; }
	return real(fd, p, st, flags);
}
struct Armed { Armed() { fault.on = true; fault.eio_count = 0; fault.eio_hit = fault.open_hit = fault.stat_hit = false; } ~Armed() { fault.on = false; } };

static int open_fds() {
	int n = 0;
	DIR *d = opendir("/proc/self/fd");
	while (readdir(d)) n++;
	closedir(d);
	return n;
}

// ------------------------------------------------------------- the directories
static const char *const NAMES[] = {"a", "ab", "abc", "b", "foo", "foobar", ".h", ".hid", "..x", "sp ace", "a.b", "-", "#c", "it's", "q\"x", "x\\y", "\xc3\xa9t\xc3\xa9", "\xff\x01", "new\nline", "A", "...", "%s%n", "ab\t"};
static void rm_tree(const std::string &p) {
	struct stat st;
	if (lstat(p.c_str(), &st)) return;
	if (S_ISDIR(st.st_mode)) {
		std::vector<std::string> v;
		if (DIR *d = opendir(p.c_str())) {
			while (struct dirent *e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(e->d_name);
			closedir(d);
		}
		for (auto &x : v) rm_tree(p + "/" + x);
		rmdir(p.c_str());
	} else unlink(p.c_str());
}
static std::string own; // real path of the directory of the case
struct Tree {
	std::string top;
	std::vector<std::string> dirs; // relative to top, "" first
	std::vector<std::string> all;
	bool links = false;
	size_t count = 0;
	void fill(Ctx &c, const std::string &rel, int depth, bool with_links) {
		dirs.push_back(rel);
		size_t n = 0, max = depth ? 8 : c.s.chance(1, 40) ? 200 : c.s.chance(1, 150) ? 1200 : 8;
		std::set<std::string> used;
		while (c.s.more(n, depth ? 0 : 2, max, max > 200 ? 600 : max > 8 ? 60 : 4, max > 200 ? 601 : max > 8 ? 61 : 5)) {
			n++;
			std::string name = NAMES[c.s.draw(sizeof NAMES / sizeof *NAMES)];
			if (c.s.chance(1, 3)) name += NAMES[c.s.draw(6)];
			if (c.s.chance(1, 60)) name += std::string(200, 'l');
			if (max > 8) name += std::to_string(n);
			if (!used.insert(name).second) continue;
			std::string r = rel.empty() ? name : rel + "/" + name, path = top + "/" + r;
			size_t k = c.s.weighted({6, n < 30 ? 4u : 0u, 1, 1, with_links ? 1u : 0u, with_links ? 1u : 0u, with_links ? 1u : 0u});
			bool ok = true;
			switch (k) {
			case 0: { int fd = open(path.c_str(), O_CREAT | O_WRONLY | O_EXCL, 0600); ok = fd >= 0; if (ok) close(fd); break; }
			case 1: ok = mkdir(path.c_str(), 0700) == 0; break;
			case 2: ok = mkfifo(path.c_str(), 0600) == 0; break;
			case 3: { int fd = open(path.c_str(), O_CREAT | O_WRONLY | O_EXCL, 0000); ok = fd >= 0; if (ok) close(fd); break; }
			case 4: ok = symlink("/etc/passwd", path.c_str()) == 0; break;
			case 5: ok = symlink(".", path.c_str()) == 0; links = true; break;
			case 6: ok = symlink("does not exist", path.c_str()) == 0; links = true; break;
			}
			if (!ok) { perror(path.c_str()); _Exit(2); }
			count++;
			all.push_back(r);
			if (all.size() < 40) c.d << "  " << q(r) << " kind " << k << "\n";
			if (k == 1 && depth < 2) fill(c, r, depth + 1, with_links);
			else if (k == 1) dirs.push_back(r);
			else if (k == 5) dirs.push_back(r);
		}
	}
	Tree(Ctx &c, bool with_links) {
		static int seq;
		top = suite->tmp + "/t" + std::to_string(getpid()) + "-" + std::to_string(seq++);
		if (mkdir(top.c_str(), 0700)) { perror(top.c_str()); _Exit(2); }
		top += "/top"; // nobody else writes in its parent
		if (mkdir(top.c_str(), 0700) || chdir(top.c_str())) { perror(top.c_str()); _Exit(2); }
		char *rp = realpath("..", nullptr);
		own = rp;
		free(rp);
		fill(c, "", 0, with_links);
	}
	~Tree() { if (chdir(suite->tmp.c_str())) {} rm_tree(top.substr(0, top.size() - 4)); }
	std::string path(Ctx &c) { // something a user types
		std::string dir = dirs[c.s.draw(dirs.size())], p;
		switch (c.s.weighted({5, 2, 2, 1, 1})) {
		case 0: p = dir.empty() ? "" : dir + "/"; break;
		case 1: p = "./" + (dir.empty() ? "" : dir + "/"); break;
		case 2: p = top + "/" + (dir.empty() ? "" : dir + "/"); break;
		case 3: p = (dir.empty() ? "." : dir) + "/../" ; break;
		case 4: p = (dir.empty() ? "." : dir) + "//"; break;
		}
		if (p.size() > 4 && p.compare(p.size() - 4, 4, "/../") == 0 && dir.empty()) p = "./"; // stays inside
		std::string b;
		switch (c.s.weighted({3, 5, 2})) {
		case 0: break;
		case 1: b = NAMES[c.s.draw(sizeof NAMES / sizeof *NAMES)]; b.resize(c.s.draw(b.size() + 1)); break;
		case 2: if (!all.empty()) { b = all[c.s.draw(all.size())]; b = b.substr(b.rfind('/') == std::string::npos ? 0 : b.rfind('/') + 1); b.resize(c.s.draw(b.size() + 1)); } break;
		}
		switch (c.s.draw(24)) {
		case 21: return p + "missing/" + b;
		case 22: if (!all.empty()) return all[c.s.draw(all.size())] + "/" + b; break; // maybe not a directory
		case 23: return c.s.draw(2) ? "." : "..";
		}
		return p + b;
	}
};

// ------------------------------------------------------------------ the oracle
enum Kind_ { FILE__, DIR__, EITHER };
static bool listing(const std::string &in, std::vector<std::pair<std::string, Kind_>> &out) {
	size_t at = in.rfind('/');
	std::string dir = at == std::string::npos ? "." : in.substr(0, at + 1), base = at == std::string::npos ? in : in.substr(at + 1);
	char *rp = realpath(dir.c_str(), nullptr);
	std::string real = rp ? rp : "";
	free(rp);
	if (rp && real.compare(0, own.size(), own) != 0) throw Discard(); // directories that others may change
	DIR *d = opendir(dir.c_str());
	if (!d) return false;
	while (struct dirent *e = readdir(d)) {
		std::string n = e->d_name;
		if (n.compare(0, base.size(), base) != 0) continue;
		if (n[0] == '.' && (base.empty() || base[0] != '.')) continue;
		struct stat st, st2;
		if (fstatat(dirfd(d), n.c_str(), &st, AT_SYMLINK_NOFOLLOW)) continue;
		Kind_ k = S_ISDIR(st.st_mode) ? DIR__ : FILE__;
		if (S_ISLNK(st.st_mode) && fstatat(dirfd(d), n.c_str(), &st2, 0) == 0 && S_ISDIR(st2.st_mode)) k = EITHER;
		out.push_back({n, k});
	}
	closedir(d);
	return true;
}

struct It { int type; std::string str, comp, disp; bool operator<(const It &o) const { return std::tie(str, type, comp, disp) < std::tie(o.str, o.type, o.comp, o.disp); } };
static void compare(Ctx &c, const struct ec_comp *k, const std::string &in, const std::vector<std::pair<std::string, Kind_>> &want) {
	size_t at = in.rfind('/');
	std::string dir = at == std::string::npos ? "" : in.substr(0, at + 1);
	size_t blen = in.size() - dir.size();
	std::map<std::string, Kind_> w(want.begin(), want.end());
	std::set<std::string> seen;
	struct ec_comp_item *it;
	for (it = ec_comp_iter_first(k, EC_COMP_ALL); it; it = ec_comp_iter_next(it, EC_COMP_ALL)) {
		int type = ec_comp_item_get_type(it);
		CHECK(c, type == EC_COMP_FULL || type == EC_COMP_PARTIAL, "item of type " << type);
		std::string s = ec_comp_item_get_str(it), n = s;
		CHECK(c, s.compare(0, in.size(), in) == 0, q(s) << " does not start with the input");
		bool slash = s.size() > in.size() ? s.back() == '/' : false;
		n = s.substr(dir.size());
		if (slash) n.pop_back();
		CHECK(c, w.count(n), q(s) << " is offered");
		CHECK(c, seen.insert(n).second, q(s) << " is offered twice");
		if (w[n] != EITHER) CHECK(c, slash == (w[n] == DIR__), q(n) << (w[n] == DIR__ ? " is a directory" : " is not a directory") << ", offered as " << q(s));
		CHECK(c, type == (slash ? EC_COMP_PARTIAL : EC_COMP_FULL), q(s) << " has type " << type);
		CHECK(c, ec_comp_item_get_completion(it) == s.substr(in.size()), "completion " << q(ec_comp_item_get_completion(it)) << " of " << q(s));
		CHECK(c, ec_comp_item_get_display(it) == n + (slash ? "/" : ""), "display " << q(ec_comp_item_get_display(it)) << " of " << q(s));
	}
	for (auto &x : want) CHECK(c, seen.count(x.first), q(x.first) << " is not offered");
	CHECK(c, ec_comp_count(k, EC_COMP_ALL) == want.size(), "count");
	(void)blen;
}

static void dir_case(Ctx &c) {
	Tree t(c, true);
	fault.unknown = c.s.chance(1, 3);
	fault.eio_at = -1;
	fault.no_open = fault.no_dirfd = fault.no_stat = false;
	struct ec_node *node = ec_node("file", "f");
	uint64_t mark = ec::alloc_mark();
	size_t n = 0;
	while (c.s.more(n, 1, 6, 3, 4)) {
		n++;
		std::string in = t.path(c);
		fault.eio_at = c.s.chance(1, 10) ? (int)c.s.draw(6) : -1;
		fault.no_open = c.s.chance(1, 20);
		fault.no_dirfd = c.s.chance(1, 20);
		fault.no_stat = c.s.chance(1, 20);
		c.d << "complete " << q(in) << (fault.unknown ? ", types unknown" : "") << (fault.eio_at >= 0 ? ", i/o error after " + std::to_string(fault.eio_at) : "") << (fault.no_open ? ", too many open files" : "") << (fault.no_dirfd ? ", no directory descriptor" : "") << (fault.no_stat ? ", entries cannot be examined" : "") << "\n";
		std::vector<std::pair<std::string, Kind_>> want;
		bool ok = listing(in, want);
		bool dangling = false; // (and type unknown: may be reported as an error)
		if (fault.unknown && t.links) for (auto &x : want) {
			size_t at = in.rfind('/');
			std::string p = (at == std::string::npos ? "" : in.substr(0, at + 1)) + x.first;
			if (access(p.c_str(), F_OK)) dangling = true;
		}
		struct ec_strvec *v = ec_strvec();
		ec_strvec_add(v, in.c_str());
		int fds = open_fds();
		struct ec_comp *k;
		errno = 0;
		int err;
		{ Armed a; k = ec_complete_strvec(node, v); err = errno; }
		CHECK(c, open_fds() == fds, "a file descriptor is left open");
		ec_strvec_free(v);
		if (!k) CHECK(c, err > 0, "error without errno");
		if (fault.eio_hit) {
			CHECK(c, !k, "an error while reading the directory is hidden");
			c.label("i/o error");
		} else if (fault.stat_hit) {
			CHECK(c, !k, "an error while examining the entries is hidden");
			c.label("entries cannot be examined");
		} else if (fault.open_hit || !ok) {
			CHECK(c, !k || ec_comp_count(k, EC_COMP_ALL) == 0, "items without a readable directory");
			c.label("no directory");
		} else if (dangling && !k) c.label("broken link of unknown type");
		else {
			CHECK(c, k, "completion fails, errno " << err);
			compare(c, k, in, want);
			if (want.size() >= 2) c.nontrivial = true;
			for (auto &x : want) c.label(x.second == DIR__ ? "directory" : x.second == FILE__ ? "file" : "link");
			if (in.find('/') == std::string::npos) c.label("no directory part");
		}
		ec_comp_free(k);
	}
	// completions are for exactly one token
	for (size_t i = 0; i < 3; i += 2) {
		struct ec_strvec *v = ec::mk(std::vector<std::string>(i, ""));
		struct ec_comp *k = ec_complete_strvec(node, v);
		CHECK(c, k && ec_comp_count(k, EC_COMP_ALL) == 0, "items for " << i << " tokens");
		ec_comp_free(k);
		ec_strvec_free(v);
	}
	CHECK(c, ec::leaks(mark).empty(), ec::leaks(mark));
	ec_node_free(node);
	CHECK(c, ec::alloc().error.empty(), ec::alloc().error);
}

static std::string join(const std::multiset<std::string> &a, const std::multiset<std::string> &b) {
	std::string o;
	for (auto &x : a) if (a.count(x) > b.count(x)) { o += "\n    " + x; if (o.size() > 2000) break; }
	return o.empty() ? " none" : o;
}
// file nodes anywhere in a grammar, behind a shell lexer too
static void grammar_case(Ctx &c) {
	Tree t(c, false);
	GenOpt o = GenOpt::core();
	o.w[FILE_] = 8;
	o.w[STR] = 3;
	o.depth = 3;
	o.words = {"a", "ab", "abc", "b", "foo", "foobar", "a/", "./", "-", "x"};
	Grammar g;
	gen_grammar(c.s, o, g);
	for (G *n : g.nodes) if ((n->k == STR || n->k == INT || n->k == EMPTY) && c.s.draw(3) == 2) n->k = FILE_;
	bool lex = c.s.draw(2);
	if (lex) {
		G *l = g.a.make(SHLEX);
		l->ch.push_back(g.root);
		l->uid = (int)g.nodes.size();
		g.nodes.push_back(l);
		g.root = l;
	}
	Toks w;
	sample(c.s, lex ? g.root->ch[0] : g.root, w, 4);
	for (auto &x : w) if (x.s == "/tmp") x.s = t.path(c);
	if (!w.empty()) w.resize(1 + c.s.draw(w.size()));
	if (w.empty() || c.s.draw(3) == 0) w.push_back({"", ""});
	if (c.s.draw(3)) w.back().s = t.path(c); else complete_cut(c.s, w, o);
	Toks in = w;
	if (lex) {
		std::string line;
		for (size_t i = 0; i < w.size(); i++) line += (i ? " " : "") + (i + 1 == w.size() && w[i].s.find_first_of(" \t\n'\"\\#") == std::string::npos ? w[i].s : sh_quote(c.s, w[i].s));
		if (c.s.chance(1, 3)) { size_t p = line.find_last_of("'\""); if (p != std::string::npos && p + 1 == line.size()) line.pop_back(); } // quote not closed yet
		in = {{line, ""}};
	}
	fault.unknown = c.s.chance(1, 4);
	fault.eio_at = -1;
	fault.no_open = fault.no_dirfd = fault.no_stat = false;
	c.d << "grammar " << g.text() << "\ninput " << model::show(in) << "\n";
	Ref r;
	r.limit = 6000;
	size_t offered = 0;
	r.files = [&](const std::string &p, std::vector<std::pair<std::string, bool>> &out) {
		std::vector<std::pair<std::string, Kind_>> v;
		if (!listing(p, v)) return false;
		for (auto &x : v) { if (x.second == EITHER) return false; out.push_back({x.first, x.second == DIR__}); }
		offered += v.size();
		return true;
	};
	r.complete_root(g.root, in);
	std::multiset<std::string> want, got;
	for (auto &i : r.items) want.insert(i.text());
	std::string err;
	struct ec_node *root = build(g, err);
	CHECK(c, root, err);
	struct ec_strvec *v = to_strvec(in);
	struct ec_comp *k;
	{ Armed a; k = ec_complete_strvec(root, v); }
	CHECK(c, k, "completion fails, errno " << errno);
	for (auto &i : actual_items(k, names(g))) got.insert(i.text());
	CHECK(c, got == want, "missing:" << join(want, got) << "\n  unexpected:" << join(got, want));
	ec_comp_free(k);
	ec_strvec_free(v);
	ec_node_free(root);
	c.nontrivial = offered >= 2;
	if (lex) c.label("shell line");
}

static void nomem_case(Ctx &c) {
	Tree t(c, false);
	std::string in = t.path(c);
	fault.unknown = c.s.draw(2);
	fault.eio_at = -1;
	fault.no_open = fault.no_dirfd = fault.no_stat = false;
	c.d << "complete " << q(in) << "\n";
	std::vector<std::pair<std::string, Kind_>> want;
	if (!listing(in, want) || want.size() > 40) throw Discard();
	struct ec_node *node = ec_node("file", "f");
	struct ec_strvec *v = ec_strvec();
	ec_strvec_add(v, in.c_str());
	auto &A = ec::alloc();
	bool one = c.s.draw(2);
	uint64_t failures = 0;
	for (uint64_t at = 1; at < 2000; at++) {
		int fds = open_fds();
		uint64_t mark = ec::alloc_mark();
		A.n_alloc = A.n_failed = 0;
		A.fail_from = at;
		A.fail_to = one ? at : UINT64_MAX;
		struct ec_comp *k;
		int err;
		errno = 0;
		{ Armed a; k = ec_complete_strvec(node, v); err = errno; }
		A.fail_from = A.fail_to = 0;
		bool hit = A.n_failed > 0;
		CHECK(c, open_fds() == fds, "allocation " << at << " fails: a file descriptor is left open");
		if (k) compare(c, k, in, want);
		else { CHECK(c, hit && err > 0, "allocation " << at << ": errno " << err); failures++; }
		ec_comp_free(k);
		std::string l = ec::leaks(mark);
		CHECK(c, l.empty(), "allocation " << at << " fails: leak of " << l);
		CHECK(c, A.error.empty(), A.error);
		if (!hit) break;
	}
	ec_strvec_free(v);
	ec_node_free(node);
	c.nontrivial = failures >= 5;
}

int main(int argc, char **argv) {
	Suite s;
	suite = &s;
	s.id = "C20";
	s.rule = "generated directory trees and typed paths; non-trivial = two or more entries to offer (nomem: five or more failing allocations)";
	s.init = ec::lib_init;
	s.assumptions = {"a link to a directory may be offered with or without a final slash", "what is returned when the directory cannot be opened is only required to offer nothing", "order of the items is unspecified"};
	s.targets.push_back({"dir", dir_case, 6000, 150000});
	s.targets.push_back({"grammar", grammar_case, 6000, 200000});
	s.targets.push_back({"nomem", nomem_case, 1500, 30000});
	return run_main(argc, argv, s);
}
