// Start-up and registries: init/exit callbacks, allocator, node types, logs.
// Registrations cannot be undone: every case runs in a process of its own.
#include "model.hpp"
#include <algorithm>
#include <fcntl.h>
#include <functional>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace pbt;
using namespace model;

static void in_child(Ctx &c, const std::function<void()> &fn) {
	int p[2];
	if (pipe(p) < 0) { perror("pipe"); _Exit(2); }
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); _Exit(2); }
	if (!pid) {
		close(p[0]);
		std::string msg;
		try { fn(); } catch (Fail &f) { msg = f.msg; }
		if (!msg.empty() && write(p[1], msg.data(), msg.size()) < 0) {}
		_Exit(msg.empty() ? 0 : 1);
	}
	close(p[1]);
	std::string msg;
	char b[4096];
	ssize_t n;
	while ((n = read(p[0], b, sizeof b)) > 0) msg.append(b, n);
	close(p[0]);
	int st;
	waitpid(pid, &st, 0);
	if (!msg.empty()) throw Fail{msg};
	CHECK(c, WIFEXITED(st) && WEXITSTATUS(st) == 0, "the process ends abnormally: " << std::hex << st);
}

// ------------------------------------------------------------- init and exit
static std::vector<int> calls;
static int fail_at = -1, fail_with = -1, busy_at = -1;
static void *malloc_dummy(size_t s, const char *, unsigned) { return malloc(s); }
static void free_dummy(void *p, const char *, unsigned) { free(p); }
static void *realloc_dummy(void *p, size_t s, const char *, unsigned) { return realloc(p, s); }
// callbacks of the highest priority run with the whole library at hand
static std::string unusable;
static void whole_library(const char *when) {
	struct ec_node *n = EC_NODE_CMD("id", "foo [bar] x", ec_node_str("x", "x"));
	struct ec_strvec *v = ec::mk({"foo", "x"}), *w = ec::mk({"foo", "bar", "x"});
	struct ec_pnode *p = n ? ec_parse_strvec(n, v) : nullptr;
	if (!p || !ec_pnode_matches(p)) unusable += std::string(when) + ": cmd nodes do not work; ";
	ec_pnode_free(p);
	struct ec_node *m = ec_node_cond("id", "cmp(eq, count(find(root(), x)), 1)", n);
	p = m ? ec_parse_strvec(m, w) : nullptr;
	if (!p || !ec_pnode_matches(p)) unusable += std::string(when) + ": cond nodes do not work; ";
	ec_pnode_free(p);
	if (m) ec_node_free(m);
	ec_strvec_free(v);
	ec_strvec_free(w);
}
static int late_ret, late_errno;
static void late_alloc() { errno = 0; late_ret = ec_malloc_register(malloc_dummy, free_dummy, realloc_dummy); late_errno = errno; }
template <int I> int init_fn() { calls.push_back(I); if (I == busy_at) { late_alloc(); whole_library("init"); } if (I == fail_at) { errno = EIO; return fail_with; } return 0; }
template <int I> void exit_fn() { calls.push_back(-1 - I); if (I == busy_at) whole_library("exit"); }
#define F(i) {init_fn<i>, exit_fn<i>}
static const struct { ec_init_t *i; ec_exit_t *e; } FNS[] = {F(0), F(1), F(2), F(3), F(4), F(5), F(6), F(7), F(8), F(9), F(10), F(11)};
struct Ini { unsigned prio; bool has_init, has_exit; };
static std::string show(const std::vector<int> &v) { std::string o; for (int x : v) o += (x >= 0 ? " init" : " exit") + std::to_string(x >= 0 ? x : -1 - x); return o; }

static void init_case(Ctx &c) {
	std::vector<Ini> v;
	static const std::vector<unsigned> P = {50, 0, 1, 39, 40, 41, 60, 61, 70, 99, 98, 71, 75, 80, 100, 101, 1000, UINT_MAX};
	while (c.s.more(v.size(), 1, 12, 5, 6)) { Ini i; i.prio = c.s.draw(3) ? c.s.pick(P) : c.s.draw(100); i.has_init = c.s.draw(6); i.has_exit = c.s.draw(6); v.push_back(i); }
	int fa = c.s.chance(1, 4) ? (int)c.s.draw(v.size()) : -1;
	bool again = c.s.chance(1, 4);
	static const std::vector<int> NEG = {-1, -2, -5, -1000, INT_MIN};
	fail_with = c.s.pick(NEG);
	busy_at = -1;
	for (size_t i = 0; i < v.size(); i++) if (v[i].prio >= 98 && v[i].has_init && !again && (int)i != fa && c.s.draw(2)) busy_at = i;
	bool user_alloc = c.s.draw(2);
	for (size_t i = 0; i < v.size(); i++) c.d << i << ": priority " << v[i].prio << (v[i].has_init ? " init" : "") << (v[i].has_exit ? " exit" : "") << ((int)i == fa ? " (fails)" : "") << "\n";
	if (fa >= 0 && !v[fa].has_init) fa = -1;
	in_child(c, [&] {
		if (user_alloc) ec::alloc_install();
		std::vector<struct ec_init> st(v.size());
		for (size_t i = 0; i < v.size(); i++) {
			memset(&st[i], 0, sizeof st[i]);
			st[i].init = v[i].has_init ? FNS[i].i : nullptr;
			st[i].exit = v[i].has_exit ? FNS[i].e : nullptr;
			st[i].priority = v[i].prio;
			ec_init_register(&st[i]);
		}
		CHECK(c, calls.empty(), "registration calls a callback");
		fail_at = fa;
		late_ret = -1; late_errno = EBUSY;
		errno = 0;
		int r = ec_init();
		CHECK(c, r == (fa >= 0 ? -1 : 0), "ec_init() returns " << r);
		if (r) CHECK(c, errno > 0, "errno");
		CHECK(c, late_ret == -1 && late_errno == EBUSY, "the allocator may be changed at the end of the initialization");
		CHECK(c, unusable.empty(), unusable);
		std::vector<int> in = calls;
		for (size_t i = 1; i < in.size(); i++) CHECK(c, v[in[i - 1]].prio <= v[in[i]].prio, "called in wrong order:" << show(in));
		std::set<int> once(in.begin(), in.end());
		CHECK(c, once.size() == in.size(), "called twice:" << show(in));
		if (r == 0) {
			size_t want = 0;
			for (auto &x : v) want += x.has_init;
			CHECK(c, in.size() == want, "not all called:" << show(in));
		} else {
			CHECK(c, !in.empty() && in.back() == fa, "callbacks are called after a failure:" << show(in));
			for (size_t i = 0; i < v.size(); i++) if (v[i].has_init && v[i].prio < v[fa].prio) CHECK(c, once.count(i), "callback " << i << " is not called:" << show(in));
			return;
		}
		if (again) { // the order does not change
			calls.clear();
			CHECK(c, ec_init() == 0 && calls == in, "second initialization:" << show(calls));
		}
		// the library works
		CHECK(c, ec_malloc_register(malloc_dummy, free_dummy, realloc_dummy) == -1 && errno == EBUSY, "the allocator may be changed after the initialization");
		struct ec_node *n = ec_node_str("id", "foo");
		struct ec_pnode *p = ec_parse(n, "foo");
		CHECK(c, n && p && ec_pnode_matches(p), "the library does not work");
		ec_pnode_free(p);
		ec_node_free(n);
		calls.clear();
		ec_exit();
		CHECK(c, unusable.empty(), unusable);
		std::vector<int> out = calls;
		std::set<int> oo(out.begin(), out.end());
		size_t want = 0;
		for (auto &x : v) want += x.has_exit;
		CHECK(c, out.size() == want && oo.size() == want, "exit callbacks:" << show(out));
		for (size_t i = 1; i < out.size(); i++) CHECK(c, v[-1 - out[i - 1]].prio >= v[-1 - out[i]].prio, "called in wrong order:" << show(out));
		// reverse order, also among equal priorities
		std::vector<int> a, b;
		for (int x : in) if (v[x].has_exit) a.push_back(x);
		for (auto it = out.rbegin(); it != out.rend(); ++it) if (v[-1 - *it].has_init) b.push_back(-1 - *it);
		CHECK(c, a == b, "exit is not in reverse order:" << show(in) << " then" << show(out));
		CHECK(c, ec::alloc().error.empty(), ec::alloc().error);
	});
	c.nontrivial = v.size() >= 3;
	if (fa >= 0) c.label("init failure");
}

// ----------------------------------------------------------- node type registry
static int parse_n(const struct ec_node *, struct ec_pnode *, const struct ec_strvec *v, int n) { return (int)ec_strvec_len(v) >= n ? n : EC_PARSE_NOMATCH; }
template <int I> int parse_fn(const struct ec_node *n, struct ec_pnode *p, const struct ec_strvec *v) { return parse_n(n, p, v, I); }
static int comp_none(const struct ec_node *, struct ec_comp *, const struct ec_strvec *) { return 0; }
static void type_case(Ctx &c) {
	struct Op { int kind; int type; bool over; std::string name; };
	std::vector<Op> ops;
	static const std::vector<std::string> N = {"t0", "t1", "t2", "str", "seq", "t", "t00", "st", "strx", "a_long_name_of_a_node_type_0", "a_long_name_of_a_node_type_1", "a_long_name_of_a_node_type_"};
	while (c.s.more(ops.size(), 2, 14, 5, 6)) { Op o; o.kind = c.s.weighted({4, 2, 3, 1}); o.name = c.s.pick(N); o.over = c.s.chance(1, 3); o.type = 0; ops.push_back(o); }
	size_t acc = 0;
	for (auto &o : ops) c.d << (o.kind == 0 ? "register " : o.kind == 1 ? "lookup " : o.kind == 2 ? "create " : "dump ") << o.name << (o.over ? " override" : "") << "\n";
	in_child(c, [&] {
		ec::lib_init();
		std::map<std::string, const struct ec_node_type *> cur;
		for (auto &n : N) { const struct ec_node_type *t = ec_node_type_lookup(n.c_str()); if (t) cur[n] = t; }
		CHECK(c, cur.size() == 2, "types of the library");
		static struct ec_node_type pool[16];
		ec_parse_t fns[] = {parse_fn<0>, parse_fn<1>, parse_fn<2>, parse_fn<3>, parse_fn<4>, parse_fn<5>, parse_fn<6>, parse_fn<7>, parse_fn<8>, parse_fn<9>, parse_fn<10>, parse_fn<11>, parse_fn<12>, parse_fn<13>};
		struct Nd { struct ec_node *n; const struct ec_node_type *t; int k; };
		std::vector<Nd> nodes;
		std::multiset<std::string> names;
		{ char *b = nullptr; size_t l; FILE *f = open_memstream(&b, &l); ec_node_type_dump(f); fclose(f); std::string s = b; free(b); size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); names.insert(s.substr(p, e - p)); p = e + 1; } }
		CHECK(c, names.count("str") == 1 && names.count("many") == 1 && names.count("file") == 1, "dump of the types");
		for (size_t i = 0; i < ops.size(); i++) {
			auto &o = ops[i];
			if (o.kind == 0) {
				struct ec_node_type *t = &pool[i];
				std::string *nm = new std::string(o.name);
				t->name = nm->c_str();
				t->parse = fns[i];
				t->complete = comp_none;
				errno = 0;
				int r = ec_node_type_register(t, o.over);
				bool ok = o.over || !cur.count(o.name);
				CHECK(c, (r == 0) == ok, "step " << i << ": registration returns " << r);
				if (r) CHECK(c, errno == EEXIST, "errno " << errno);
				else { cur[o.name] = t; names.insert(o.name); }
			} else if (o.kind == 1) {
				errno = 0;
				const struct ec_node_type *t = ec_node_type_lookup(o.name.c_str());
				CHECK(c, t == (cur.count(o.name) ? cur[o.name] : nullptr), "step " << i << ": lookup");
				if (!t) CHECK(c, errno == ENOENT, "errno " << errno);
			} else if (o.kind == 2) {
				errno = 0;
				struct ec_node *n = ec_node(o.name.c_str(), "id");
				CHECK(c, !!n == (cur.count(o.name) > 0), "step " << i << ": creation");
				if (!n) { CHECK(c, errno == ENOENT, "errno " << errno); continue; }
				CHECK(c, ec_node_type(n) == cur[o.name] && o.name == ec_node_type_name(ec_node_type(n)), "step " << i << ": type of the new node");
				CHECK(c, ec_node_check_type(n, cur[o.name]) == 0, "check_type");
				for (auto &x : cur) if (x.first != o.name && x.second) {
					errno = 0;
					CHECK(c, ec_node_check_type(n, x.second) < 0 && errno == EINVAL, "step " << i << ": a node of type " << o.name << " passes for " << x.first);
				}
				int k = -1;
				for (size_t j = 0; j < ops.size(); j++) if (cur[o.name] == &pool[j]) k = j;
				nodes.push_back({n, cur[o.name], k});
			} else {
				char *b = nullptr; size_t l;
				FILE *f = open_memstream(&b, &l);
				ec_node_type_dump(f);
				fclose(f);
				std::multiset<std::string> got;
				std::string s = b; free(b);
				size_t p = 0;
				while (p < s.size()) { size_t e = s.find('\n', p); got.insert(s.substr(p, e - p)); p = e + 1; }
				CHECK(c, got == names, "step " << i << ": dump of the types");
			}
			// existing nodes are not affected
			for (auto &x : nodes) {
				CHECK(c, ec_node_type(x.n) == x.t, "step " << i << ": a node changes type");
				if (x.k < 0) continue;
				struct ec_strvec *v = ec_strvec();
				for (int j = 0; j < 14; j++) ec_strvec_add(v, "w");
				struct ec_pnode *p = ec_parse_strvec(x.n, v);
				CHECK(c, p && ec_pnode_matches(p) && (int)ec_pnode_len(p) == x.k, "step " << i << ": a node changes behaviour");
				ec_pnode_free(p);
				ec_strvec_free(v);
			}
		}
		for (auto &x : nodes) ec_node_free(x.n);
		CHECK(c, ec::alloc().error.empty(), ec::alloc().error);
	});
	for (auto &o : ops) acc += o.kind == 0;
	c.nontrivial = acc >= 2;
}

// ---------------------------------------------------------------------- logs
struct Rec { int type, level; void *opaque; std::string s; };
static std::vector<Rec> recs;
static int log_ret;
static int log_cb(int type, enum ec_log_level level, void *opaque, const char *str) { recs.push_back({type, (int)level, opaque, str}); return log_ret; }
static int vlog(int t, enum ec_log_level l, const char *f, ...) { va_list ap; va_start(ap, f); int r = ec_vlog(t, l, f, ap); va_end(ap); return r; }
static void log_case(Ctx &c) {
	struct Op { int k; std::string s; int a, b; };
	std::vector<Op> ops;
	static const std::vector<std::string> N = {"l0", "l1", "log", "node", "l", "", "a long name of log type", "l2"};
	static const std::vector<std::string> M = {"msg\n", "", "100%\n", "a b", "%s", "\xc3\xa9\n"};
	bool user_alloc = c.s.draw(2);
	while (c.s.more(ops.size(), 2, 16, 5, 6)) {
		Op o;
		o.k = c.s.weighted({4, 5, 2, 2, 1, 0});
		if (c.s.chance(1, 60)) o.k = 5;
		o.s = o.k == 0 ? c.s.pick(N) : c.s.pick(M);
		if (o.k == 1 && c.s.chance(1, 8)) o.s = std::string(1 + c.s.draw(c.s.draw(3) ? 3000 : 70000), 'x');
		o.a = c.s.draw(12) - 1;
		o.b = c.s.draw(9);
		ops.push_back(o);
	}
	for (auto &o : ops) c.d << o.k << " " << q(o.s.substr(0, 20)) << " " << o.a << " " << o.b << "\n";
	in_child(c, [&] {
		int fd = memfd_create("err", 0);
		dup2(fd, 2); // the default handler writes on stderr
		if (user_alloc) ec::alloc_install();
		ec_log_type_register("prior");
		CHECK(c, ec_init() == 0, "init");
		ec_log_level_set(EC_LOG_WARNING);
		std::map<std::string, int> ids;
		std::map<int, std::string> byid;
		for (const char *k : {"log", "node", "malloc", "prior"}) { int i = ec_log_type_register(k); CHECK(c, i >= 0 && !byid.count(i), "log type " << k); ids[k] = i; byid[i] = k; }
		std::set<int> first; // the types of the library
		for (int j = 0; j < 2000; j++) if (std::string(ec_log_name(j)) != "unknown") first.insert(j);
		bool mine = false;
		void *opaque = nullptr;
		int level = ec_log_level_get();
		CHECK(c, level == EC_LOG_WARNING, "level");
		std::vector<int> known;
		for (auto &p : ids) known.push_back(p.second);
		off_t seen = 0;
		for (size_t i = 0; i < ops.size(); i++) {
			auto &o = ops[i];
			switch (o.k) {
			case 0: {
				int id = ec_log_type_register(o.s.c_str());
				CHECK(c, id >= 0, "step " << i << ": log type " << q(o.s) << " cannot be registered");
				if (ids.count(o.s)) CHECK(c, ids[o.s] == id, "step " << i << ": " << q(o.s) << " changes identifier");
				else { CHECK(c, !byid.count(id), "step " << i << ": identifier " << id << " is used twice"); ids[o.s] = id; byid[id] = o.s; known.push_back(id); }
				break;
			}
			case 1: {
				int type = o.a < 0 ? -1 : o.a >= (int)known.size() ? 100000 : known[o.a];
				enum ec_log_level l = (enum ec_log_level)(o.b % 8);
				recs.clear();
				log_ret = o.b == 8 ? -1 : 0;
				int r;
				std::string want;
				switch (i % 3) {
				case 0: r = ec_log(type, l, "%s", o.s.c_str()); want = o.s; break;
				case 1: r = vlog(type, l, "<%d|%s|%c>\n", o.a, o.s.c_str(), 'z'); want = "<" + std::to_string(o.a) + "|" + o.s + "|z>\n"; break;
				default: r = ec_log(type, l, "plain %%\n"); want = "plain %\n"; break;
				}
				fflush(stderr);
				std::string out(100000, 0);
				ssize_t n = pread(2, &out[0], out.size(), seen);
				out.resize(n > 0 ? n : 0);
				seen += out.size();
				if (mine) {
					CHECK(c, recs.size() == 1 && recs[0].type == type && recs[0].level == (int)l && recs[0].opaque == opaque && recs[0].s == want, "step " << i << ": " << recs.size() << " messages given to the user function, " << (recs.size() ? q(recs[0].s) : "") << " instead of " << q(want));
					CHECK(c, r == log_ret, "step " << i << ": returns " << r);
					CHECK(c, out.empty(), "step " << i << ": message on stderr");
				} else {
					CHECK(c, recs.empty() && r == 0, "step " << i << ": user function called");
					bool show = (int)l <= level;
					CHECK(c, out.empty() == !show, "step " << i << ": level " << l << ", threshold " << level << ", output " << q(out));
					if (show) {
						CHECK(c, out.size() >= want.size() && out.compare(out.size() - want.size(), want.size(), want) == 0, "step " << i << ": output " << q(out) << " without " << q(want));
						std::string nm = byid.count(type) ? byid[type] : "unknown";
						CHECK(c, out.find(nm) != std::string::npos, "step " << i << ": output " << q(out) << " without " << nm);
					}
				}
				break;
			}
			case 2:
				opaque = o.b % 2 ? &ops[i] : nullptr;
				mine = o.a % 3 != 0;
				CHECK(c, ec_log_fct_register(mine ? log_cb : nullptr, opaque) == 0, "step " << i);
				break;
			case 3: {
				int r = ec_log_level_set((enum ec_log_level)o.b);
				CHECK(c, r == (o.b <= EC_LOG_DEBUG ? 0 : -1), "step " << i << ": level " << o.b << " returns " << r);
				if (!r) level = o.b;
				break;
			}
			case 5: // many types
				for (int j = 0; j < 20 + (o.a + 1) * 40; j++) {
					std::string nm = "many" + std::to_string(i) + "_" + std::to_string(j);
					int id = ec_log_type_register(nm.c_str());
					CHECK(c, id >= 0 && !byid.count(id), "step " << i << ": identifier " << id << " of " << nm << " is used twice");
					ids[nm] = id; byid[id] = nm;
				}
				break;
			default:
				for (int j = 0; j < byid.rbegin()->first + 600; j++) if (!byid.count(j) && !first.count(j)) CHECK(c, std::string(ec_log_name(j)) == "unknown", "step " << i << ": type " << j << " has a name");
				CHECK(c, std::string(ec_log_name(-1 - o.b)) == "unknown" && std::string(ec_log_name(100000 + o.a)) == "unknown", "step " << i << ": unknown type has a name");
			}
			CHECK(c, (int)ec_log_level_get() == level, "step " << i << ": level " << ec_log_level_get() << " instead of " << level);
			for (auto &p : byid) CHECK(c, p.second == ec_log_name(p.first), "step " << i << ": log type " << p.first << " is called " << q(ec_log_name(p.first)) << " instead of " << q(p.second));
			CHECK(c, ec::alloc().error.empty(), ec::alloc().error);
		}
	});
	c.nontrivial = ops.size() >= 4;
}

// -------------------------------------------------------------- the allocator
static size_t n_m, n_f, n_r;
static std::set<void *> mine_blk;
static bool fail_next;
static std::string foreign;
static std::string at_file;
static unsigned at_line;
static void *u_malloc(size_t s, const char *file, unsigned line) { n_m++; at_file = file ? file : ""; at_line = line; if (!file || !*file || !line) foreign = "no location"; if (fail_next) { errno = ENOMEM; return nullptr; } void *p = malloc(s); if (p) memset(p, 0xd5, s); mine_blk.insert(p); return p; }
static void u_free(void *p, const char *file, unsigned line) { n_f++; at_file = file ? file : ""; at_line = line; if (p && !mine_blk.erase(p)) foreign = "free of a block of another allocator"; free(p); }
static void *u_realloc(void *p, size_t s, const char *file, unsigned line) { n_r++; at_file = file ? file : ""; at_line = line; if (fail_next) { errno = ENOMEM; return nullptr; } if (p && !mine_blk.erase(p)) foreign = "realloc of a block of another allocator"; void *q = realloc(p, s); mine_blk.insert(q); return q; }
static void alloc_case(Ctx &c) {
	GenOpt o = GenOpt::core();
	o.w[SHLEX] = 2; o.w[RELEX] = 2; o.w[COND] = 2;
	Grammar g;
	gen_grammar(c.s, o, g);
	Toks in = gen_input(c.s, g, o);
	{ Ref r; r.limit = 6000; r.parse_root(g.root, in); Ref r2; r2.limit = 6000; r2.complete_root(g.root, in); }
	bool twice = c.s.chance(1, 4), before = c.s.draw(2);
	size_t bad = c.s.draw(5), nm = c.s.draw(40), sz = c.s.draw(c.s.chance(1, 4) ? 3000 : 100);
	std::string str;
	while (c.s.more(str.size(), 0, 20, 5, 6)) str += (char)('a' + c.s.draw(3));
	c.d << "grammar " << g.text() << "\ninput " << model::show(in) << "\n";
	in_child(c, [&] {
		errno = 0;
		if (bad < 3) CHECK(c, ec_malloc_register(bad == 0 ? nullptr : u_malloc, bad == 1 ? nullptr : u_free, bad == 2 ? nullptr : u_realloc) == -1 && errno == EINVAL, "missing function accepted");
		void *p0 = nullptr;
		if (before) { // libc by default
			p0 = ec_malloc(10);
			memset(p0, 1, 10);
			p0 = ec_realloc(p0, 100);
			free(p0);
			char *s = (char *)ec_strdup(str.c_str());
			CHECK(c, str == s, "strdup");
			free(s);
		}
		CHECK(c, n_m + n_f + n_r == 0, "a refused allocator is used");
		CHECK(c, ec_malloc_register(u_malloc, u_free, u_realloc) == 0, "registration");
		if (twice) CHECK(c, ec_malloc_register(u_malloc, u_free, u_realloc) == 0, "second registration before the initialization");
		CHECK(c, ec_init() == 0, "init");
		ec_log_fct_register(log_cb, nullptr);
		CHECK(c, ec_malloc_register(u_malloc, u_free, u_realloc) == -1 && errno == EBUSY, "registration after the initialization");
		// the functions of the API
		size_t live = mine_blk.size();
		unsigned char *p = (unsigned char *)ec_calloc(nm, sz);
		for (size_t i = 0; p && i < nm * sz; i++) CHECK(c, p[i] == 0, "calloc does not clear");
		if (nm * sz) CHECK(c, mine_blk.count(p), "calloc does not use the allocator");
		p = (unsigned char *)ec_realloc(p, nm * sz + 10);
		CHECK(c, mine_blk.count(p), "realloc does not use the allocator");
		memset(p, 1, nm * sz + 10);
		ec_free(p);
		errno = 0;
		size_t huge = SIZE_MAX / 2 + 2 + sz;
		CHECK(c, !ec_calloc(2 + nm, huge) && errno == ENOMEM, "overflow in calloc");
		char *s = (char *)ec_strdup(str.c_str());
		CHECK(c, mine_blk.count(s) && str == s, "strdup");
		ec_free(s);
		s = (char *)ec_strndup(str.c_str(), sz % 25);
		CHECK(c, mine_blk.count(s) && str.substr(0, sz % 25) == s, "strndup");
		ec_free(s);
		void *q = ec_malloc_func(sz);
		CHECK(c, mine_blk.count(q), "malloc_func");
		q = ec_realloc_func(q, sz + 50);
		CHECK(c, mine_blk.count(q), "realloc_func");
		memset(q, 1, sz + 50);
		ec_free_func(q);
		ec_free(nullptr);
		{ // the handlers are told who asks
			auto here = [&](unsigned line, const char *f) { CHECK(c, at_file == __FILE__ && at_line == line, f << ": the location given is " << at_file << ":" << at_line); at_file = ""; at_line = 0; };
			void *x = ec_malloc(5); here(__LINE__, "malloc");
			x = ec_realloc(x, 50); here(__LINE__, "realloc");
			ec_free(x); here(__LINE__, "free");
			x = ec_calloc(5, 6); here(__LINE__, "calloc");
			ec_free(x);
			x = ec_strdup("abc"); here(__LINE__, "strdup");
			ec_free(x);
			x = ec_strndup("abc", 2); here(__LINE__, "strndup");
			ec_free(x);
		}
		{ // a buffer that is not terminated
			std::unique_ptr<char[]> raw(new char[str.size() + 1]), two(new char[str.size()]);
			memcpy(two.get(), str.data(), str.size());
			s = (char *)ec_strndup(two.get(), str.size());
			CHECK(c, s && str == s, "strndup of a buffer without end");
			ec_free(s);
		}
		fail_next = true;
		errno = 0;
		CHECK(c, !ec_malloc(1) && !ec_calloc(1, 1) && !ec_strdup("x") && !ec_strndup("x", 1) && !ec_realloc(nullptr, 4) && errno == ENOMEM, "failure of the allocator is hidden");
		fail_next = false;
		CHECK(c, mine_blk.size() == live, "blocks remain");
		// everything comes from it and goes back to it
		std::string err;
		struct ec_node *root = build(g, err);
		CHECK(c, root, err);
		struct ec_strvec *v = to_strvec(in);
		struct ec_pnode *pn = ec_parse_strvec(root, v);
		struct ec_comp *k = ec_complete_strvec(root, v);
		struct ec_pnode *d = ec_pnode_dup(pn);
		char *ds = nullptr;
		if (ec_asprintf(&ds, "%s", "x") < 0) ds = nullptr;
		CHECK(c, mine_blk.count(root) && mine_blk.count(v) && (!pn || mine_blk.count(pn)) && (!k || mine_blk.count(k)) && mine_blk.count(ds), "objects not allocated by the allocator");
		ec_free(ds);
		ec_log_type_register("another type of log");
		ec_pnode_free(d);
		ec_comp_free(k);
		ec_pnode_free(pn);
		ec_strvec_free(v);
		ec_node_free(root);
		CHECK(c, foreign.empty(), foreign);
		CHECK(c, mine_blk.size() == live, mine_blk.size() - live << " blocks are not given back");
		ec_exit();
		CHECK(c, foreign.empty(), foreign);
	});
	c.nontrivial = g.nodes.size() >= 3;
}

int main(int argc, char **argv) {
	Suite s;
	s.id = "C19";
	s.rule = "3+ callbacks; 2+ registrations; 4+ log operations; a grammar of 3+ nodes";
	s.init = [] {};
	s.assumptions = {"the order of callbacks of equal priority is only required to be reversed at exit"};
	s.targets.push_back({"init", init_case, 3000, 60000});
	s.targets.push_back({"type", type_case, 3000, 60000});
	s.targets.push_back({"log", log_case, 3000, 60000});
	s.targets.push_back({"alloc", alloc_case, 3000, 60000});
	return run_main(argc, argv, s);
}
