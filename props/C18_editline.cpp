// Interactive helpers: what <tab> and '?' do to the line, what is displayed,
// which lines are returned, what the history holds.
#include "model.hpp"
#include <algorithm>
#include <fcntl.h>
#include <functional>
#include <pty.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace pbt;
using namespace model;

extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
static Suite *suite;

struct Term { // editline on a pty (or a pipe), output in memory
	FILE *in = nullptr, *out = nullptr;
	int master = -1;
	struct ec_editline *e = nullptr;
	size_t seen = 0;
	static int &drain_fd() { static int f = -1; return f; }
	static void drain() { char b[4096]; ssize_t n; while (drain_fd() >= 0 && (n = read(drain_fd(), b, sizeof b)) > 0) screen().append(b, n); }
	static std::string &screen() { static std::string s; return s; }
	explicit Term(unsigned flags, bool tty, int fd_in = -1) {
		int fd = fd_in, fo = -1;
		if (tty) {
			int sl;
			if (openpty(&master, &sl, nullptr, nullptr, nullptr) < 0) throw Discard();
			fd = sl;
			fo = dup(sl);
			fcntl(master, F_SETFL, O_NONBLOCK);
			drain_fd() = master;
		} else if (fd < 0) fd = open("/dev/null", O_RDONLY);
		in = fdopen(fd, "r");
		out = fo >= 0 ? fdopen(fo, "w") : fdopen(memfd_create("out", 0), "w+");
		setvbuf(in, nullptr, _IONBF, 0);
		e = ec_editline("check", in, out, out, flags);
	}
	~Term() {
		ec_editline_free(e);
		fclose(in);
		fclose(out);
		if (master >= 0) close(master);
		drain_fd() = -1;
	}
	std::string output() { // since the last call
		fflush(out);
		std::string all, r(1 << 16, 0);
		ssize_t n;
		while ((n = pread(fileno(out), &r[0], r.size(), seen)) > 0) { all.append(r, 0, n); seen += n; }
		return all;
	}
	EditLine *el() { return ec_editline_get_el(e); }
};

struct Item { std::string display, completion, str; bool known, partial; const struct ec_comp_group *grp; };
static std::vector<Item> items_of(const struct ec_comp *k) {
	std::vector<Item> v;
	struct ec_comp_item *it;
	if (!k) return v;
	EC_COMP_FOREACH(it, k, EC_COMP_ALL) {
		Item i;
		i.known = ec_comp_item_get_type(it) != EC_COMP_UNKNOWN;
		i.partial = ec_comp_item_get_type(it) == EC_COMP_PARTIAL;
		if (i.known) { i.display = ec_comp_item_get_display(it); i.completion = ec_comp_item_get_completion(it); i.str = ec_comp_item_get_str(it); }
		i.grp = ec_comp_item_get_grp(it);
		v.push_back(i);
	}
	return v;
}
static bool common(const std::vector<Item> &v, std::string &out) {
	bool any = false;
	for (auto &i : v) {
		if (!i.known) continue;
		if (!any) { out = i.completion; any = true; continue; }
		size_t n = 0;
		while (n < out.size() && n < i.completion.size() && out[n] == i.completion[n]) n++;
		out.resize(n);
	}
	return any;
}
// what <tab> inserts
static std::string tab(const struct ec_node *root, const std::string &before, bool *columns = nullptr, std::vector<std::string> *disp = nullptr) {
	struct ec_comp *k = ec_complete(root, before.c_str());
	if (!k) return "";
	auto v = items_of(k);
	std::string a;
	common(v, a);
	size_t n = 0;
	for (auto &i : v) if (i.known) { n += i.partial ? 2 : 1; if (disp) disp->push_back(i.display); }
	if (columns) *columns = a.empty();
	ec_comp_free(k);
	if (!a.empty() && n == 1) a += " ";
	return a;
}
typedef std::vector<std::pair<std::string, std::string>> Helps;
static Helps helps_of(const struct ec_node *root, const std::string &before, const std::string &full) {
	Helps h;
	struct ec_pnode *p = ec_parse(root, full.c_str());
	if (p && ec_pnode_matches(p)) h.push_back({"<return>", "Validate command."});
	ec_pnode_free(p);
	struct ec_comp *k = ec_complete(root, before.c_str());
	const struct ec_comp_group *last = nullptr;
	for (auto &i : items_of(k)) {
		if (i.grp == last) continue;
		last = i.grp;
		std::string help;
		const struct ec_pnode *ps = ec_comp_group_get_pstate(i.grp);
		char *d = ec_node_desc(ec_pnode_get_node(ps));
		for (const struct ec_pnode *x = ps; x; x = ec_pnode_get_parent(x)) {
			const char *t = (const char *)ec_dict_get(ec_node_attrs(ec_pnode_get_node(x)), "help");
			if (t) { help = t; break; }
		}
		h.push_back({d ? d : "", help});
		ec_free(d);
	}
	ec_comp_free(k);
	return h;
}
static std::string show(const Helps &h) { std::string o; for (auto &p : h) o += "\n    " + q(p.first) + " " + q(p.second); return o; }
static Helps got_helps(struct ec_editline_help *h, size_t n) {
	Helps r;
	for (size_t i = 0; i < n; i++) r.push_back({h[i].desc ? h[i].desc : "NULL", h[i].help ? h[i].help : "NULL"});
	return r;
}

struct World {
	Grammar g;
	struct ec_node *root = nullptr;
	GenOpt o;
	void make(Ctx &c, bool big) {
		o = GenOpt::core();
		o.depth = 3;
		o.words = {"a", "ab", "abc", "b", "ba", "foo", "foobar", "Foo", "1", "x y", "fo\"o", "bar"};
		o.w[SHLEX] = 0;
		o.w[FILE_] = 2;
		if (big && c.s.chance(1, 12)) { o.big = 130; o.w[RE] = 0; c.label("large grammar"); }
		gen_grammar(c.s, o, g);
		c.d << "grammar " << g.text() << "\n";
		std::string err;
		root = build(g, err);
		CHECK(c, root, "grammar rejected: " << err);
		for (G *n : g.nodes) if (c.s.chance(1, 4)) {
			std::string h = "help of " + std::to_string(n->uid);
			ec_dict_set(ec_node_attrs(n->node), "help", ec_strdup(h.c_str()), ec_free_func);
		}
		root = ec_node_sh_lex("shlex", root);
		CHECK(c, root, "sh_lex");
	}
	std::string line(Ctx &c) {
		if (c.s.chance(1, 12)) return "";
		Toks t = gen_input(c.s, g, o);
		if (t.size() > 14) t.resize(14);
		if (c.s.draw(4)) complete_cut(c.s, t, o);
		std::string l;
		for (auto &k : t) { if (k.s == "/tmp") k.s = c.s.draw(2) ? "ab/" : "foob"; if (!l.empty()) l += " "; std::string w; for (char ch : k.s) if (ch >= 32 && ch < 127 && ch != '?') w += ch; l += w.empty() ? "''" : sh_quote(c.s, w); }
		if (c.s.chance(1, 3)) l += " ";
		std::string r;
		for (char ch : l) if (ch >= 32 && ch < 127 && ch != '?') r += ch;
		return r;
	}
};
static bool too_costly(const Grammar &g, const std::string &line) {
	ShLex l = sh_lex(line);
	Toks t;
	for (auto &x : l.tokens) t.push_back({x, ""});
	if (l.trail) t.push_back({"", ""});
	auto dirs = [](const std::string &p, std::vector<std::pair<std::string, bool>> &) { // only existing directories below the current one
		size_t at = p.rfind('/');
		struct stat st;
		return at == std::string::npos || (p[0] != '/' && p.find("..") == std::string::npos && stat(p.substr(0, at + 1).c_str(), &st) == 0 && S_ISDIR(st.st_mode));
	};
	try { Ref r; r.limit = g.nodes.size() > 60 ? 1500 : 4000; r.files = dirs; r.complete_root(g.root, t); Ref r2; r2.limit = r.limit; r2.parse_root(g.root, t); } catch (Discard &) { return true; }
	return false;
}

static void helpers_case(Ctx &c) {
	uint64_t mark = ec::alloc_mark();
	{
		World w;
		w.make(c, true);
		Term t((c.s.draw(2) ? EC_EDITLINE_DISABLE_HISTORY : 0), false);
		CHECK(c, t.e, "ec_editline() fails");
		if (c.s.chance(1, 8)) { // the streams are needed
			unsigned miss = 1 + c.s.draw(7);
			errno = 0;
			CHECK(c, !ec_editline("check", miss & 1 ? nullptr : t.in, miss & 2 ? nullptr : t.out, miss & 4 ? nullptr : t.out, 0) && errno == EINVAL, "ec_editline() without streams");
		}
		ec_editline_set_node(t.e, w.root);
		CHECK(c, ec_editline_get_node(t.e) == w.root, "get_node");
		int co = 20 + 20 * c.s.draw(4);
		std::string cs = std::to_string(co);
		el_set(t.el(), EL_SETTC, "co", cs.c_str(), nullptr);
		int width = 0;
		el_get(t.el(), EL_GETTC, "co", &width, nullptr);
		size_t k = 0;
		while (c.s.more(k, 1, 3)) {
			k++;
			std::string full = w.line(c);
			if (too_costly(w.g, full)) throw Discard();
			size_t back = full.empty() || c.s.draw(3) ? 0 : c.s.draw(full.size() + 1);
			std::string before = full.substr(0, full.size() - back), after = full.substr(before.size());
			c.d << "line " << q(before) << " | " << q(after) << "\n";
			el_reset(t.el());
			if (!full.empty()) CHECK(c, el_insertstr(t.el(), full.c_str()) == 0, "insert");
			if (back) el_cursor(t.el(), -(int)back);
			auto cur = [&](bool trim) { char *l = ec_editline_curline(t.e, trim); std::string r = l ? l : "<null>"; ec_free(l); return r; };
			CHECK(c, cur(true) == before && cur(false) == full, "current line " << q(cur(true)) << " of " << q(cur(false)));
			// completions
			struct ec_comp *cp = ec_complete(w.root, before.c_str());
			CHECK(c, cp, "completion fails");
			auto items = items_of(cp);
			std::vector<std::string> disp, got;
			for (auto &i : items) if (i.known) disp.push_back(i.display);
			char **m = nullptr;
			ssize_t n = ec_editline_get_completions(cp, &m);
			CHECK(c, n == (ssize_t)disp.size(), "get_completions returns " << n << " for " << disp.size() << " items");
			for (ssize_t i = 0; i < n; i++) got.push_back(m[i]);
			CHECK(c, got == disp, "get_completions gives " << ec::show(got) << " instead of " << ec::show(disp));
			// columns, in any order given
			for (ssize_t i = n; i > 1; i--) std::swap(m[i - 1], m[c.s.draw(i)]);
			t.output();
			CHECK(c, ec_editline_print_cols(t.e, m, n) == 0, "print_cols fails");
			std::string o = t.output();
			auto check_cols = [&](const std::string &o) {
				CHECK(c, !o.empty() && o[0] == '\n' && o.back() == '\n', "columns " << q(o));
				size_t L = 0, p = 1;
				for (auto &x : disp) L = std::max(L, x.size());
				std::vector<std::string> cells, want = disp;
				while (p < o.size()) {
					std::string row = o.substr(p, o.find('\n', p) - p);
					p += row.size() + 1;
					size_t at = 0, nc = 0;
					do {
						CHECK(c, row.size() >= at + L, "row " << q(row) << " of " << q(o));
						std::string cell = row.substr(at, L);
						while (!cell.empty() && cell.back() == ' ') cell.pop_back();
						cells.push_back(cell);
						at += L;
						nc++;
						if (at < row.size()) { CHECK(c, row.compare(at, 4, "    ") == 0, "row " << q(row) << " of " << q(o)); at += 4; }
					} while (at < row.size());
					CHECK(c, nc == 1 || (int)row.size() <= width, "row " << q(row) << " is larger than " << width);
				}
				for (size_t i = 1; i < cells.size(); i++) CHECK(c, strcasecmp(cells[i - 1].c_str(), cells[i].c_str()) <= 0, "not sorted: " << q(o));
				for (auto &x : want) while (!x.empty() && x.back() == ' ') x.pop_back();
				std::sort(cells.begin(), cells.end());
				std::sort(want.begin(), want.end());
				CHECK(c, cells == want, "columns " << q(o) << " for " << ec::show(want));
			};
			check_cols(o);
			ec_editline_free_completions(m, n);
			size_t heap = __sanitizer_get_current_allocated_bytes();
			n = ec_editline_get_completions(cp, &m);
			ec_editline_free_completions(m, n);
			CHECK(c, __sanitizer_get_current_allocated_bytes() == heap, "get_completions(), free_completions() leak");
			// common part
			std::string a;
			bool any = common(items, a);
			char *ap = ec_editline_append_chars(cp);
			CHECK(c, !!ap == any, "append_chars " << q(ap));
			if (any) CHECK(c, a == ap, "append_chars gives " << q(ap) << " instead of " << q(a));
			ec_free(ap);
			ec_comp_free(cp);
			// helps
			struct ec_editline_help *h = nullptr;
			Helps want = helps_of(w.root, before, full);
			n = ec_editline_get_helps(t.e, before.c_str(), full.c_str(), &h);
			CHECK(c, n == (ssize_t)want.size() && got_helps(h, n) == want, "helps:" << show(n < 0 ? Helps() : got_helps(h, n)) << "\n  instead of" << show(want));
			std::string htext;
			for (auto &p : want) { std::string d = p.first; d.resize(std::max<size_t>(d.size(), 20), ' '); htext += d + " " + p.second + "\n"; }
			t.output();
			CHECK(c, ec_editline_print_helps(t.e, h, n) == 0 && t.output() == htext, "print_helps");
			ec_editline_free_helps(h, n);
			// suggestions: longest prefix ending at a space (or empty) that makes sense
			Helps ws;
			int wpos = -1;
			for (ssize_t i = full.size(); i >= 0; i--) {
				if (i && !isspace((unsigned char)full[i - 1])) continue;
				std::string pre = full.substr(0, i);
				struct ec_pnode *p = ec_parse(w.root, pre.c_str());
				struct ec_comp *x = ec_complete(w.root, pre.c_str());
				bool ok = ec_pnode_matches(p) || items_of(x).size();
				ec_pnode_free(p);
				ec_comp_free(x);
				if (ok) { wpos = i; ws = helps_of(w.root, pre, pre); break; }
			}
			char *fl = nullptr;
			int pos = -1;
			bool wl = c.s.draw(2);
			n = ec_editline_get_suggestions(t.e, &h, wl ? &fl : nullptr, &pos);
			CHECK(c, n == (ssize_t)ws.size() && got_helps(h, n) == ws, "suggestions:" << show(n < 0 ? Helps() : got_helps(h, n)) << "\n  instead of" << show(ws));
			CHECK(c, pos == wpos, "position of the suggestions " << pos << " instead of " << wpos);
			if (wl) CHECK(c, fl && fl == full, "line of the suggestions");
			ec_free(fl);
			ec_editline_free_helps(h, n);
			// <tab> and ?
			bool help = c.s.draw(3) == 0, columns = false;
			std::vector<std::string> disp2;
			std::string ins = tab(w.root, before, &columns, &disp2);
			t.output();
			int r = ec_editline_complete(t.el(), help ? '?' : '\t');
			o = t.output();
			if (help) {
				CHECK(c, r == CC_REDISPLAY && cur(false) == full && cur(true) == before, "'?' changes the line to " << q(cur(false)));
				CHECK(c, o == "\n" + htext, "'?' displays " << q(o) << " instead of " << q("\n" + htext));
			} else if (columns) {
				CHECK(c, r == CC_REDISPLAY && cur(false) == full && cur(true) == before, "<tab> changes the line to " << q(cur(false)));
				check_cols(o);
				size_t at[4];
				for (int i = 0; i < 4; i++) {
					ec_editline_complete(t.el(), '\t');
					at[i] = __sanitizer_get_current_allocated_bytes();
				}
				CHECK(c, at[1] <= at[0] || at[2] - at[1] != at[1] - at[0] || at[3] - at[2] != at[1] - at[0], "<tab> leaks " << at[1] - at[0] << " bytes");
				t.output();
			} else {
				CHECK(c, r == CC_REFRESH, "returns " << r);
				CHECK(c, cur(true) == before + ins && cur(false) == before + ins + after, "<tab> gives " << q(cur(true)) << " of " << q(cur(false)) << " instead of " << q(before + ins));
				c.label("<tab> inserts");
			}
			if (items.size() == 1 && items[0].partial && !ins.empty()) c.label("<tab> inserts a directory");
			if (disp.size() >= 2) { c.nontrivial = true; c.label("several completions"); }
			if (!want.empty()) c.label("has help");
		}
		ec_node_free(w.root);
	}
	CHECK(c, ec::alloc().error.empty(), ec::alloc().error);
	std::string l = ec::leaks(mark);
	CHECK(c, l.empty(), "leak " << l);
}

// ------------------------------------------------------- a session on a terminal
static std::string keys;
static size_t keys_at;
static int key_cb(EditLine *, wchar_t *out) {
	Term::drain();
	if (keys_at >= keys.size()) return 0;
	*out = (unsigned char)keys[keys_at++];
	return 1;
}
static void push_hist(std::vector<std::string> &h, size_t max, const std::string &l) {
	bool blank = true;
	for (char ch : l) if (!isspace((unsigned char)ch)) blank = false;
	if (blank || !max) return;
	if (!h.empty() && h[0] == l) return;
	h.insert(h.begin(), l);
	if (h.size() > max) h.resize(max);
}
static void session_case(Ctx &c) {
	uint64_t mark = ec::alloc_mark();
	{
		World w;
		w.make(c, false);
		bool nohist = c.s.chance(1, 4), nocomp = c.s.chance(1, 6);
		Term t((nohist ? EC_EDITLINE_DISABLE_HISTORY : 0) | (nocomp ? EC_EDITLINE_DISABLE_COMPLETION : 0) | (c.s.draw(2) ? EC_EDITLINE_DISABLE_SIGNALS : c.s.draw(2) ? EC_EDITLINE_DEFAULT_SIGHANDLER : 0), true);
		CHECK(c, t.e, "ec_editline() fails");
		el_set(t.el(), EL_GETCFN, key_cb);
		ec_editline_set_node(t.e, w.root);
		size_t max = nohist ? 0 : EC_EDITLINE_HISTORY_SIZE;
		std::vector<std::string> hist;
		std::string prompt = "> ";
		size_t k = 0, tabs = 0;
		while (c.s.more(k, 1, 6)) {
			k++;
			if (c.s.chance(1, 8)) {
				max = c.s.draw(4);
				c.d << "history size " << max << "\n";
				CHECK(c, ec_editline_set_history(t.e, max, nullptr) == 0, "set_history");
				hist.clear();
			}
			static const std::vector<std::string> PR = {"> ", "$ ", "", "foo# "};
			if (c.s.chance(1, 6)) { const char *p = c.s.draw(5) ? c.s.pick(PR).c_str() : nullptr; prompt = p ? p : ""; CHECK(c, (c.s.draw(2) ? ec_editline_set_prompt(t.e, p) : ec_editline_set_prompt_esc(t.e, p, '\1')) == 0, "prompt"); }
			char *(*prompt_fn)(EditLine *) = nullptr;
			char esc = 0;
			CHECK(c, el_get(t.el(), EL_PROMPT, &prompt_fn, &esc) == 0 && prompt_fn && prompt == prompt_fn(t.el()), "the prompt is not " << q(prompt));
			std::string buf, typed;
			size_t cur = 0;
			keys.clear();
			auto ins = [&](const std::string &s) { buf.insert(cur, s); cur += s.size(); };
			if (!hist.empty() && c.s.chance(1, 3)) {
				size_t up = 1 + c.s.draw(hist.size());
				if (hist[up - 1].back() != ' ') { // libedit drops a last space
					keys += std::string(up, '\x10') + '\x05';
					buf = hist[up - 1];
					cur = buf.size();
					c.label("recalls history");
				}
			}
			std::string text = w.line(c);
			size_t i = 0, steps = 0;
			while (steps++ < 40 && (i < text.size() || c.s.chance(1, 3))) {
				size_t ev = c.s.weighted({20, 3, 1, 1, 1, 1, 1, 2});
				switch (ev) {
				case 0: { if (i >= text.size()) break; size_t n = 1 + c.s.draw(text.size() - i); keys += text.substr(i, n); ins(text.substr(i, n)); i += n; break; }
				case 1: if (nocomp) break;
					if (too_costly(w.g, buf.substr(0, cur))) throw Discard();
					keys += '\t'; tabs++; ins(tab(w.root, buf.substr(0, cur))); break;
				case 2: keys += '\x01'; cur = 0; break;
				case 3: keys += '\x02'; if (cur) cur--; break;
				case 4: keys += '\x06'; if (cur < buf.size()) cur++; break;
				case 5: keys += '\x0b'; buf.resize(cur); break;
				case 6: keys += '\x7f'; if (cur) { buf.erase(--cur, 1); } break;
				default: if (nocomp) { keys += '?'; ins("?"); } else { if (too_costly(w.g, buf)) throw Discard(); keys += '?'; } break;
				}
			}
			keys += '\n';
			keys_at = 0;
			Term::drain();
			Term::screen().clear();
			c.d << "keys " << q(keys) << " expect " << q(buf) << "\n";
			if (c.s.draw(3)) {
				char *l = ec_editline_gets(t.e);
				CHECK(c, l && buf == l, "the line read is " << q(l) << " instead of " << q(buf));
				ec_free(l);
			} else {
				if (too_costly(w.g, buf)) throw Discard();
				struct ec_pnode *p = ec_editline_parse(t.e, w.root), *x = ec_parse(w.root, buf.c_str());
				CHECK(c, !!p == !!x && (!p || (ec_pnode_matches(p) == ec_pnode_matches(x) && ec_pnode_len(p) == ec_pnode_len(x))), "ec_editline_parse differs from ec_parse: " << !!p << !!x << " " << ec_pnode_matches(p) << ec_pnode_matches(x) << " line " << q(ec_strvec_val(ec_pnode_get_strvec(p), 0)));
				if (x && p && ec_pnode_matches(p)) { c.label("line matches"); const struct ec_strvec *v = ec_pnode_get_strvec(p); CHECK(c, ec_strvec_len(v) == 1 && buf == ec_strvec_val(v, 0), "parsed line"); }
				ec_pnode_free(p);
				ec_pnode_free(x);
			}
			CHECK(c, keys_at == keys.size(), "keys left");
			Term::drain();
			CHECK(c, Term::screen().find(prompt) != std::string::npos, "the prompt " << q(prompt) << " is not displayed: " << q(Term::screen()));
			push_hist(hist, max, buf);
		}
		keys.clear();
		keys_at = 0;
		char *l = ec_editline_gets(t.e);
		CHECK(c, !l, "a line is read at the end of input: " << q(l));
		c.nontrivial = tabs >= 1;
		ec_node_free(w.root);
	}
	CHECK(c, ec::alloc().error.empty(), ec::alloc().error);
	std::string l = ec::leaks(mark);
	CHECK(c, l.empty(), "leak " << l);
}

// --------------------------------------- lines read from a pipe, history file
static std::vector<std::string> load_hist(const std::string &path, bool &ok) {
	std::vector<std::string> v;
	History *h = history_init();
	HistEvent ev;
	history(h, &ev, H_SETSIZE, 1000);
	ok = history(h, &ev, H_LOAD, path.c_str()) >= 0;
	if (ok) for (int r = history(h, &ev, H_FIRST); r >= 0; r = history(h, &ev, H_NEXT)) v.push_back(ev.str);
	history_end(h);
	return v;
}
static void pipe_case(Ctx &c) {
	uint64_t mark = ec::alloc_mark();
	std::string path = suite->tmp + "/hist" + std::to_string(getpid());
	unlink(path.c_str());
	{
		std::vector<std::string> saved;     // content of the file
		size_t runs = 0, total = 0;
		while (c.s.more(runs, 1, 3)) {
			runs++;
			size_t max = c.s.draw(5);
			std::vector<std::string> lines;
			static const std::vector<std::string> L = {"a", "foo bar", "", " ", "foo bar ", "x", "  y", "back\\slash", "\"q\"", "a\tb", "#c", "# x y", "!x", "long long line of several words", "?", "a"};
			while (c.s.more(lines.size(), 0, 7, 3, 4)) lines.push_back(c.s.pick(L));
			bool eol = c.s.draw(3);
			std::string data;
			for (size_t i = 0; i < lines.size(); i++) data += lines[i] + (i + 1 < lines.size() || eol ? "\n" : "");
			if (!eol && !lines.empty() && lines.back().empty()) lines.pop_back();
			c.d << "history " << max << ", input " << q(data) << "\n";
			int fd = memfd_create("in", 0);
			if (write(fd, data.data(), data.size()) < 0) _Exit(2);
			lseek(fd, 0, SEEK_SET);
			Term t(c.s.draw(2) ? EC_EDITLINE_DISABLE_HISTORY : 0, false, fd);
			CHECK(c, t.e, "ec_editline() fails");
			CHECK(c, ec_editline_set_history(t.e, max, path.c_str()) == 0, "set_history");
			std::vector<std::string> hist = saved;
			if (hist.size() > max) hist.resize(max);
			bool entered = false;
			size_t stop = c.s.chance(1, 5) ? c.s.draw(lines.size() + 1) : SIZE_MAX, at = 0; // from there, another history, not saved
			for (auto &l : lines) {
				if (at++ == stop) { CHECK(c, ec_editline_set_history(t.e, 1 + c.s.draw(4), nullptr) == 0, "set_history"); c.d << "history not saved any more\n"; c.label("history not saved any more"); }
				char *g = ec_editline_gets(t.e);
				CHECK(c, g && l == g, "the line read is " << q(g) << " instead of " << q(l));
				ec_free(g);
				total++;
				bool blank = true;
				for (char ch : l) if (!isspace((unsigned char)ch)) blank = false;
				if (at > stop) {
					bool ok;
					auto f = load_hist(path, ok);
					CHECK(c, f == saved, "history file " << ec::show(f) << " instead of " << ec::show(saved) << " after another history is set");
					continue;
				}
				if (blank || !max) continue;
				push_hist(hist, max, l);
				entered = true;
				saved = hist;
				bool ok;
				auto f = load_hist(path, ok);
				CHECK(c, ok && f == saved, "history file " << ec::show(f) << " instead of " << ec::show(saved));
			}
			char *g = ec_editline_gets(t.e);
			CHECK(c, !g, "a line is read at the end of input: " << q(g));
			if (entered) c.label("history saved");
			if (runs > 1 && !saved.empty()) c.label("history loaded");
			if (!eol && !lines.empty()) c.label("last line without end of line");
		}
		c.nontrivial = total >= 2;
	}
	unlink(path.c_str());
	CHECK(c, ec::alloc().error.empty(), ec::alloc().error);
	std::string l = ec::leaks(mark);
	CHECK(c, l.empty(), "leak " << l);
}

// ------------------------------------------------------------- out of memory
static void nomem_case(Ctx &c) {
	uint64_t mark = ec::alloc_mark();
	ec::Alloc &a = ec::alloc();
	{
		World w;
		w.make(c, false);
		std::string full = w.line(c);
		if (too_costly(w.g, full)) throw Discard();
		c.d << "line " << q(full) << "\n";
		bool burst = c.s.draw(2);
		size_t op = c.s.draw(6);
		Helps wh = helps_of(w.root, full, full);
		uint64_t n = 1;
		for (uint64_t i = 0; i <= n && i < 400; i++) { // i = 0: no failure
			Term t(EC_EDITLINE_DISABLE_HISTORY, false);
			CHECK(c, t.e, "ec_editline");
			ec_editline_set_node(t.e, w.root);
			if (!full.empty()) el_insertstr(t.el(), full.c_str());
			uint64_t m2 = ec::alloc_mark(), a0 = a.n_alloc;
			if (i) { a.fail_from = a.n_alloc + i; a.fail_to = burst ? UINT64_MAX : a.fail_from; }
			std::string why;
			errno = 0;
			switch (op) {
			case 0: { struct ec_editline *e = ec_editline("x", t.in, t.out, t.out, 0); if (!e && errno == 0) why = "ec_editline: errno"; ec_editline_free(e); break; }
			case 1: { struct ec_editline_help *h = nullptr; ssize_t r = ec_editline_get_helps(t.e, full.c_str(), full.c_str(), &h); a.fail_from = a.fail_to = 0; ec_editline_free_helps(h, r < 0 ? 0 : r); break; }
			case 2: { struct ec_editline_help *h = nullptr; char *f = nullptr; int p; ssize_t r = ec_editline_get_suggestions(t.e, &h, &f, &p); a.fail_from = a.fail_to = 0; ec_editline_free_helps(h, r < 0 ? 0 : r); ec_free(f); break; }
			case 3: ec_editline_complete(t.el(), '?'); break;
			case 4: ec_editline_complete(t.el(), '\t'); break;
			default: { int r = ec_editline_set_prompt(t.e, "new"), r2 = ec_editline_set_prompt_esc(t.e, "new", 1); char *l = ec_editline_curline(t.e, true); if ((r || r2 || !l) && errno == 0) why = "errno"; ec_free(l); break; }
			}
			a.fail_from = a.fail_to = 0;
			if (!i) { n = a.n_alloc - a0; c.nontrivial = n >= 3; }
			CHECK(c, why.empty(), why);
			if (op != 5) { std::string l = ec::leaks(m2); CHECK(c, l.empty(), "operation " << op << ", leak when allocation " << i << " of " << n << " fails: " << l); }
		}
		ec_node_free(w.root);
	}
	CHECK(c, ec::alloc().error.empty(), ec::alloc().error);
	std::string l = ec::leaks(mark);
	CHECK(c, l.empty(), "leak " << l);
}

int main(int argc, char **argv) {
	Suite s;
	suite = &s;
	s.id = "C18";
	s.rule = "several completions; a session with a <tab>; two lines read; an operation that allocates";
	s.init = [&s] { // the current directory holds a few directories and files
		setenv("TERM", "vt100", 1);
		ec::lib_init();
		std::string d = s.tmp + "/files";
		mkdir(d.c_str(), 0700);
		if (chdir(d.c_str())) { perror(d.c_str()); _Exit(2); }
		for (const char *x : {"a", "ab", "foobar", "ab/c"}) mkdir(x, 0700);
		for (const char *x : {"abc", "foo", "ab/x y", "ab/z"}) { int f = open(x, O_CREAT | O_WRONLY, 0600); if (f >= 0) close(f); }
	};
	s.assumptions = {"libedit edits lines and stores histories correctly", "printable ASCII lines"};
	// (libedit leaks the names given to EL_ADDFN: no leak by repetition here)
	s.targets.push_back({"helpers", helpers_case, 15000, 300000, 60, true});
	s.targets.push_back({"session", session_case, 10000, 200000, 20, true});
	s.targets.push_back({"pipe", pipe_case, 5000, 100000, 20, true});
	s.targets.push_back({"nomem", nomem_case, 600, 12000, 20, true});
	return run_main(argc, argv, s);
}
