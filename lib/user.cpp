// Node types registered through the public API, the way an application adds
// its own: their callbacks also check what the library promises them.
#include "model.hpp"

namespace model {

User &user() { static User u; return u; }
bool user_kind(Kind k) { return k >= ULOWER && k < NKINDS; }

struct Priv {
	uint64_t zero[3];          // must be zero when init_priv is called
	struct ec_node **table;
	size_t len;
	unsigned refs;             // references taken on each child
	int err;
	uint64_t magic;
};
#define SAY(cond, ...) do { if (!(cond) && user().broken.empty()) { std::ostringstream o_; o_ << #cond << ": " << __VA_ARGS__; user().broken = o_.str(); } } while (0)

static Priv *priv(const struct ec_node *n) {
	Priv *p = (Priv *)ec_node_priv(n);
	SAY(p->magic == 0x600d600d, "private area damaged");
	return p;
}
static size_t nchildren(const struct ec_pnode *p) {
	size_t n = 0;
	for (const struct ec_pnode *c = ec_pnode_get_first_child(p); c; c = ec_pnode_next(c)) n++;
	return n;
}

extern "C" {

static int u_init(struct ec_node *n) {
	Priv *p = (Priv *)ec_node_priv(n);
	const unsigned char *b = (const unsigned char *)p;
	for (size_t i = 0; i < sizeof *p; i++) SAY(b[i] == 0, "private area not zeroed");
	if (user().fail_init && --user().fail_init == 0) { errno = EDOM; return -1; }
	p->magic = 0x600d600d;
	user().inits++;
	return 0;
}
static void u_free(struct ec_node *n) {
	Priv *p = priv(n);
	for (size_t i = 0; i < p->len; i++) ec_node_free(p->table[i]);
	ec_free(p->table);
	p->magic = 0xdead;
	user().frees++;
}
static size_t u_count(const struct ec_node *n) { return priv(n)->len; }
static int u_child(const struct ec_node *n, size_t i, struct ec_node **c, unsigned *refs) {
	Priv *p = priv(n);
	if (i >= p->len) return -1;
	*c = p->table[i];
	*refs = p->refs;
	return 0;
}
static int u_set_config(struct ec_node *n, const struct ec_config *cfg) {
	Priv *p = priv(n);
	size_t len;
	struct ec_config *l = ec_config_dict_get(cfg, "children");
	struct ec_node **t = ec_node_config_node_list_to_table(l, &len);
	if (t == NULL) return -1;
	const struct ec_config *e = ec_config_dict_get(cfg, "refuse");
	if (e != NULL && e->boolean) {
		for (size_t i = 0; i < len; i++) ec_node_free(t[i]);
		ec_free(t);
		errno = EDOM;
		return -1;
	}
	struct ec_node **old = p->table;
	size_t olen = p->len;
	p->table = t;
	p->len = len;
	p->refs = 2;
	for (size_t i = 0; i < olen; i++) ec_node_free(old[i]);
	ec_free(old);
	return 0;
}

static void enter_parse(const struct ec_node *n, struct ec_pnode *ps, const struct ec_strvec *v) {
	user().parses++;
	SAY(v != NULL, "no vector to parse");
	SAY(ec_pnode_get_node(ps) == n, "parse state of another node");
	SAY(ec_pnode_get_first_child(ps) == NULL, "parse state already has children");
	SAY(ec_pnode_get_strvec(ps) == NULL && !ec_pnode_matches(ps), "parse state already matches");
	const struct ec_pnode *up = ec_pnode_get_parent(ps);
	SAY(!up || ec_pnode_get_last_child(up) == ps, "parse state is not the last child of its parent");
	SAY(!up || ec_pnode_get_strvec(up) == NULL, "ancestor already matches");
	SAY(!ec_dict_len(ec_pnode_get_attrs(ps)), "parse state has attributes");
}
static int sub_parse(const struct ec_node *c, struct ec_pnode *ps, const struct ec_strvec *v) {
	size_t n = nchildren(ps), len = ec_strvec_len(v);
	struct ec_pnode *last = ec_pnode_get_last_child(ps);
	int r = ec_parse_child(c, ps, v);
	SAY(ec_strvec_len(v) == len, "vector changed");
	if (r < 0 || r == EC_PARSE_NOMATCH) {
		SAY(nchildren(ps) == n && ec_pnode_get_last_child(ps) == last, "a failed parse left something in the tree");
		SAY(r == EC_PARSE_NOMATCH || errno != 0, "no errno");
		return r;
	}
	SAY((size_t)r <= len, "consumed more than there is");
	SAY(nchildren(ps) == n + 1, "a matching child is linked once");
	struct ec_pnode *k = ec_pnode_get_last_child(ps);
	SAY(k != last && ec_pnode_get_node(k) == c && ec_pnode_matches(k) && ec_pnode_len(k) == (size_t)r && ec_pnode_get_parent(k) == ps, "child in the tree");
	for (int i = 0; i < r; i++) SAY(!strcmp(ec_strvec_val(ec_pnode_get_strvec(k), i), ec_strvec_val(v, i)), "strings of the child");
	return r;
}

static int u_lower_parse(const struct ec_node *n, struct ec_pnode *ps, const struct ec_strvec *v) {
	priv(n);
	enter_parse(n, ps, v);
	const char *s = ec_strvec_len(v) ? ec_strvec_val(v, 0) : "";
	if (!*s) return EC_PARSE_NOMATCH;
	for (; *s; s++) if (*s < 'a' || *s > 'z') return EC_PARSE_NOMATCH;
	return 1;
}
static const char *parent_id(const struct ec_pnode *ps) {
	struct ec_pnode *p = ec_pnode_get_parent(ps);
	if (!p) return NULL;
	const char *id = ec_node_id(ec_pnode_get_node(p));
	return *id ? id : NULL;
}
static int u_parent_parse(const struct ec_node *n, struct ec_pnode *ps, const struct ec_strvec *v) {
	enter_parse(n, ps, v);
	const char *id = parent_id(ps);
	return id && ec_strvec_len(v) && !strcmp(id, ec_strvec_val(v, 0)) ? 1 : EC_PARSE_NOMATCH;
}
static int u_err_parse(const struct ec_node *n, struct ec_pnode *ps, const struct ec_strvec *v) {
	enter_parse(n, ps, v);
	if (!ec_strvec_len(v)) return EC_PARSE_NOMATCH;
	const char *s = ec_strvec_val(v, 0);
	if (!strcmp(s, "boom")) { errno = user().fired = priv(n)->err; return -1; }
	return strcmp(s, "b") ? EC_PARSE_NOMATCH : 1;
}
static int u_wrap_parse(const struct ec_node *n, struct ec_pnode *ps, const struct ec_strvec *v) {
	enter_parse(n, ps, v);
	return sub_parse(priv(n)->table[0], ps, v);
}
static int u_not_parse(const struct ec_node *n, struct ec_pnode *ps, const struct ec_strvec *v) {
	enter_parse(n, ps, v);
	int r = sub_parse(priv(n)->table[0], ps, v);
	if (r < 0) return r;
	if (r == EC_PARSE_NOMATCH) return 0;
	ec_pnode_free_children(ps);
	return EC_PARSE_NOMATCH;
}
static int u_longest_parse(const struct ec_node *n, struct ec_pnode *ps, const struct ec_strvec *v) {
	Priv *p = priv(n);
	struct ec_pnode *best = NULL, *k;
	int ret = EC_PARSE_NOMATCH;
	enter_parse(n, ps, v);
	for (size_t i = 0; i < p->len; i++) {
		int r = sub_parse(p->table[i], ps, v);
		if (r < 0) { ec_pnode_free(best); return r; }
		if (r == EC_PARSE_NOMATCH) continue;
		k = ec_pnode_get_last_child(ps);
		ec_pnode_unlink_child(k);
		SAY(ec_pnode_get_parent(k) == NULL, "unlinked child has a parent");
		if (ret == EC_PARSE_NOMATCH || r > ret) { ec_pnode_free(best); best = k; ret = r; }
		else ec_pnode_free(k);
	}
	if (best) ec_pnode_link_child(ps, best);
	return ret;
}

struct Enter {
	struct ec_comp *c;
	struct ec_pnode *ps;
	Enter(const struct ec_node *n, struct ec_comp *comp, const struct ec_strvec *v) : c(comp) {
		user().completes++;
		ps = ec_comp_get_cur_pstate(c);
		SAY(v != NULL, "no vector to complete");
		SAY(ps != NULL && ec_pnode_get_node(ps) == n, "completion state of another node");
		SAY(ec_pnode_get_first_child(ps) == NULL && !ec_pnode_matches(ps), "completion state not empty");
		struct ec_pnode *up = ec_pnode_get_parent(ps);
		SAY(!up || ec_pnode_get_last_child(up) == ps, "completion state is not the last child of its parent");
		SAY(ec_comp_get_cur_group(c) == NULL, "the group of another node is current");
	}
};
static int u_add(const struct ec_node *n, struct ec_comp *c, enum ec_comp_type t, const char *start, const char *full) {
	size_t before = ec_comp_count(c, EC_COMP_ALL);
	struct ec_comp_group *g = ec_comp_get_cur_group(c);
	struct ec_comp_item *it = ec_comp_add_item(c, n, t, start, full);
	if (it == NULL) return -1;
	SAY(ec_comp_count(c, EC_COMP_ALL) == before + 1, "count after adding an item");
	SAY(ec_comp_get_cur_group(c) != NULL && (g == NULL || g == ec_comp_get_cur_group(c)), "current group after adding an item");
	SAY(ec_comp_item_get_grp(it) == ec_comp_get_cur_group(c) && ec_comp_item_get_node(it) == n && ec_comp_group_get_node(ec_comp_get_cur_group(c)) == n, "group of the item");
	return 0;
}
static int sub_complete(const struct ec_node *ch, struct ec_comp *c, const struct ec_strvec *v) {
	struct ec_comp_group *g = ec_comp_get_cur_group(c);
	struct ec_pnode *ps = ec_comp_get_cur_pstate(c);
	size_t n = nchildren(ps), cnt = ec_comp_count(c, EC_COMP_ALL);
	int r = ec_complete_child(ch, c, v);
	SAY(ec_comp_get_cur_group(c) == g, "current group not restored");
	SAY(ec_comp_get_cur_pstate(c) == ps, "current parse state not restored");
	SAY(nchildren(ps) == n, "completing a child left something in the parse state");
	SAY(ec_comp_count(c, EC_COMP_ALL) >= cnt, "items lost");
	return r;
}
static int u_none_complete(const struct ec_node *n, struct ec_comp *c, const struct ec_strvec *v) {
	Enter e(n, c, v);
	return 0;
}
static int u_parent_complete(const struct ec_node *n, struct ec_comp *c, const struct ec_strvec *v) {
	Enter e(n, c, v);
	const char *id = parent_id(e.ps);
	if (ec_strvec_len(v) == 1 && id && ec_str_startswith(id, ec_strvec_val(v, 0)))
		return u_add(n, c, EC_COMP_FULL, ec_strvec_val(v, 0), id);
	return 0;
}
static int u_err_complete(const struct ec_node *n, struct ec_comp *c, const struct ec_strvec *v) {
	Enter e(n, c, v);
	if (ec_strvec_len(v) != 1) return 0;
	const char *s = ec_strvec_val(v, 0);
	if (!strcmp(s, "boom")) { errno = user().fired = priv(n)->err; return -1; }
	return !*s || !strcmp(s, "b") ? u_add(n, c, EC_COMP_PARTIAL, s, "b") : 0;
}
static int u_wrap_complete(const struct ec_node *n, struct ec_comp *c, const struct ec_strvec *v) {
	Enter e(n, c, v);
	return sub_complete(priv(n)->table[0], c, v);
}
static int u_longest_complete(const struct ec_node *n, struct ec_comp *c, const struct ec_strvec *v) {
	Enter e(n, c, v);
	Priv *p = priv(n);
	for (size_t i = 0; i < p->len; i++) {
		if (ec_strvec_len(v) == 1 && u_add(n, c, EC_COMP_PARTIAL, ec_strvec_val(v, 0),
				(std::string(ec_strvec_val(v, 0)) + "#" + std::to_string(i)).c_str()) < 0) return -1;
		if (sub_complete(p->table[i], c, v) < 0) return -1;
	}
	return ec_complete_unknown(n, c, v);
}
static char *u_desc(const struct ec_node *n) { return (char *)ec_strdup((std::string("~") + ec_node_id(n)).c_str()); }

} // extern "C"

static const struct ec_config_schema *list_schema() {
	static struct ec_config_schema sub[2], top[3];
	sub[0].type = EC_CONFIG_TYPE_NODE;
	sub[1].type = EC_CONFIG_TYPE_NONE;
	top[0].key = "children";
	top[0].desc = "The alternatives.";
	top[0].type = EC_CONFIG_TYPE_LIST;
	top[0].subschema = sub;
	top[1].key = "refuse";
	top[1].desc = "Refuse the configuration.";
	top[1].type = EC_CONFIG_TYPE_BOOL;
	top[2].type = EC_CONFIG_TYPE_NONE;
	return top;
}

struct ec_node_type *user_type(Kind k) {
	static struct ec_node_type t[NKINDS];
	static bool done;
	if (!done) {
		done = true;
		for (int i = ULOWER; i < NKINDS; i++) {
			t[i].name = kind_name[i];
			t[i].size = sizeof(Priv);
			t[i].init_priv = u_init;
			t[i].free_priv = u_free;
		}
		t[ULOWER].parse = u_lower_parse;
		t[ULOWER].desc = u_desc;
		t[UPARENT].parse = u_parent_parse;
		t[UPARENT].complete = u_parent_complete;
		t[UERR].parse = u_err_parse;
		t[UERR].complete = u_err_complete;
		t[UWRAP].parse = u_wrap_parse;
		t[UWRAP].complete = u_wrap_complete;
		t[UNOT].parse = u_not_parse;
		t[UNOT].complete = u_none_complete;
		t[ULONGEST].parse = u_longest_parse;
		t[ULONGEST].complete = u_longest_complete;
		t[ULONGEST].schema = list_schema();
		t[ULONGEST].set_config = u_set_config;
		for (int i : {UWRAP, UNOT, ULONGEST}) { t[i].get_children_count = u_count; t[i].get_child = u_child; }
	}
	return &t[k];
}
void user_register() {
	for (int i = ULOWER; i < NKINDS; i++)
		if (ec_node_type_register(user_type((Kind)i), false) < 0) abort();
}

struct ec_node *user_node(const G *g, const char *id, std::vector<struct ec_node *> ch) {
	struct ec_node *n = ec_node(kind_name[g->k], id);
	if (!n) { for (auto *c : ch) ec_node_free(c); return nullptr; }
	if (g->k == ULONGEST) {
		struct ec_config *l = ec_config_list(), *d = ec_config_dict();
		for (auto *c : ch) ec_config_list_add(l, ec_config_node(c));
		ec_config_dict_set(d, "children", l);
		if (ec_node_set_config(n, d) < 0) { ec_node_free(n); return nullptr; }
		return n;
	}
	Priv *p = priv(n);
	p->err = (int)g->min;
	p->refs = 1;
	if (!ch.empty()) {
		p->table = (struct ec_node **)ec_calloc(ch.size(), sizeof *p->table);
		p->len = ch.size();
		for (size_t i = 0; i < ch.size(); i++) p->table[i] = ch[i];
	}
	return n;
}

} // namespace model
