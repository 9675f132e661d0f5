#include "model.hpp"
using namespace pbt;
using namespace model;

typedef __int128 i128;
static std::string fmt(i128 v) {
	if (v == 0) return "0";
	bool n = v < 0;
	if (n) v = -v;
	std::string o;
	while (v) { o.insert(o.begin(), '0' + (int)(v % 10)); v /= 10; }
	return n ? "-" + o : o;
}

static i128 gen_val(Src &s, bool sg) {
	static const std::vector<i128> key = {0, 1, -1, 10, 7, 8, 255, 256, INT32_MAX, INT64_MAX, INT64_MIN, UINT64_MAX, (i128)1 << 63, UINT32_MAX};
	i128 v;
	switch (s.draw(4)) {
	case 0: v = s.range(0, 40); break;
	case 1: v = (int64_t)s.bits64() >> s.draw(63); break;
	case 2: v = s.pick(key); break;
	default: v = s.pick(key) + s.range(-2, 2); break;
	}
	if (s.chance(1, 4)) v = -v;
	i128 lo = sg ? (i128)INT64_MIN : 0, hi = sg ? (i128)INT64_MAX : (i128)UINT64_MAX;
	if (v < lo) v = lo;
	if (v > hi) v = hi;
	return v;
}

static std::string gen_num(Src &s, unsigned base, const std::vector<i128> &near) {
	i128 v;
	if (!near.empty() && s.chance(2, 3)) v = s.pick(near) + s.range(0, 4) - 2;
	else v = gen_val(s, true) + (s.chance(1, 8) ? gen_val(s, false) : 0);
	if (s.chance(1, 12)) v *= (s.draw(2) ? 10 : 3);
	if (s.chance(1, 20)) v += ((i128)1 << 64) * (s.draw(2) ? 1 : -1);
	bool neg = v < 0;
	i128 a = neg ? -v : v;
	unsigned b = base;
	std::string pre;
	if (base == 0) {
		switch (s.draw(3)) {
		case 0: b = 10; break;
		case 1: b = 16; pre = s.draw(2) ? "0X" : "0x"; break;
		default: b = 8; pre = "0"; break;
		}
	} else if (base == 16 && s.draw(2)) pre = s.draw(2) ? "0x" : "0X";
	if (b < 2 || b > 36) b = 10;
	std::string d;
	bool up = s.draw(2);
	do { int x = (int)(a % b); d.insert(d.begin(), x < 10 ? '0' + x : (up ? 'A' : 'a') + x - 10); a /= b; } while (a);
	if (s.chance(1, 5) && !(base == 0 && pre.empty())) d = std::string(1 + s.draw(3), '0') + d;
	std::string o = (neg ? "-" : s.chance(1, 8) ? "+" : "") + pre + d;
	if (s.chance(1, 6)) o = std::string(1, " \t\n\v\f\r"[s.draw(6)]) + o;
	switch (s.weighted({12, 1, 1, 1, 1})) {
	case 1: if (!o.empty()) o.erase(s.draw(o.size()), 1); break;
	case 2: o.insert(s.draw(o.size() + 1), 1, " -+xg9z.\xc3"[s.draw(9)]); break;
	case 3: o.resize(s.draw(o.size() + 1)); break;
	case 4: o += s.draw(2) ? " " : "0"; break;
	}
	return o;
}
static bool binary_prefix(const std::string &t) { return t.find("0b") != std::string::npos || t.find("0B") != std::string::npos; }
static unsigned gen_base(Src &s) {
	if (s.chance(1, 15)) { static const std::vector<unsigned> bad = {1, 37, 100, 256, 258, 266, 272, 65546}; return s.pick(bad); }
	switch (s.draw(4)) {
	case 0: return 0;
	case 1: return 10;
	case 2: return 16;
	default: return 2 + s.draw(35);
	}
}
static bool base_ok(unsigned b) { return b == 0 || (b >= 2 && b <= 36); }

// the conversion functions
static void fn_case(Ctx &c) {
	bool sg = c.s.draw(2) == 0;
	unsigned base = gen_base(c.s);
	i128 min = sg ? (i128)INT64_MIN : 0, max = sg ? (i128)INT64_MAX : (i128)UINT64_MAX;
	if (c.s.draw(3)) { min = gen_val(c.s, sg); max = gen_val(c.s, sg); if (min > max && c.s.chance(9, 10)) std::swap(min, max); }
	std::string t = gen_num(c.s, base, {min, max});
	if (binary_prefix(t) && (base == 0 || base == 2)) throw Discard();
	c.d << (sg ? "llint " : "ullint ") << q(t) << " base " << base << " min " << fmt(min) << " max " << fmt(max);
	i128 w = 0;
	bool valid = base_ok(base) && ref_int(t, base, w, sg), ok = valid && w >= min && w <= max;
	i128 got;
	int r;
	errno = 12345;
	if (sg) { int64_t v = 4242; r = ec_str_parse_llint(t.c_str(), base, (int64_t)min, (int64_t)max, &v); got = v; }
	else { uint64_t v = 4242; r = ec_str_parse_ullint(t.c_str(), base, (uint64_t)min, (uint64_t)max, &v); got = v; }
	CHECK(c, r == (ok ? 0 : -1), "returned " << r << " expected " << (ok ? 0 : -1));
	if (ok) {
		CHECK(c, got == w, "value " << fmt(got) << " expected " << fmt(w));
		CHECK(c, errno == 12345, "errno modified on success: " << errno);
		c.nontrivial = w > 9 || w < 0;
		c.label("accepted");
	} else {
		if (valid) { CHECK(c, errno == ERANGE, "out of bounds but errno=" << errno); c.label("out of bounds"); c.nontrivial = true; }
		else { CHECK(c, errno == EINVAL || errno == ERANGE, "invalid but errno=" << errno); c.label("invalid or overflow"); }
	}
}

struct Conf { bool hmin = false, hmax = false, hbase = false; i128 min = 0, max = 0; unsigned base = 0; };

// the nodes, through constructors and configurations, reconfigured at will
static void node_case(Ctx &c) {
	uint64_t mark = ec::alloc_mark();
	bool sg = c.s.draw(2) == 0;
	Conf k;
	struct ec_node *n;
	if (c.s.draw(2)) {
		k.hmin = k.hmax = k.hbase = true;
		k.min = gen_val(c.s, sg); k.max = gen_val(c.s, sg); k.base = gen_base(c.s);
		c.d << "new " << (sg ? "int " : "uint ") << fmt(k.min) << ".." << fmt(k.max) << " base " << k.base;
		errno = 0;
		n = sg ? ec_node_int("n", (int64_t)k.min, (int64_t)k.max, k.base) : ec_node_uint("n", (uint64_t)k.min, (uint64_t)k.max, k.base);
		if (k.min > k.max) {
			CHECK(c, !n && errno == EINVAL, "min > max accepted or errno=" << errno);
			std::string l = ec::leaks(mark);
			CHECK(c, l.empty(), "leak " << l);
			return;
		}
		CHECK(c, n, "node refused");
	} else {
		n = ec_node(sg ? "int" : "uint", "n");
		c.d << "default " << (sg ? "int" : "uint");
		CHECK(c, n, "ec_node");
	}
	size_t m = 1 + c.s.draw(6);
	int acc = 0, rej = 0;
	for (size_t i = 0; i < m; i++) {
		if (c.s.chance(1, 3)) {
			Conf w;
			w.hmin = c.s.draw(2); w.hmax = c.s.draw(2); w.hbase = c.s.draw(2);
			if (w.hmin) w.min = gen_val(c.s, sg);
			if (w.hmax) w.max = gen_val(c.s, sg);
			if (w.hbase) w.base = gen_base(c.s);
			struct ec_config *cf = ec_config_dict();
			c.d << "\nconfig";
			if (w.hmin) { c.d << " min=" << fmt(w.min); CHECK(c, !ec_config_dict_set(cf, "min", sg ? ec_config_i64((int64_t)w.min) : ec_config_u64((uint64_t)w.min)), "set"); }
			if (w.hmax) { c.d << " max=" << fmt(w.max); CHECK(c, !ec_config_dict_set(cf, "max", sg ? ec_config_i64((int64_t)w.max) : ec_config_u64((uint64_t)w.max)), "set"); }
			if (w.hbase) { c.d << " base=" << w.base; CHECK(c, !ec_config_dict_set(cf, "base", ec_config_u64(w.base)), "set"); }
			errno = 0;
			int r = ec_node_set_config(n, cf);
			if (w.hmin && w.hmax && w.min > w.max) CHECK(c, r == -1 && errno == EINVAL, "min > max accepted");
			else { CHECK(c, r == 0, "config refused, errno=" << errno); k = w; }
		}
		i128 lo = k.hmin ? k.min : sg ? (i128)INT64_MIN : 0, hi = k.hmax ? k.max : sg ? (i128)INT64_MAX : (i128)UINT64_MAX;
		std::vector<std::string> in;
		size_t cnt = c.s.weighted({8, 1, 2});
		for (size_t j = 0; j < (cnt == 1 ? 0 : cnt == 2 ? 2 : 1); j++) in.push_back(gen_num(c.s, k.base, {lo, hi}));
		if (!in.empty() && binary_prefix(in[0]) && (k.base == 0 || k.base == 2)) in[0] = "x";
		c.d << "\nparse " << ec::show(in);
		i128 v = 0;
		bool ok = !in.empty() && base_ok(k.base) && ref_int(in[0], k.base, v, sg) && v >= lo && v <= hi;
		struct ec_strvec *sv = ec::mk(in);
		struct ec_pnode *p = ec_parse_strvec(n, sv);
		CHECK(c, p, "parse failed");
		CHECK(c, ec_pnode_matches(p) == ok, "matches=" << ec_pnode_matches(p) << " expected " << ok);
		if (ok) CHECK(c, ec_pnode_len(p) == 1, "consumed " << ec_pnode_len(p));
		if (!in.empty()) {
			i128 got = 0;
			int r;
			int64_t a = 0; uint64_t b = 0;
			if (sg) { r = ec_node_int_getval(n, in[0].c_str(), &a); got = a; } else { r = ec_node_uint_getval(n, in[0].c_str(), &b); got = b; }
			CHECK(c, r == (ok ? 0 : -1) && (!ok || got == v), "getval returned " << r << " value " << fmt(got) << " expected " << fmt(v));
			r = sg ? ec_node_uint_getval(n, in[0].c_str(), &b) : ec_node_int_getval(n, in[0].c_str(), &a);
			CHECK(c, r == -1 && errno == EINVAL, "getval of the other type returned " << r);
		}
		(ok ? acc : rej)++;
		ec_pnode_free(p);
		ec_strvec_free(sv);
	}
	if (acc && rej) c.nontrivial = true;
	c.label(acc ? "some accepted" : "none accepted");
	ec_node_free(n);
	std::string l = ec::leaks(mark);
	CHECK(c, l.empty(), "leak " << l);
}

int main(int argc, char **argv) {
	Suite s;
	s.id = "C07";
	s.rule = "fn: a value above 9 or negative is accepted, or a valid value is out of bounds; node: one string accepted and one rejected by the same node";
	s.init = ec::lib_init;
	s.assumptions = {"strings holding 0b in base 0 or 2 excluded (depends on the C library)", "the value stored on failure is unspecified"};
	s.targets.push_back({"fn", fn_case, 600000, 30000000});
	s.targets.push_back({"node", node_case, 200000, 6000000});
	return run_main(argc, argv, s);
}
