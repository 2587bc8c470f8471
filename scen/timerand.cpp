// T01, R01: elapsed time, sleeping, seeded generators.
#include <climits>
#include "common.h"
#include <algorithm>
#include <cmath>
#include <limits>
#include <set>
using namespace sim;

namespace {
// ---- T01 ---------------------------------------------------------------------------------------------
struct Clock { // what one thread knows about its elapsed time
	bool first = true;
	uint64_t r0 = 0, lo0 = 0, hi0 = 0, last = 0;
};
static uint64_t step_ns;
static uint64_t read_ns(Clock &c) {
	uint64_t lo, hi;
	{
		Quiet q;
		lo = now_ns();
	}
	uint64_t r = SFWTime::time_ns();
	Quiet q;
	hi = now_ns();
	if (c.first) {
		c.first = false;
		c.r0 = r;
		c.lo0 = lo;
		c.hi0 = hi;
	} else {
		SIM_CHECK(r >= c.last, "backwards", "elapsed time went from %llu to %llu ns", (unsigned long long)c.last, (unsigned long long)r);
		uint64_t d = r - c.r0;
		SIM_CHECK(d + step_ns >= lo - c.hi0 && d <= hi - c.lo0 + step_ns, "elapsed", "elapsed time advanced by %llu ns while %llu to %llu ns passed", (unsigned long long)d, (unsigned long long)(lo - c.hi0), (unsigned long long)(hi - c.lo0));
	}
	c.last = r;
	return r;
}
static double some_duration(int unit) {
	static const double big[] = { 0, -1, 1, 1.5, 0.25, 999.999, 1000, 1000.5, 123456.789, 999999.9999, 1e6, 3600, 1e9, 2999999999.7, 12345678.9 };
	Quiet q;
	double v = big[wchoose(15)];
	if (wchoose(3) == 0) v = wchoose(1000000) / 1000.0;
	if (unit == 3) v = std::min(v, 100000.0);
	return v;
}
static void time_ops(int n, bool alone) {
	Clock c;
	for (int i = 0; i < n; i++) {
		uint32_t k;
		{
			Quiet q;
			k = wchoose(9);
		}
		switch (k) {
			case 0: read_ns(c); break;
			case 1: {
				uint64_t a = read_ns(c), u = SFWTime::time_us(), b = read_ns(c);
				SIM_CHECK(u >= a / 1000 && u <= b / 1000, "unit", "%llu us between %llu and %llu ns", (unsigned long long)u, (unsigned long long)a, (unsigned long long)b);
			} break;
			case 2: {
				uint64_t a = read_ns(c), u = SFWTime::time_ms(), b = read_ns(c);
				SIM_CHECK(u >= a / 1000000 && u <= b / 1000000, "unit", "%llu ms between %llu and %llu ns", (unsigned long long)u, (unsigned long long)a, (unsigned long long)b);
			} break;
			case 3: {
				uint64_t a = read_ns(c);
				double s = SFWTime::time_ss(), m = SFWTime::time_mm(), h = SFWTime::time_hh();
				uint64_t b = read_ns(c);
				double lo = a * (1 - 1e-14), hi = b * (1 + 1e-14);
				SIM_CHECK(s * 1e9 >= lo && s * 1e9 <= hi && m * 60e9 >= lo && m * 60e9 <= hi && h * 3600e9 >= lo && h * 3600e9 <= hi, "unit", "%f s, %f min, %f h between %llu and %llu ns", s, m, h, (unsigned long long)a, (unsigned long long)b);
			} break;
			case 4: {
				Quiet q;
				wall_jump((int64_t)(bits(ST_TIME) % 20000000000000ULL) - 10000000000000LL);
			} break;
			case 5: {
				Quiet q;
				advance_ns(bits(ST_TIME) % (wchoose(3) ? 2000000ULL : 4000000000000ULL));
			} break;
			default: {
				int unit = k - 6 + (wflip(1, 4) ? 1 : 0);
				double v = some_duration(unit);
				double ns = unit == 0 ? v : unit == 1 ? v * 1e3 : unit == 2 ? v * 1e6 : v * 1e9;
				uint64_t t0 = now_ns();
				read_ns(c);
				uint64_t t1 = now_ns();
				switch (unit) {
					case 0: SFWTime::sleep_ns(v); break;
					case 1: SFWTime::sleep_us(v); break;
					case 2: SFWTime::sleep_ms(v); break;
					default: SFWTime::sleep_ss(v); break;
				}
				uint64_t t2 = now_ns();
				ev("slept");
				SIM_CHECK((double)(t2 - t1) >= ns, "short", "a sleep of %f ns lasted %llu ns", ns, (unsigned long long)(t2 - t1));
				double over = (double)(t2 - t1) - (ns > 0 ? ns : 0);
				SIM_CHECK(!alone || over <= 300000.0, "long", "a sleep of %f ns lasted %llu ns", ns, (unsigned long long)(t2 - t1));
				(void)t0;
				read_ns(c);
			}
		}
	}
}
static void t01() {
	step_ns = 0;
	if (choose(ST_CFG, 3) == 0) {
		step_ns = choose(ST_CFG, 2) ? 1000000 : 15625000;
		set_clock_coarse(step_ns);
	}
	sleep_eintr = choose(ST_CFG, 3);
	int nt = choose(ST_CFG, 2) ? 1 : 2 + choose(ST_CFG, 2);
	std::vector<int> ts;
	for (int t = 0; t < nt; t++) {
		int n = 2 + choose(ST_CFG, 20);
		ts.push_back(spawn([n, nt] { time_ops(n, nt == 1); }));
	}
	for (int t : ts) join(t);
}
// ---- R01 ---------------------------------------------------------------------------------------------
struct Op {
	int kind;
	int64_t a, b;
	double x, y;
	uint64_t res;
};
static uint64_t asbits(double d) {
	uint64_t u;
	memcpy(&u, &d, 8);
	return u;
}
static uint64_t perform(RandomPCG &g, const Op &o) {
	switch (o.kind) {
		case 0: return g.rand();
		case 1: return g.rand((uint32_t)o.a);
		case 2: return (uint64_t)(int64_t)g.random((int)o.a, (int)o.b);
		case 3: return asbits(g.random(o.x, o.y));
		case 4: return asbits(g.random((float)o.x, (float)o.y));
		case 5: return asbits(g.randd());
		case 6: return asbits(g.randf());
		case 7: return asbits(g.randfn(o.x, o.y));
		default: return asbits(g.randfn((float)o.x, (float)o.y));
	}
}
static double asdouble(uint64_t u) {
	double d;
	memcpy(&d, &u, 8);
	return d;
}
static int some_int() {
	static const int sp[] = { 0, 1, -1, 2, 3, 7, 10, -10, 100, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 1 << 30, -(1 << 30) };
	return wchoose(3) ? sp[wchoose(15)] : (int)bits(ST_W0 + self());
}
static Op some_op() {
	Op o{};
	o.kind = wchoose(9);
	o.a = o.kind == 1 ? (int64_t)(uint32_t)some_int() : some_int();
	if (o.kind == 1 && o.a == 0) o.a = 1;
	o.b = some_int();
	o.x = some_int() / 8.0;
	o.y = some_int() / 8.0;
	if (o.kind >= 7) o.y = std::fabs(o.y);
	return o;
}
static void check_bounds(const Op &o) {
	double d = asdouble(o.res);
	switch (o.kind) {
		case 1: SIM_CHECK(o.res < (uint64_t)o.a, "bounds", "a draw below %lld is %llu", (long long)o.a, (unsigned long long)o.res); break;
		case 2: SIM_CHECK((int64_t)o.res >= std::min(o.a, o.b) && (int64_t)o.res <= std::max(o.a, o.b), "bounds", "a draw between %lld and %lld is %lld", (long long)o.a, (long long)o.b, (long long)o.res); break;
		case 3:
		case 4: {
			double lo = std::min(o.x, o.y), hi = std::max(o.x, o.y), eps = (std::fabs(lo) + std::fabs(hi)) * (o.kind == 3 ? 1e-15 : 5e-7);
			SIM_CHECK(d >= lo - eps && d <= hi + eps, "bounds", "a draw between %g and %g is %g", o.x, o.y, d);
		} break;
		case 5:
		case 6: SIM_CHECK(d >= 0 && d <= 1, "bounds", "a draw between 0 and 1 is %g", d); break;
		case 7:
		case 8: SIM_CHECK(d == d, "bounds", "a normal draw is not a number"); break;
		default: break;
	}
}
static void r01_sequences() {
	uint64_t seed = choose(ST_CFG, 3) ? bits(ST_CFG) : choose(ST_CFG, 3);
	RandomPCG g;
	if (choose(ST_CFG, 2)) {
		g.seed(seed);
	} else {
		g = RandomPCG(seed);
	}
	SIM_CHECK(g.get_seed() == seed, "seed", "a generator reports another seed than it was given");
	std::vector<Op> ops;
	int n = 1 + choose(ST_CFG, 30);
	uint64_t mid = 0;
	int at = choose(ST_CFG, n);
	for (int i = 0; i < n; i++) {
		if (i == at) mid = g.get_state();
		ops.push_back(some_op());
		ops.back().res = perform(g, ops.back());
		hash_mix(ops.back().res);
		check_bounds(ops.back());
	}
	auto again = [&](RandomPCG &x, int from, const char *what) {
		for (int i = from; i < n; i++) SIM_CHECK(perform(x, ops[i]) == ops[i].res, "reproduce", "draw %d of kind %d differs %s", i, ops[i].kind, what);
	};
	g.seed(seed);
	again(g, 0, "after seeding again");
	RandomPCG h(bits(ST_CFG));
	h.rand();
	h.set_state(mid);
	again(h, at, "from the restored state");
	SIM_CHECK(h.get_state() == g.get_state(), "state", "two generators that drew the same are in different states");
	std::vector<int> ts;
	uint64_t other_inc = bits(ST_CFG);
	std::vector<uint64_t> other;
	{
		RandomPCG x(seed, other_inc);
		for (int i = 0; i < n; i++) other.push_back(perform(x, ops[i]));
	}
	for (int t = 0; t < 3; t++) {
		ts.push_back(spawn([&, seed, t] {
			if (t < 2) {
				RandomPCG x;
				x.seed(seed);
				again(x, 0, "on another thread");
			} else {
				RandomPCG x(seed, other_inc);
				for (int i = 0; i < n; i++) SIM_CHECK(perform(x, ops[i]) == other[i], "reproduce", "draw %d of kind %d differs while other generators are used on other threads", i, ops[i].kind);
			}
		}));
	}
	for (int t : ts) join(t);
	// the shared generator
	Math::seed(seed);
	std::vector<uint64_t> m;
	for (int i = 0; i < 4; i++) {
		m.push_back(Math::rand());
		m.push_back(asbits(Math::random(0.0, 3.0)));
		m.push_back((uint64_t)Math::random(-5, 9));
	}
	Math::seed(seed);
	for (int i = 0; i < 12; i += 3) SIM_CHECK(Math::rand() == m[i] && asbits(Math::random(0.0, 3.0)) == m[i + 1] && (uint64_t)Math::random(-5, 9) == m[i + 2], "reproduce", "the shared generator does not repeat its sequence");
	// another seed is another sequence
	RandomPCG o(seed ^ (1ULL << choose(ST_CFG, 64)));
	g.seed(seed);
	bool same = true;
	for (int i = 0; i < 6; i++) same = same && g.rand() == o.rand();
	SIM_CHECK(!same, "seed", "two different seeds give the same sequence");
}
static void r01_ranges() {
	RandomPCG g(bits(ST_CFG));
	int lo = some_int(), w = 1 + choose(ST_CFG, 8);
	if (lo > INT_MAX - w) lo = INT_MAX - w;
	std::set<int> seen;
	for (int i = 0; i < 600; i++) seen.insert(wchoose(2) ? g.random(lo, lo + w) : g.random(lo + w, lo));
	SIM_CHECK(*seen.begin() == lo && *seen.rbegin() == lo + w && (int)seen.size() == w + 1, "range", "600 draws between %d and %d give %zu values", lo, lo + w, seen.size());
	std::set<uint32_t> s2;
	for (int i = 0; i < 600; i++) s2.insert(g.rand((uint32_t)w));
	SIM_CHECK((int)s2.size() == w && *s2.rbegin() == (uint32_t)w - 1, "range", "600 draws below %d give %zu values", w, s2.size());
	// a wide range is reached on both sides
	static const int ends[][2] = { { INT_MIN, INT_MAX }, { INT_MAX, INT_MIN }, { INT_MIN, 0 }, { -1, INT_MAX }, { INT_MIN + 1, INT_MAX } };
	const int *e = ends[choose(ST_CFG, 5)];
	int a = std::min(e[0], e[1]), b = std::max(e[0], e[1]);
	double mid = ((double)a + b) / 2;
	int below = 0, above = 0;
	for (int i = 0; i < 100; i++) {
		int r = g.random(e[0], e[1]);
		SIM_CHECK(r >= a && r <= b, "bounds", "a draw between %d and %d is %d", a, b, r);
		(r < mid ? below : above)++;
	}
	SIM_CHECK(below && above, "range", "100 draws between %d and %d are all in one half", a, b);
	double mn = 1, mx = 0;
	for (int i = 0; i < 400; i++) {
		double d = wchoose(2) ? g.randd() : g.randf();
		mn = std::min(mn, d);
		mx = std::max(mx, d);
	}
	SIM_CHECK(mn < 0.2 && mx > 0.8, "range", "400 draws from 0 to 1 stay between %f and %f", mn, mx);
}
static void r01_shuffle() {
	Math::seed(bits(ST_CFG));
	int n = choose(ST_CFG, 12);
	Array a;
	std::multiset<int> in;
	for (int i = 0; i < n; i++) {
		int v = wchoose(2) ? i : (int)wchoose(4);
		a.push_back(v);
		in.insert(v);
	}
	a.shuffle();
	std::multiset<int> out;
	for (int i = 0; i < a.size(); i++) out.insert((int)a[i]);
	SIM_CHECK(in == out, "permutation", "a shuffle of %d values is no permutation of them", n);
	if (choose(ST_CFG, 4) == 0) {
		int k = 2 + choose(ST_CFG, 3);
		std::set<std::string> orders;
		for (int r = 0; r < 700; r++) {
			Array b;
			for (int i = 0; i < k; i++) b.push_back(i);
			b.shuffle();
			std::string o;
			for (int i = 0; i < k; i++) o += (char)('0' + (int)b[i]);
			orders.insert(o);
		}
		size_t f = k == 2 ? 2 : k == 3 ? 6 : 24;
		if (choose(ST_CFG, 4) == 0) { // every order of three is about equally likely
			int cnt[27] = {};
			const int N = 12000;
			for (int r = 0; r < N; r++) {
				Array b;
				for (int i = 0; i < 3; i++) b.push_back(i);
				b.shuffle();
				cnt[(int)b[0] * 9 + (int)b[1] * 3 + (int)b[2]]++;
			}
			double chi = 0;
			for (int i = 0; i < 27; i++) {
				if (cnt[i]) chi += (cnt[i] - N / 6.0) * (cnt[i] - N / 6.0) / (N / 6.0);
			}
			SIM_CHECK(chi < 75, "fair", "in %d shuffles of three values the six orders are far from equally likely (chi square %g)", N, chi);
			probe(3, "the orders of three values are about equally likely");
		}
		SIM_CHECK(orders.size() == f, "permutation", "700 shuffles of %d values give %zu of %zu orders", k, orders.size(), f);
	}
}
static void r01_randomize() {
	std::set<uint64_t> seeds;
	int n = 2 + choose(ST_CFG, 6);
	bool threads = choose(ST_CFG, 2), shared = choose(ST_CFG, 3) == 0;
	for (int i = 0; i < n; i++) {
		uint64_t dt = 1000 + bits(ST_TIME) % (choose(ST_TIME, 2) ? 1000000ULL : 400000000000000ULL);
		advance_ns(dt);
		uint64_t s = 0, s2 = 0;
		auto one = [&] {
			RandomPCG g;
			g.randomize();
			s = g.get_seed();
			RandomPCG h(s);
			for (int k = 0; k < 4; k++) SIM_CHECK(g.rand() == h.rand(), "reproduce", "a randomised generator does not repeat from its reported seed");
			(void)s2;
		};
		if (threads) {
			join(spawn(one));
		} else {
			one();
		}
		SIM_CHECK(seeds.insert(s).second, "randomize", "two generators randomised at different times have the same seed");
		if (shared) {
			Math::randomize();
			Math::rand();
		}
	}
}
} // namespace
SCENARIO(T01, clocks, 1) { t01(); }
SCENARIO(R01, sequences, 3) { r01_sequences(); }
SCENARIO(R01, ranges, 1) { r01_ranges(); }
SCENARIO(R01, shuffles, 1) { r01_shuffle(); }
SCENARIO(R01, randomize, 1) { r01_randomize(); }
