// C11: a signal reaches each subscriber once, with the emitted arguments.
#include "common.h"
using namespace sim;

namespace {
enum { NSUB = 3, NFUN = 2, NSTAT = 3, NSIG = 3 };
struct Conn {
	int key; // sub * NFUN + fun, or 100 + static function
	uint64_t id;
};
struct Arg {
	int t;
	int64_t i;
	std::string s;
};
struct Emission {
	int sig;
	Object *emitter;
	std::vector<Arg> args;
	std::vector<Conn> snap;
	size_t at = 0;
};
static Signal *sigs[NSIG];
static std::vector<Conn> conns[NSIG];
static std::vector<Emission> stack;
static uint64_t next_id;
static int budget, max_depth;
static Object *emitters[3];

struct Sub {
	int n;
};
static Sub subs[NSUB];
static void called(Signal *s, int key);
static void f0(Sub *x, Signal *s) { called(s, x->n * NFUN); }
static void f1(Sub *x, Signal *s) { called(s, x->n * NFUN + 1); }
static void s0(Signal *s) { called(s, 100); }
static void s1(Signal *s) { called(s, 101); }
static void s2(Signal *s) { called(s, 102); }
static void (*const funs[NFUN])(Sub *, Signal *) = { f0, f1 };
static void (*const stats[NSTAT])(Signal *) = { s0, s1, s2 };

static bool present(const std::vector<Conn> &v, uint64_t id) {
	for (auto &c : v) {
		if (c.id == id) return true;
	}
	return false;
}
static bool has_key(const std::vector<Conn> &v, int key) {
	for (auto &c : v) {
		if (c.key == key) return true;
	}
	return false;
}
static bool lib_connected(int g, int key) {
	return key >= 100 ? sigs[g]->is_connected_static(stats[key - 100]) : sigs[g]->is_connected(&subs[key / NFUN], funs[key % NFUN]);
}
static void check_top() {
	Emission &e = stack.back();
	Signal *s = sigs[e.sig];
	SIM_CHECK(s->emitter == e.emitter, "emitter", "a subscriber sees another emitter than that of the emission calling it");
	SIM_CHECK(s->params.size() == (int)e.args.size(), "arguments", "a subscriber sees %d arguments, %zu were emitted", s->params.size(), e.args.size());
	for (size_t i = 0; i < e.args.size(); i++) {
		const Variant &v = s->params[i];
		const Arg &a = e.args[i];
		bool ok = false;
		if (a.t == 0) {
			ok = v.get_type() == Variant::INT && (int64_t)v == a.i;
		} else if (a.t == 1) {
			ok = v.get_type() == Variant::STRING && (String)v == String(a.s.c_str());
		} else {
			ok = v.get_type() == Variant::ARRAY && ((Array)v).size() == 1 && (int64_t)((Array)v).get(0) == a.i;
		}
		SIM_CHECK(ok, "arguments", "argument %zu is not what was emitted", i);
	}
}
static int some_key() { return wchoose(3) ? (int)wchoose(NSUB * NFUN) : 100 + (int)wchoose(NSTAT); }
static void emit_one();
static void op() {
	int g = wchoose(3) && stack.size() ? stack.back().sig : (int)wchoose(NSIG);
	int key = some_key();
	switch (wchoose(7)) {
		case 0:
		case 1:
			ev("connect %d to %d", key, g);
			key >= 100 ? sigs[g]->connect_static(stats[key - 100]) : sigs[g]->connect(&subs[key / NFUN], funs[key % NFUN]);
			conns[g].push_back({ key, ++next_id });
			break;
		case 2:
		case 3:
			if (conns[g].size() && wchoose(3)) key = conns[g][wchoose(conns[g].size())].key;
			ev("disconnect %d from %d", key, g);
			key >= 100 ? sigs[g]->disconnect_static(stats[key - 100]) : sigs[g]->disconnect(&subs[key / NFUN], funs[key % NFUN]);
			for (size_t i = 0; i < conns[g].size(); i++) {
				if (conns[g][i].key == key) {
					conns[g].erase(conns[g].begin() + i);
					break;
				}
			}
			break;
		case 4:
		case 5: emit_one(); break;
		default: break;
	}
	SIM_CHECK(lib_connected(g, key) == has_key(conns[g], key), "connected", "a signal says of a subscriber that it is%s connected", has_key(conns[g], key) ? " not" : "");
	if (stack.size()) check_top();
}
static void called(Signal *s, int key) {
	SIM_CHECK(stack.size(), "called", "a subscriber was called without an emission");
	SIM_CHECK(s == sigs[stack.back().sig], "called", "a subscriber was called with another signal");
	ev("call of %d depth %zu", key, stack.size());
	{
		Emission &e = stack.back();
		for (;; e.at++) {
			SIM_CHECK(e.at < e.snap.size(), "called", "a subscriber was called that was not to be called (any more) in this emission");
			const Conn &c = e.snap[e.at];
			bool there = present(conns[e.sig], c.id);
			if (there) {
				SIM_CHECK(c.key == key, "order", "subscriber %d was called where %d was due", key, c.key);
				break;
			}
		}
		e.at++;
	}
	check_top();
	int n = wchoose(3) ? (int)wchoose(3) : 0;
	while (n-- > 0 && budget > 0) {
		budget--;
		op();
	}
	check_top();
}
static void emit_one() {
	if ((int)stack.size() >= max_depth) return;
	Emission e;
	e.sig = wchoose(NSIG);
	if (stack.size() && wchoose(2)) e.sig = stack.back().sig;
	e.emitter = emitters[wchoose(3)];
	e.snap = conns[e.sig];
	int n = wchoose(6);
	Variant v[5];
	const Variant *p[5];
	Signal *up = stack.size() ? sigs[stack.back().sig] : nullptr;
	for (int i = 0; i < n; i++) {
		Arg a;
		a.i = (int64_t)wchoose(1000);
		a.t = wchoose(3);
		p[i] = &v[i];
		if (up && up->params.size() && wchoose(3) == 0) { // hand on an argument
			int k = wchoose(up->params.size());
			a = stack.back().args[k];
			p[i] = &up->params[k];
		} else if (a.t == 0) {
			v[i] = a.i;
		} else if (a.t == 1) {
			a.s = scn::text(6);
			v[i] = String(a.s.c_str());
		} else {
			Array x;
			x.push_back(a.i);
			v[i] = x;
		}
		e.args.push_back(a);
	}
	ev("emit %d with %d", e.sig, n);
	if (stack.size()) {
		for (auto &o : stack) {
			if (o.sig == e.sig) {
				probe(2, "nested emission of the same signal");
				break;
			}
		}
	}
	Signal *s = sigs[e.sig];
	Object *em = e.emitter;
	stack.push_back(e);
	switch (n) {
		case 0: s->emit(em); break;
		case 1: s->emit(em, *p[0]); break;
		case 2: s->emit(em, *p[0], *p[1]); break;
		case 3: s->emit(em, *p[0], *p[1], *p[2]); break;
		case 4: s->emit(em, *p[0], *p[1], *p[2], *p[3]); break;
		default: s->emit(em, *p[0], *p[1], *p[2], *p[3], *p[4]); break;
	}
	Emission &d = stack.back();
	for (; d.at < d.snap.size(); d.at++) {
		SIM_CHECK(!present(conns[d.sig], d.snap[d.at].id), "missed", "subscriber %d was not called", d.snap[d.at].key);
	}
	stack.pop_back();
}
static void run() {
	memnew(Reference);
	memnew(Object);
	uint64_t before = heap_live_since(0);
	stack.clear();
	next_id = 0;
	for (int i = 0; i < NSUB; i++) subs[i].n = i;
	{
		Ref<Resource> r;
		r.instance();
		Object *o1 = memnew(Object), *o2 = memnew(Object);
		emitters[0] = o1;
		emitters[1] = o2;
		emitters[2] = nullptr;
		bool res = choose(ST_CFG, 2);
		for (int i = 0; i < NSIG; i++) {
			sigs[i] = i == 0 && res ? &r->changed : memnew(Signal);
			conns[i].clear();
		}
		max_depth = 1 + choose(ST_CFG, 6);
		int steps = 4 + choose(ST_CFG, 30);
		budget = 60;
		for (int i = 0; i < steps; i++) {
			if (res && wchoose(6) == 0) {
				Emission e;
				e.sig = 0;
				e.emitter = r.ptr();
				e.snap = conns[0];
				stack.push_back(e);
				r->emit_changed();
				Emission &d = stack.back();
				for (; d.at < d.snap.size(); d.at++) SIM_CHECK(!present(conns[0], d.snap[d.at].id), "missed", "subscriber %d was not called", d.snap[d.at].key);
				stack.pop_back();
			} else {
				op();
			}
		}
		for (int i = 0; i < NSIG; i++) {
			if (!(i == 0 && res)) memdelete(sigs[i]);
			conns[i].clear();
		}
		memdelete(o1);
		memdelete(o2);
	}
	stack = std::vector<Emission>();
	uint64_t after = heap_live_since(0);
	SIM_CHECK(after == before, "leak", "%llu blocks before the signals were made, %llu after they went", (unsigned long long)before, (unsigned long long)after);
}
} // namespace

SCENARIO(C11, nested_histories, 1) { run(); }
