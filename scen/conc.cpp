// C06 atomics, C07 locks, C08 threads.
#include "common.h"
#include <algorithm>
#include <atomic>
#include <set>
using namespace sim;

// ---------------------------------------------------------------------------------------------------------------------
// C06: linearizability of SafeNumeric / SafeFlag / SafeRefCount by history
namespace {
struct Rec {
	uint64_t inv, res;
	int op;
	int64_t arg, ret;
};
struct History {
	std::vector<Rec> r[8];
	void add(int t, int op, int64_t arg, int64_t ret, uint64_t inv, uint64_t res) {
		Quiet q;
		r[t].push_back({ inv, res, op, arg, ret });
	}
};
// depth-first search for a legal sequential order (Wing & Gong) over per-thread histories
template <class STEP>
struct Lin {
	std::vector<std::vector<Rec>> h;
	std::set<std::pair<std::vector<int>, int64_t>> seen;
	STEP step; // step(state&, rec) -> legal
	bool go(std::vector<int> &at, int64_t st) {
		bool all = true;
		uint64_t lim = ~0ULL;
		for (size_t t = 0; t < h.size(); t++) {
			if (at[t] < (int)h[t].size()) {
				all = false;
				lim = std::min(lim, h[t][at[t]].res);
			}
		}
		if (all) {
			return true;
		}
		if (!seen.insert({ at, st }).second) {
			return false;
		}
		for (size_t t = 0; t < h.size(); t++) {
			if (at[t] < (int)h[t].size() && h[t][at[t]].inv <= lim) {
				int64_t s2 = st;
				if (step(s2, h[t][at[t]])) {
					at[t]++;
					if (go(at, s2)) {
						return true;
					}
					at[t]--;
				}
			}
		}
		return false;
	}
};
template <class STEP>
static void must_linearize(History &H, int64_t init, STEP step, const char *what, const char *const *names) {
	Quiet q;
	Lin<STEP> l{ {}, {}, step };
	for (int i = 0; i < 8; i++) {
		if (!H.r[i].empty()) {
			l.h.push_back(H.r[i]);
		}
	}
	std::vector<int> at(l.h.size(), 0);
	if (!l.go(at, init)) {
		std::string s;
		for (size_t t = 0; t < l.h.size(); t++) {
			for (auto &e : l.h[t]) {
				char b[128];
				snprintf(b, sizeof b, " t%zu[%llu-%llu] %s(%lld)=%lld;", t, (unsigned long long)e.inv, (unsigned long long)e.res, names[e.op], (long long)e.arg, (long long)e.ret);
				s += b;
			}
		}
		violation("not-linearizable", "%s: no order of these operations explains their results:%s", what, s.c_str());
	}
}

static const char *const num_ops[] = { "get", "set", "increment", "postincrement", "decrement", "postdecrement", "add", "postadd", "sub", "postsub", "exchange_if_greater", "conditional_increment" };

template <class T>
static void numeric() {
	SafeNumeric<T> n[2];
	History H[2];
	int T_ = 2 + choose(ST_CFG, 2);
	int steps = 2 + choose(ST_CFG, T_ == 2 ? 5 : 3);
	int64_t init = choose(ST_CFG, 4);
	bool wrap = choose(ST_CFG, 4) == 3;
	T start = wrap ? (T)(T(0) - T(1)) : (T)init;
	n[0].set(start);
	bool focus = choose(ST_CFG, 2);
	int fo = choose(ST_CFG, 12);
	std::vector<int> tids;
	for (int t = 0; t < T_; t++) {
		tids.push_back(spawn([&, t]() {
			for (int i = 0; i < steps; i++) {
				int k = wchoose(5) == 4;
				int op = focus && wflip(1, 2) ? fo : (int)wchoose(12);
				T a = (T)wchoose(5);
				T r = 0;
				uint64_t inv = stamp();
				switch (op) {
					case 0: r = n[k].get(); break;
					case 1: n[k].set(a); break;
					case 2: r = n[k].increment(); break;
					case 3: r = n[k].postincrement(); break;
					case 4: r = n[k].decrement(); break;
					case 5: r = n[k].postdecrement(); break;
					case 6: r = n[k].add(a); break;
					case 7: r = n[k].postadd(a); break;
					case 8: r = n[k].sub(a); break;
					case 9: r = n[k].postsub(a); break;
					case 10: r = n[k].exchange_if_greater(a); break;
					case 11: r = n[k].conditional_increment(); break;
				}
				H[k].add(t, op, (int64_t)a, (int64_t)r, inv, stamp());
			}
		}));
	}
	for (int t : tids) join(t);
	for (int k = 0; k < 2; k++) {
		int64_t fin = (int64_t)n[k].get();
		uint64_t s = stamp();
		H[k].add(7, 0, 0, fin, s, stamp());
		must_linearize(H[k], k ? 0 : (int64_t)start, [](int64_t &st, const Rec &e) {
			T v = (T)st, a = (T)e.arg, r = (T)e.ret, nv = v;
			bool ok = false;
			switch (e.op) {
				case 0: ok = r == v; break;
				case 1: nv = a; ok = true; break;
				case 2: nv = (T)(v + 1); ok = r == nv; break;
				case 3: nv = (T)(v + 1); ok = r == v; break;
				case 4: nv = (T)(v - 1); ok = r == nv; break;
				case 5: nv = (T)(v - 1); ok = r == v; break;
				case 6: nv = (T)(v + a); ok = r == nv; break;
				case 7: nv = (T)(v + a); ok = r == v; break;
				case 8: nv = (T)(v - a); ok = r == nv; break;
				case 9: nv = (T)(v - a); ok = r == v; break;
				case 10:
					if (v >= a) {
						ok = r == v;
					} else {
						nv = a;
						ok = r == a;
					}
					break;
				case 11:
					if (v == 0) {
						ok = r == 0;
					} else {
						nv = (T)(v + 1);
						ok = r == nv;
					}
					break;
			}
			st = (int64_t)nv;
			return ok;
		}, "SafeNumeric", num_ops);
	}
}
} // namespace
SCENARIO(C06, numeric_u32, 2) { numeric<uint32_t>(); }
SCENARIO(C06, numeric_u64, 2) { numeric<uint64_t>(); }
SCENARIO(C06, numeric_i32, 1) { numeric<int>(); }
SCENARIO(C06, numeric_u8, 1) { numeric<uint8_t>(); }

SCENARIO(C06, refcount, 3) {
	// owners take and drop references of an object; exactly one drop says "last", nobody revives it, and the last one
	// sees everything the others wrote before dropping
	struct Obj {
		SafeRefCount rc;
		int cell[4];
		std::atomic<int> disposed{ 0 };
	};
	Obj *o = (Obj *)malloc(sizeof(Obj));
	new (o) Obj();
	int T = 2 + choose(ST_CFG, 3);
	int steps = 1 + choose(ST_CFG, 6);
	o->rc.init(T);
	SIM_CHECK((int)o->rc.get() == T, "refcount-value", "init(%d) gives %u", T, o->rc.get());
	int dead = 0;
	History H;
	std::vector<int> tids;
	static const char *const names[] = { "ref", "refval", "unref", "unrefval", "get" };
	for (int t = 0; t < T; t++) {
		o->cell[t] = 0;
		tids.push_back(spawn([&, t]() {
			int held = 1;
			for (int i = 0; i < steps || held; i++) {
				uint64_t inv = stamp();
				if (held > 0 && (i >= steps || wflip(1, 2))) {
					if (held == 1) {
						o->cell[t] = t + 1; // the last write before letting go
					}
					bool last;
					if (wflip(1, 2)) {
						last = o->rc.unref();
						H.add(t, 2, 0, last, inv, stamp());
					} else {
						uint32_t v = o->rc.unrefval();
						last = v == 0;
						H.add(t, 3, 0, v, inv, stamp());
					}
					held--;
					if (last) {
						SIM_CHECK(held == 0, "refcount-last", "thread %d was told it dropped the last reference while it holds %d more", t, held);
						for (int k = 0; k < T; k++) {
							SIM_CHECK(o->cell[k] == k + 1, "refcount-visibility", "the thread that dropped the last reference does not see what thread %d wrote before", k);
						}
						{
							Quiet q;
							dead++;
							SIM_CHECK(dead == 1, "refcount-two-last", "two threads were told they dropped the last reference");
						}
						if (wflip(1, 2)) {
							SIM_CHECK(!o->rc.ref(), "refcount-revived", "a reference count of zero was raised again");
							SIM_CHECK(o->rc.refval() == 0, "refcount-revived", "a reference count of zero was raised again");
						}
						o->rc.~SafeRefCount();
						free(o);
						return;
					}
					if (held == 0) {
						return; // the object may be gone now
					}
				} else if (held > 0) {
					if (wflip(1, 2)) {
						bool ok = o->rc.ref();
						SIM_CHECK(ok, "refcount-refused", "a live reference count refused a reference");
						H.add(t, 0, 0, ok, inv, stamp());
					} else {
						uint32_t v = o->rc.refval();
						H.add(t, 1, 0, v, inv, stamp());
						SIM_CHECK(v > (uint32_t)held, "refcount-value", "refval() returned %u to a thread that holds %d already", v, held);
					}
					held++;
				}
			}
		}));
	}
	for (int t : tids) join(t);
	SIM_CHECK(dead == 1, "refcount-no-last", "all references are gone and %d threads were told so", dead);
	must_linearize(H, T, [](int64_t &st, const Rec &e) {
		switch (e.op) {
			case 0:
				if (st == 0) {
					return e.ret == 0;
				}
				st++;
				return e.ret == 1;
			case 1:
				if (st == 0) {
					return e.ret == 0;
				}
				st++;
				return e.ret == st;
			case 2:
				st--;
				return e.ret == (st == 0);
			case 3:
				st--;
				return e.ret == st;
		}
		return e.ret == st;
	}, "SafeRefCount", names);
}

SCENARIO(C06, weak_promotion, 2) {
	// a reader without a reference tries to take one while the owners let go
	SafeRefCount rc;
	int owners = 1 + choose(ST_CFG, 2);
	rc.init(owners);
	int gone = 0, got = 0;
	std::vector<int> tids;
	for (int t = 0; t < owners; t++) {
		tids.push_back(spawn([&]() {
			if (rc.unref()) {
				Quiet q;
				gone++;
			}
		}));
	}
	for (int t = 0; t < 2; t++) {
		tids.push_back(spawn([&]() {
			int n = 1 + wchoose(3);
			for (int i = 0; i < n; i++) {
				bool was_gone;
				{
					Quiet q;
					was_gone = gone > 0;
				}
				bool ok = rc.ref();
				if (ok) {
					{
						Quiet q;
						SIM_CHECK(!was_gone, "refcount-revived", "a reference was granted after the last owner had been told it was the last");
						got++;
					}
					if (rc.unref()) {
						Quiet q;
						gone++;
					}
				}
			}
		}));
	}
	for (int t : tids) join(t);
	SIM_CHECK(gone == 1, "refcount-last", "%d threads were told they dropped the last reference", gone);
	SIM_CHECK(rc.get() == 0, "refcount-value", "the count is %u after everyone let go", rc.get());
	if (got) {
		probe(0, "promotion succeeded while owners were leaving");
	}
}

SCENARIO(C06, flag_publication, 2) {
	SafeFlag f[2];
	SafeNumeric<uint32_t> turn(0);
	int data[3] = { 0, 0, 0 };
	bool use_num = choose(ST_CFG, 2);
	int rounds = 1 + choose(ST_CFG, 3);
	SafeFlag fi(true);
	SIM_CHECK(fi.is_set() && !f[0].is_set(), "flag-initial", "a new flag does not have its initial value");
	int a = spawn([&]() {
		for (int r = 1; r <= rounds; r++) {
			for (int i = 0; i < 3; i++) data[i] = r * 10 + i;
			if (use_num) {
				switch (wchoose(4)) {
					case 0: turn.set(r * 2 - 1); break;
					case 1: turn.increment(); break;
					case 2: turn.add(1); break;
					case 3: turn.exchange_if_greater(r * 2 - 1); break;
				}
				while (turn.get() != (uint32_t)(r * 2)) sim::yield();
			} else {
				if (wflip(1, 2)) {
					f[0].set();
				} else {
					f[0].set_to(true);
				}
				while (!f[1].is_set()) sim::yield();
				f[1].clear();
			}
			for (int i = 0; i < 3; i++) SIM_CHECK(data[i] == r * 10 + i + 5, "publication", "the answer of round %d did not arrive", r);
		}
	});
	int b = spawn([&]() {
		for (int r = 1; r <= rounds; r++) {
			if (use_num) {
				while (turn.get() != (uint32_t)(r * 2 - 1)) sim::yield();
			} else {
				while (!f[0].is_set()) sim::yield();
				f[0].set_to(false);
			}
			for (int i = 0; i < 3; i++) {
				SIM_CHECK(data[i] == r * 10 + i, "publication", "data of round %d did not arrive", r);
				data[i] += 5;
			}
			if (use_num) {
				if (wflip(1, 2)) {
					turn.postincrement();
				} else {
					turn.conditional_increment();
				}
			} else {
				f[1].set();
			}
		}
	});
	join(a);
	join(b);
}

// ---------------------------------------------------------------------------------------------------------------------
// C07
namespace {
// What the scenario knows about one lock: who certainly holds it, and who may be holding it.
struct Book {
	int excl = -1; // thread certainly holding exclusively
	int depth = 0;
	uint32_t shared = 0; // threads certainly holding shared
	uint32_t maybe_x = 0, maybe_s = 0; // threads between asking for and having given back
	uint64_t maybe_events_x = 0, maybe_events_s = 0;
	void ask(int t, bool x) {
		Quiet q;
		if (x) {
			if (!(maybe_x & 1u << t)) {
				maybe_events_x++;
			}
			maybe_x |= 1u << t;
		} else {
			if (!(maybe_s & 1u << t)) {
				maybe_events_s++;
			}
			maybe_s |= 1u << t;
		}
	}
	void got(int t, bool x, const char *what) {
		Quiet q;
		if (x) {
			SIM_CHECK(excl == -1 || excl == t, "exclusion", "%s: thread %d entered while thread %d is inside", what, t, excl);
			SIM_CHECK((shared & ~(1u << t)) == 0, "exclusion", "%s: thread %d entered exclusively while readers (mask %x) are inside", what, t, shared);
			excl = t;
			depth++;
		} else {
			SIM_CHECK(excl == -1, "exclusion", "%s: reader %d entered while writer %d is inside", what, t, excl);
			shared |= 1u << t;
		}
	}
	void leaving(int t, bool x) {
		Quiet q;
		if (x) {
			if (--depth == 0) {
				excl = -1;
			}
		} else {
			shared &= ~(1u << t);
		}
	}
	void left(int t, bool x) {
		Quiet q;
		if (x) {
			if (excl != t) {
				maybe_x &= ~(1u << t);
			}
		} else {
			maybe_s &= ~(1u << t);
		}
	}
};
struct TryScope { // justification of a failed try
	Book &b;
	int t;
	bool x;
	uint32_t mx, ms;
	uint64_t ex, es;
	TryScope(Book &bb, int tt, bool xx) :
			b(bb), t(tt), x(xx) {
		Quiet q;
		mx = b.maybe_x & ~(1u << t);
		ms = b.maybe_s & ~(1u << t);
		ex = b.maybe_events_x;
		es = b.maybe_events_s;
	}
	void failed(const char *what) {
		Quiet q;
		bool busy_x = mx || b.maybe_events_x != ex;
		bool busy_s = ms || b.maybe_events_s != es;
		SIM_CHECK(busy_x || (x && busy_s), "try-failed-on-free", "%s: a try failed although nobody could hold the lock", what);
	}
};

static void continue_scope(Book &, int) { sim::yield(); }
template <class MX>
static void mutex_common(bool recursive, const char *what) {
	MX m;
	Book b;
	int counter = 0, seen = 0; // plain data under the lock: race-checked
	int expected = 0;
	int T = 2 + choose(ST_CFG, 2);
	int steps = 1 + choose(ST_CFG, 6);
	std::vector<int> tids;
	for (int t = 0; t < T; t++) {
		tids.push_back(spawn([&]() {
			int me = self();
			for (int s = 0; s < steps; s++) {
				int how = wchoose(3);
				bool have = true;
				if (how == 0) {
					b.ask(me, true);
					m.lock();
				} else if (how == 1) {
					TryScope ts(b, me, true);
					b.ask(me, true);
					if (m.try_lock() != OK) {
						have = false;
						{
							Quiet q;
							b.maybe_x &= ~(1u << me);
						}
						ts.failed(what);
						probe(1, "a try found the lock busy");
					}
				} else {
					b.ask(me, true);
					{
						MutexLock l(m);
						b.got(me, true, what);
						int c = counter;
						if (wflip(1, 3)) {
							sim::yield();
						}
						counter = c + 1;
						{
							Quiet q;
							expected++;
						}
						b.leaving(me, true);
						if (wflip(1, 4)) {
							continue_scope(b, me);
						}
					}
					b.left(me, true);
					continue;
				}
				if (!have) {
					continue;
				}
				b.got(me, true, what);
				int c = counter;
				int depth = 0;
				if (recursive) {
					depth = wchoose(3);
					for (int d = 0; d < depth; d++) {
						if (wflip(1, 2)) {
							m.lock();
						} else {
							SIM_CHECK(m.try_lock() == OK, "recursion", "%s: the owner's own try was refused", what);
						}
						b.got(me, true, what);
						if (wflip(1, 3)) {
							sim::yield();
						}
					}
					for (int d = 0; d < depth; d++) {
						b.leaving(me, true);
						m.unlock();
						SIM_CHECK(counter == c, "exclusion", "%s: data changed while the lock was still held after %d of %d releases", what, d + 1, depth + 1);
					}
				}
				counter = c + 1;
				{
					Quiet q;
					expected++;
				}
				b.leaving(me, true);
				m.unlock();
				b.left(me, true);
			}
			m.lock();
			seen = counter;
			m.unlock();
		}));
	}
	for (int t : tids) join(t);
	SIM_CHECK(counter == expected, "lost-update", "%s: %d updates made under the lock, %d survived", what, expected, counter);
	SIM_CHECK(m.try_lock() == OK, "try-failed-on-free", "%s: the lock is not free after everyone released it", what);
	m.unlock();
	(void)seen;
}

} // namespace

SCENARIO(C07, mutex, 3) { mutex_common<Mutex>(true, "Mutex"); }
SCENARIO(C07, binary_mutex, 2) { mutex_common<BinaryMutex>(false, "BinaryMutex"); }

SCENARIO(C07, rwlock, 4) {
	RWLock l;
	Book b;
	const char *what = "RWLock";
	int data[2] = { 0, 0 };
	int expected = 0;
	int T = 2 + choose(ST_CFG, 3);
	int steps = 1 + choose(ST_CFG, 5);
	std::vector<int> tids;
	for (int t = 0; t < T; t++) {
		tids.push_back(spawn([&]() {
			int me = self();
			for (int s = 0; s < steps; s++) {
				bool x = wflip(2, 5);
				int how = wchoose(3);
				auto body = [&]() {
					b.got(me, x, what);
					if (x) {
						data[0]++;
						if (wflip(1, 3)) {
							sim::yield();
						}
						data[1]++;
						Quiet q;
						expected++;
					} else {
						int d0 = data[0];
						if (wflip(1, 3)) {
							sim::yield();
						}
						SIM_CHECK(d0 == data[1], "exclusion", "%s: a reader sees a writer's half-done update", what);
						Quiet q;
						if (b.shared & ~(1u << me)) {
							probe(2, "two readers inside together");
						}
					}
					b.leaving(me, x);
				};
				if (how == 0) {
					b.ask(me, x);
					if (x) {
						l.write_lock();
						body();
						l.write_unlock();
					} else {
						l.read_lock();
						body();
						l.read_unlock();
					}
					b.left(me, x);
				} else if (how == 1) {
					TryScope ts(b, me, x);
					b.ask(me, x);
					Error e = x ? l.write_try_lock() : l.read_try_lock();
					if (e == OK) {
						body();
						if (x) {
							l.write_unlock();
						} else {
							l.read_unlock();
						}
						b.left(me, x);
					} else {
						SIM_CHECK(e == ERR_BUSY, "try-result", "a refused try returned %d", (int)e);
						{
							Quiet q;
							(x ? b.maybe_x : b.maybe_s) &= ~(1u << me);
						}
						ts.failed(what);
						probe(1, "a try found the lock busy");
					}
				} else {
					b.ask(me, x);
					if (x) {
						RWLockWrite w(l);
						body();
					} else {
						RWLockRead r(l);
						body();
					}
					b.left(me, x);
				}
			}
		}));
	}
	for (int t : tids) join(t);
	SIM_CHECK(data[0] == expected && data[1] == expected, "lost-update", "RWLock: %d updates made, %d/%d survived", expected, data[0], data[1]);
	SIM_CHECK(l.write_try_lock() == OK, "try-failed-on-free", "RWLock: not free after everyone released it");
	l.write_unlock();
	SIM_CHECK(l.read_try_lock() == OK, "try-failed-on-free", "RWLock: not free for readers");
	SIM_CHECK(l.read_try_lock() == OK, "shared-excludes-shared", "RWLock: a second reader is refused");
	SIM_CHECK(l.write_try_lock() != OK, "exclusion", "RWLock: a writer is admitted while readers are inside");
	l.read_unlock();
	SIM_CHECK(l.write_try_lock() != OK, "exclusion", "RWLock: a writer is admitted while a reader is inside");
	l.read_unlock();
	SIM_CHECK(l.write_try_lock() == OK, "try-failed-on-free", "RWLock: not free after the readers left");
	SIM_CHECK(l.read_try_lock() != OK, "exclusion", "RWLock: a reader is admitted while a writer is inside");
	l.write_unlock();
}

SCENARIO(C07, spin_lock, 2) {
	SpinLock l;
	Book b;
	int counter = 0;
	int T = 2 + choose(ST_CFG, 2);
	int steps = 1 + choose(ST_CFG, 5);
	if (choose(ST_CFG, 4) == 3) set_fairness(3000); // the holder is stalled while another thread spins for long
	std::vector<int> tids;
	for (int t = 0; t < T; t++) {
		tids.push_back(spawn([&]() {
			int me = self();
			for (int s = 0; s < steps; s++) {
				l.lock();
				b.got(me, true, "SpinLock");
				int c = counter;
				for (int k = wflip(1, 3) ? 1 + wchoose(6) : 0; k; k--) {
					sim::yield();
				}
				counter = c + 1;
				b.leaving(me, true);
				l.unlock();
			}
		}));
	}
	for (int t : tids) join(t);
	SIM_CHECK(counter == T * steps, "lost-update", "SpinLock: %d updates made under the lock, %d survived", T * steps, counter);
	l.lock(); // free again: must not hang
	l.unlock();
}

SCENARIO(C07, handover_order, 1) {
	// nested use of two locks in one agreed order never gets stuck, and what one section wrote the next one sees
	Mutex a;
	BinaryMutex c;
	RWLock rw;
	SpinLock sp;
	std::string log; // plain data protected by a
	int x = 0;
	int T = 3;
	std::vector<int> tids;
	for (int t = 0; t < T; t++) {
		tids.push_back(spawn([&]() {
			for (int s = 0; s < 3; s++) {
				MutexLock l(a);
				log.push_back('a' + self());
				if (wflip(1, 2)) {
					MutexLock l2(c);
					MutexLock again(a);
					RWLockWrite w(rw);
					sp.lock();
					x++;
					sp.unlock();
				} else {
					RWLockRead r(rw);
					SIM_CHECK(x <= (int)log.size(), "visibility", "x is ahead of the log");
				}
			}
		}));
	}
	for (int t : tids) join(t);
	SIM_CHECK(log.size() == 9, "lost-update", "%zu of 9 entries survive", log.size());
}

// ---------------------------------------------------------------------------------------------------------------------
// C08
namespace {
struct Job {
	int arg = 0, starter_data = 0, result = 0, runs = 0;
	Thread::ID seen_id = 0, seen_again = 0;
	bool saw_main = true;
	int init_seen = 0, init_calls = 0, term_calls = 0, prio = -1, tid = -1;
	bool want_self_wait = false;
	Thread *handle = nullptr;
	SafeFlag go, done;
	SafeFlag hold; // when set the job waits for go before it ends
	int spin = 0;
};
static Job *by_tid[8];
static int pending_init[8], pending_prio[8], term_count[8];
static void cb_init() { pending_init[self()]++; }
static void cb_term() { term_count[self()]++; }
static void cb_prio(Thread::Priority p) { pending_prio[self()] = (int)p; }
static Error cb_name(const String &s) { return s == "bad" ? ERR_BUG : OK; }

static void job_main(void *ud) {
	Job *j = (Job *)ud;
	j->runs++;
	j->tid = self();
	j->init_calls = pending_init[self()];
	j->prio = pending_prio[self()];
	SIM_CHECK(j->arg * 3 == j->starter_data, "start-visibility", "the thread does not see what its starter prepared");
	j->seen_id = Thread::get_caller_id();
	j->saw_main = Thread::is_main_thread();
	for (int i = 0; i < j->spin; i++) sim::yield();
	j->seen_again = Thread::get_caller_id();
	if (j->want_self_wait) {
		while (!j->go.is_set()) sim::yield();
		j->handle->wait_to_finish(); // refused: a thread cannot wait for itself
		SIM_CHECK(j->handle->is_started(), "self-wait", "waiting for itself made the handle forget the thread");
	}
	j->result = j->arg + 1000;
	j->done.set();
}
} // namespace

SCENARIO(C08, lifecycle, 4) {
	bool funcs = choose(ST_CFG, 2);
	for (int i = 0; i < 8; i++) {
		pending_init[i] = term_count[i] = 0;
		pending_prio[i] = -1;
	}
	if (funcs) {
		Thread::_set_platform_funcs(cb_name, cb_prio, cb_init, cb_term);
		SIM_CHECK(Thread::set_name("good") == OK && Thread::set_name("bad") == ERR_BUG, "set-name", "set_name does not report what the platform said");
	} else {
		Thread::_set_platform_funcs(nullptr, nullptr);
		SIM_CHECK(Thread::set_name("good") == ERR_UNAVAILABLE, "set-name", "set_name without platform support must say so");
	}
	SIM_CHECK(Thread::is_main_thread(), "main-id", "the main thread is not recognised");
	SIM_CHECK(Thread::get_main_id() == Thread::get_caller_id(), "main-id", "the main thread's id differs from the caller id on it");
	int N = 1 + choose(ST_CFG, 3);
	int rounds = 1 + choose(ST_CFG, 3);
	if (N * rounds > 6) {
		rounds = 6 / N;
	}
	Thread *th = new Thread[N];
	Thread none;
	for (int r = 0; r < rounds; r++) {
		Job *jobs = new Job[N];
		std::vector<Thread::ID> ids;
		for (int i = 0; i < N; i++) {
			Job &j = jobs[i];
			SIM_CHECK(!th[i].is_started() && th[i].get_id() == none.get_id(), "unstarted-id", "a handle that was not started (or was waited for) reports an id");
			j.arg = 1 + wchoose(50);
			j.starter_data = j.arg * 3;
			j.spin = wchoose(6);
			j.handle = &th[i];
			j.want_self_wait = wflip(1, 5);
			Thread::Settings st;
			st.priority = (Thread::Priority)wchoose(3);
			bool dflt = wflip(1, 3);
			if (dflt) {
				st = Thread::Settings();
				th[i].start(job_main, &j);
			} else {
				th[i].start(job_main, &j, st);
			}
			Job *jp = &j;
			(void)jp;
			SIM_CHECK(th[i].is_started(), "is-started", "a started handle says it is not started");
			ids.push_back(th[i].get_id());
			SIM_CHECK(ids.back() != none.get_id(), "running-id", "a running thread has no id");
			SIM_CHECK(ids.back() != Thread::get_main_id(), "running-id", "a running thread has the main thread's id");
			for (int k = 0; k < i; k++) SIM_CHECK(ids[k] != ids.back(), "running-id", "two running threads have the same id");
			j.go.set();
			if (wflip(1, 3)) {
				sim::yield();
			}
			pending_prio[7] = 0;
			// remember what this start asked for
			j.init_seen = (int)st.priority;
		}
		for (int i = 0; i < N; i++) {
			int k = (i + r) % N;
			Job &j = jobs[k];
			th[k].wait_to_finish();
			SIM_CHECK(!th[k].is_started() && th[k].get_id() == none.get_id(), "waited-id", "a handle that was waited for still reports an id");
			SIM_CHECK(j.runs == 1, "run-once", "the thread function ran %d times", j.runs);
			SIM_CHECK(j.result == j.arg + 1000, "wait-visibility", "the waiter does not see the thread's result");
			SIM_CHECK(!j.saw_main, "main-id", "a started thread takes itself for the main thread");
			SIM_CHECK(j.seen_id == ids[k] && j.seen_again == ids[k], "own-id", "the thread's own id is %llx/%llx, its handle reported %llx", (unsigned long long)j.seen_id, (unsigned long long)j.seen_again, (unsigned long long)ids[k]);
			if (funcs) {
				SIM_CHECK(j.init_calls == 1, "callbacks", "the set-up callback ran %d times on the thread", j.init_calls);
				SIM_CHECK(term_count[j.tid] == 1, "callbacks", "the clean-up callback ran %d times on the thread", term_count[j.tid]);
				SIM_CHECK(j.prio == j.init_seen, "settings", "the thread got priority %d, not %d", j.prio, j.init_seen);
			}
			pending_init[j.tid] = term_count[j.tid] = 0;
			pending_prio[j.tid] = -1;
			th[k].wait_to_finish(); // nothing to wait for: returns
		}
		SIM_CHECK(Thread::is_main_thread(), "main-id", "the main thread is not recognised after waiting");
		delete[] jobs;
	}
	delete[] th;
	Thread::_set_platform_funcs(nullptr, nullptr);
}

namespace {
struct Detached {
	SafeFlag done;
	int ran = 0;
	int val = 0;
	Thread::ID id1 = 0;
	bool main_seen = false;
};
static void detached_main(void *ud) {
	Detached *d = (Detached *)ud;
	d->id1 = Thread::get_caller_id();
	d->main_seen = Thread::is_main_thread();
	d->ran++;
	d->val = 42;
	d->done.set();
}
struct Outer {
	Thread *inner;
	Detached *d;
	Thread::ID mine, inner_id;
	bool ok;
};
static void outer_main(void *ud) {
	Outer *o = (Outer *)ud;
	o->mine = Thread::get_caller_id();
	o->inner->start(detached_main, o->d);
	o->inner_id = o->inner->get_id();
	o->inner->wait_to_finish();
	o->ok = o->d->ran == 1 && o->d->val == 42;
}
} // namespace

SCENARIO(C08, restarted_or_dropped_unwaited, 2) {
	// a handle started again, or destroyed, before it was waited for: the earlier thread still runs exactly once
	Detached d[3];
	{
		Thread *t = new Thread();
		t->start(detached_main, &d[0]);
		Thread::ID a = t->get_id();
		if (wflip(1, 2)) {
			sim::yield();
		}
		bool over = false;
		if (wflip(1, 2)) {
			over = d[0].done.is_set();
			t->start(detached_main, &d[1]);
			Thread::ID b = t->get_id();
			SIM_CHECK(over || d[0].done.is_set() || a != b, "running-id", "two running threads have the same id");
			if (wflip(1, 2)) {
				t->wait_to_finish();
				SIM_CHECK(d[1].ran == 1 && d[1].val == 42, "wait-visibility", "the waiter does not see the thread's result");
				SIM_CHECK(d[1].id1 == b, "own-id", "the restarted thread's own id differs from its handle's");
			}
			while (!d[1].done.is_set()) sim::yield();
			SIM_CHECK(d[1].ran == 1 && !d[1].main_seen, "run-once", "a restarted handle's second thread ran %d times", d[1].ran);
		}
		delete t;
		while (!d[0].done.is_set()) sim::yield();
		SIM_CHECK(d[0].ran == 1 && d[0].val == 42 && !d[0].main_seen, "run-once", "an abandoned thread ran %d times", d[0].ran);
		SIM_CHECK(d[0].id1 == a, "own-id", "an abandoned thread's own id differs from the one its handle reported");
	}
}

SCENARIO(C08, foreign, 1) {
	// threads the library did not start have ids of their own too
	int n = 2 + choose(ST_CFG, 3), inside = 0;
	static Thread::ID id[4];
	static SafeFlag there[4];
	SafeFlag leave;
	std::vector<int> ts;
	for (int i = 0; i < n; i++) {
		id[i] = 0;
		there[i].clear();
		ts.push_back(spawn([&, i] {
			id[i] = Thread::get_caller_id();
			SIM_CHECK(!Thread::is_main_thread(), "main-id", "a thread started outside the library takes itself for the main thread");
			there[i].set();
			while (!leave.is_set()) sim::yield();
			SIM_CHECK(Thread::get_caller_id() == id[i], "own-id", "a thread's own id changed while it ran");
		}));
	}
	Job j;
	Thread t;
	j.arg = 1;
	j.starter_data = 3;
	j.handle = &t;
	if (wchoose(2)) {
		t.start(job_main, &j);
		inside = 1;
		Thread::ID b = t.get_id();
		for (int i = 0; i < n; i++) {
			while (!there[i].is_set()) sim::yield();
			SIM_CHECK(j.done.is_set() || id[i] != b, "running-id", "two running threads have the same id");
		}
	}
	for (int i = 0; i < n; i++) {
		while (!there[i].is_set()) sim::yield();
		SIM_CHECK(id[i] != 0 && id[i] != Thread::get_main_id(), "running-id", "a running thread has no id, or the main thread's");
		for (int k = 0; k < i; k++) SIM_CHECK(id[k] != id[i], "running-id", "two running threads have the same id");
	}
	SIM_CHECK(Thread::is_main_thread(), "main-id", "the main thread is not recognised");
	leave.set();
	for (int x : ts) join(x);
	if (inside) t.wait_to_finish();
}

SCENARIO(C08, nested_start, 2) {
	Thread in[2], out[2];
	Detached d[2];
	Outer o[2];
	for (int i = 0; i < 2; i++) {
		o[i] = Outer{ &in[i], &d[i], 0, 0, false };
		out[i].start(outer_main, &o[i]);
	}
	Thread::ID a = out[0].get_id(), b = out[1].get_id();
	SIM_CHECK(a != b, "running-id", "two running threads have the same id");
	for (int i = 0; i < 2; i++) {
		out[i].wait_to_finish();
		SIM_CHECK(o[i].ok, "wait-visibility", "a thread started by a thread did not run once or its result was not visible");
		SIM_CHECK(o[i].mine == (i ? b : a), "own-id", "a thread's own id differs from its handle's");
		SIM_CHECK(d[i].id1 == o[i].inner_id && d[i].id1 != o[i].mine, "own-id", "an inner thread's own id is wrong");
	}
}
