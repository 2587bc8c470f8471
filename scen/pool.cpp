// C02: pooled arrays.  Also the pooled-array part of M02 (memory refused).
#include "common.h"
#include <algorithm>
#include <set>
using namespace sim;

namespace {
struct Tok { // element with visible construction and destruction
	int *p;
	Tok(int v = 7) {
		p = (int *)malloc(sizeof(int));
		*p = v;
	}
	Tok(const Tok &o) {
		p = (int *)malloc(sizeof(int));
		*p = *o.p;
	}
	void operator=(const Tok &o) { *p = *o.p; }
	~Tok() { free(p); }
	bool operator==(const Tok &o) const { return *p == *o.p; }
	bool operator<(const Tok &o) const { return *p < *o.p; }
};
template <class T>
struct Cv {
	static T mk(int m) { return T(m); }
	static bool same(const T &a, int b) { return a == T(b); }
};
template <>
struct Cv<Tok> {
	static Tok mk(int m) { return Tok(m); }
	static bool same(const Tok &a, int b) { return *a.p == b; }
};
template <>
struct Cv<String> {
	static String mk(int m) {
		char b[16];
		snprintf(b, sizeof b, "%02d", m); // two digits: text order is number order
		return String(b);
	}
	static bool same(const String &a, int b) {
		const CharType *p = a.ptr();
		return a.length() == 2 && p[0] == (CharType)('0' + b / 10) && p[1] == (CharType)('0' + b % 10);
	}
};

typedef std::vector<int> M;
template <class T>
struct PCell {
	PoolVector<T> v;
	M m;
};

template <class T>
static bool matches(const PoolVector<T> &v, const M &m) {
	if (v.size() != (int)m.size()) {
		return false;
	}
	typename PoolVector<T>::Read r = v.read();
	for (size_t i = 0; i < m.size(); i++) {
		if (!Cv<T>::same(r[(int)i], m[i])) {
			return false;
		}
	}
	return true;
}
template <class T>
static void check(const PoolVector<T> &v, const M &m, const char *who) {
	SIM_CHECK(v.size() == (int)m.size(), "contents", "%s: a pooled array holds %d elements, its model %zu", who, v.size(), m.size());
	SIM_CHECK(matches(v, m), "contents", "%s: a pooled array of %zu elements differs from its model", who, m.size());
	SIM_CHECK(v.empty() == m.empty(), "contents", "%s: a pooled array is wrong about being empty", who);
}

static bool may_fail; // slots (or memory) can run out in this run

template <class T>
static void joined(const PoolVector<T> &v, const M &m) {}
template <>
void joined(const PoolVector<String> &v, const M &m) {
	static const char *const with[] = { "", ",", ", " };
	const char *d = with[wchoose(3)];
	String want;
	for (size_t i = 0; i < m.size(); i++) {
		if (i) want += d;
		want += Cv<String>::mk(m[i]);
	}
	SIM_CHECK(v.join(d) == want, "query", "%zu joined texts of a pooled array are another text", m.size());
}

// Performs one change on v; m becomes the contents it has if the change is made.  Returns -1 if the operation cannot say
// whether it failed, else 1 for success and 0 for reported failure.
template <class T>
static int change(PoolVector<T> &v, M &m, const PoolVector<T> &other, const M &om) {
	typedef Cv<T> C;
	int x = wchoose(16);
	uint32_t k = wchoose(17);
	ev("change %u", k);
	switch (k) {
		case 0:
			if (m.size()) {
				uint32_t i = wchoose(m.size());
				v.set(i, C::mk(x));
				m[i] = x;
			}
			return -1;
		case 1:
		case 2:
			v.push_back(C::mk(x));
			m.push_back(x);
			return -1;
		case 3:
			if (m.size()) {
				uint32_t i = wchoose(m.size());
				v.remove(i);
				m.erase(m.begin() + i);
			}
			return -1;
		case 4: {
			uint32_t i = wchoose(m.size() + 1);
			Error e = v.insert(i, C::mk(x));
			m.insert(m.begin() + i, x);
			return e == OK;
		}
		case 5: {
			uint32_t n = wchoose(m.size() + 1);
			Error e = v.resize(n);
			m.resize(n);
			return e == OK;
		}
		case 6: {
			uint32_t n = m.size(), g = n + 1 + wchoose(9);
			Error e = v.resize(g);
			if (e != OK) {
				m.resize(g, x);
				return 0;
			}
			{
				typename PoolVector<T>::Write w = v.write();
				SIM_CHECK(w.ptr() != nullptr, "no-writer", "a pooled array just resized to %u elements gives no writer", g);
				for (uint32_t i = n; i < g; i++) w[i] = C::mk(x);
			}
			m.resize(g, x);
			return 1;
		}
		case 7: {
			if (m.size() > 24) {
				return -1;
			}
			v.append_array(other);
			M t = om;
			m.insert(m.end(), t.begin(), t.end());
			return -1;
		}
		case 8:
			v.invert();
			std::reverse(m.begin(), m.end());
			return -1;
		case 9:
			v.sort();
			std::sort(m.begin(), m.end());
			return -1;
		case 10:
			v.fill(C::mk(x));
			for (int &e : m) e = x;
			return -1;
		case 11: {
			typename PoolVector<T>::Write w = v.write();
			if (m.size() && !w.ptr()) {
				for (int &e : m) e = -1; // refused: anything but the old contents is wrong
				return 0;
			}
			for (size_t i = 0; i < m.size(); i++) {
				w[(int)i] = C::mk((x + i) % 16);
				m[i] = (x + i) % 16;
				if (wflip(1, 3)) {
					yield("under a writer");
				}
			}
			return 1;
		}
		case 12: {
			if (!m.size()) {
				return -1;
			}
			uint32_t a = wchoose(m.size()), b = a + wchoose(m.size() - a);
			PoolVector<T> s = v.subarray(a, b);
			M sm(m.begin() + a, m.begin() + b + 1);
			if (s.size() == 0 && may_fail) {
				return -1;
			}
			v = s;
			m = sm;
			if (wflip(1, 2)) { // the same from the end
				int n = (int)m.size(), f = (int)wchoose(n), t = f + (int)wchoose(n - f);
				PoolVector<T> u = v.subarray(f - n, t - n);
				M um(m.begin() + f, m.begin() + t + 1);
				SIM_CHECK(matches(u, um) || (may_fail && u.size() == 0), "contents", "a part counted from the end of a pooled array is another");
			}
			return -1;
		}
		case 13: { // outside
			int n = (int)m.size(), out = wflip(1, 2) ? n + (int)wchoose(3) : -1 - (int)wchoose(3);
			switch (wchoose(5)) {
				case 0: v.set(out, C::mk(x)); break;
				case 1: v.remove(out); break;
				case 2: SIM_CHECK(v.insert(out < 0 ? out : out + 1, C::mk(x)) != OK, "outside", "inserting outside a pooled array reported success"); break;
				case 3: SIM_CHECK(v.resize(-1 - (int)wchoose(3)) != OK, "outside", "a pooled array of negative size was made"); break;
				default: {
					PoolVector<T> u = out < 0 ? v.subarray(-n - 1, -1) : v.subarray(0, out);
					SIM_CHECK(u.size() == 0, "outside", "a part of a pooled array beyond its end has elements");
				}
			}
			return -1;
		}
		case 14: {
			List<T> l;
			m.clear();
			for (uint32_t n = wchoose(6); n > 0; n--) {
				int y = wchoose(16);
				l.push_back(C::mk(y));
				m.push_back(y);
			}
			v.fill_with(l);
			return -1;
		}
		case 15:
			joined(v, m);
			return -1;
		default: {
			Error e = v.clear();
			m.clear();
			return e == OK;
		}
	}
}

template <class T>
static void step(PoolVector<T> &v, M &m, const PoolVector<T> &other, const M &om) {
	M was = m;
	uint64_t errs = lib_errors();
	int ok = change(v, m, other, om);
	if (ok == 0) {
		SIM_CHECK(may_fail, "refused", "an operation on a pooled array reported failure although nothing stood in its way");
		probe(0, "an operation reported that it failed");
		m = was;
		check(v, m, "after a reported failure");
		return;
	}
	if (ok == -1 && may_fail && lib_errors() != errs && !matches(v, m)) {
		probe(1, "an operation failed and left the contents");
		m = was;
		check(v, m, "after a failed operation");
		return;
	}
	check(v, m, "after an operation");
}

struct Books {
	uint32_t used;
	size_t bytes;
	Books() :
			used(MemoryPool::allocs_used), bytes(MemoryPool::total_memory) {}
};
// Exact while no other thread runs: the blocks reachable from these arrays are all there are.
template <class T>
static void balance(const Books &base, const std::vector<const PoolVector<T> *> &all, const char *when) {
	std::map<const void *, size_t> blocks;
	for (const PoolVector<T> *v : all) {
		if (v->size()) {
			blocks[v->read().ptr()] = v->size() * sizeof(T);
		}
	}
	size_t bytes = 0;
	for (auto &b : blocks) bytes += b.second;
	SIM_CHECK(MemoryPool::allocs_used - base.used == blocks.size(), "slots", "%s: %u slots are in use for %zu live blocks", when, MemoryPool::allocs_used - base.used, blocks.size());
	SIM_CHECK(MemoryPool::total_memory - base.bytes == bytes, "bytes", "%s: %zu bytes are accounted for %zu bytes in live blocks", when, MemoryPool::total_memory - base.bytes, bytes);
	SIM_CHECK(MemoryPool::max_memory >= MemoryPool::total_memory, "peak", "%s: the pool's peak %zu is below its use %zu", when, MemoryPool::max_memory, MemoryPool::total_memory);
}
// Every slot is either in use or on the free list, once.
static void free_list_whole(const char *when) {
	std::set<MemoryPool::Alloc *> seen;
	for (MemoryPool::Alloc *a = MemoryPool::free_list; a; a = a->free_list) {
		SIM_CHECK(seen.insert(a).second, "free-list", "%s: a slot is on the free list twice", when);
		SIM_CHECK(seen.size() <= MemoryPool::alloc_count, "free-list", "%s: the free list is longer than the pool", when);
	}
	SIM_CHECK(seen.size() + MemoryPool::allocs_used == MemoryPool::alloc_count, "free-list", "%s: %zu slots free and %u in use of %u", when, seen.size(), MemoryPool::allocs_used, MemoryPool::alloc_count);
}

static void small_pool(uint32_t n) {
	if (MemoryPool::allocs_used != 0) {
		harness_error("pooled arrays alive before the run");
	}
	MemoryPool::cleanup();
	MemoryPool::setup(n);
}

template <class T>
static void threads_family(int tight) {
	may_fail = false;
	const int K = 2, S = 3;
	int TN = 2 + choose(ST_CFG, 2);
	int most = K + 1 + TN * (S + 4);
	if (tight) {
		small_pool(3 + choose(ST_CFG, 6));
		may_fail = true;
	} else {
		small_pool(most + 1);
	}
	uint64_t mark = heap_mark();
	Books base;
	{
		PCell<T> orig[K], box;
		for (int i = 0; i < K; i++) {
			uint32_t n = 1 + wchoose(6);
			for (uint32_t j = 0; j < n; j++) {
				int x = wchoose(16);
				orig[i].v.push_back(Cv<T>::mk(x));
				orig[i].m.push_back(x);
			}
		}
		Mutex box_lock;
		int steps = 3 + choose(ST_CFG, 10);
		struct Slots {
			PCell<T> c[S];
		};
		Slots *sl = new Slots[TN];
		for (int t = 0; t < TN; t++) {
			for (int i = 0; i < S; i++) sl[t].c[i] = orig[choose(ST_CFG, K)];
		}
		std::vector<int> tids;
		for (int t = 0; t < TN; t++) {
			tids.push_back(spawn([&, t]() {
				Slots &me = sl[t];
				typename PoolVector<T>::Read held; // open on slot hs, which stays untouched meanwhile
				int hs = -1;
				for (int s = 0; s < steps; s++) {
					int i = wchoose(S);
					int w = weighted(ST_W0 + self(), { 9, 3, 3, 2, 3, 2, 3, 2 });
					if (i == hs && w != 7) {
						i = (i + 1) % S;
					}
					PCell<T> &c = me.c[i];
					switch (w) {
						case 0: {
							int j = wchoose(S);
							step(c.v, c.m, me.c[j].v, me.c[j].m);
						} break;
						case 1: {
							int j = wchoose(S);
							c.v = me.c[j].v;
							if (i != j) {
								c.m = me.c[j].m;
							}
						} break;
						case 2: {
							int j = wchoose(K);
							c.v = orig[j].v;
							c.m = orig[j].m;
						} break;
						case 3:
							c.v = PoolVector<T>();
							c.m.clear();
							break;
						case 4: {
							MutexLock l(box_lock);
							box.v = c.v;
							box.m = c.m;
						} break;
						case 5: {
							MutexLock l(box_lock);
							c.v = box.v;
							c.m = box.m;
						} break;
						case 6: { // queries
							int x = wchoose(16);
							int cnt = std::count(c.m.begin(), c.m.end(), x);
							SIM_CHECK(c.v.count(Cv<T>::mk(x)) == cnt, "query", "count of a pooled array is wrong");
							SIM_CHECK(c.v.contains(Cv<T>::mk(x)) == (cnt > 0), "query", "contains of a pooled array is wrong");
							auto it = std::find(c.m.begin(), c.m.end(), x);
							SIM_CHECK(c.v.find(Cv<T>::mk(x)) == (it == c.m.end() ? -1 : int(it - c.m.begin())), "query", "find of a pooled array is wrong");
							int n = (int)c.m.size(), from = n ? (int)wchoose(n) : 0, last = -1, lastf = -1, firstf = -1;
							for (int e = 0; e < n; e++) {
								if (c.m[e] != x) continue;
								last = e;
								if (e <= from) lastf = e;
								if (e >= from && firstf < 0) firstf = e;
							}
							SIM_CHECK(c.v.rfind(Cv<T>::mk(x)) == last && (!n || c.v.rfind(Cv<T>::mk(x), from) == lastf), "query", "searching a pooled array from its end is wrong");
							SIM_CHECK(!n || c.v.find(Cv<T>::mk(x), from) == firstf, "query", "searching a pooled array from %d is wrong", from);
						} break;
						case 7: // take or release the long-lived reader
							if (hs < 0) {
								hs = i;
								held = me.c[i].v.read();
								if (me.c[i].m.size()) {
									SIM_CHECK(me.c[i].v.is_locked(), "not-locked", "a pooled array with an open reader says it is not locked");
								}
							} else {
								hs = -1;
								held.release();
							}
							break;
					}
					if (hs >= 0) {
						M &hm = me.c[hs].m;
						for (size_t e = 0; e < hm.size(); e++) {
							SIM_CHECK(Cv<T>::same(held[(int)e], hm[e]), "reader-view", "element %zu changed under an open reader", e);
						}
					}
					check(c.v, c.m, "after a step");
				}
				held.release();
				for (int i = 0; i < S; i++) check(me.c[i].v, me.c[i].m, "at the end of a thread");
			}));
		}
		for (int t : tids) join(t);
		std::vector<const PoolVector<T> *> all;
		for (int i = 0; i < K; i++) {
			check(orig[i].v, orig[i].m, "original");
			all.push_back(&orig[i].v);
		}
		check(box.v, box.m, "box");
		all.push_back(&box.v);
		for (int t = 0; t < TN; t++) {
			for (int i = 0; i < S; i++) {
				all.push_back(&sl[t].c[i].v);
				SIM_CHECK(!sl[t].c[i].v.is_locked() || true, "locked", "unreachable");
			}
		}
		balance(base, all, "with all threads done");
		for (const PoolVector<T> *v : all) SIM_CHECK(!v->is_locked(), "locked", "a pooled array is locked although every handle was released");
		free_list_whole("with all threads done");
		delete[] sl;
	}
	std::vector<const PoolVector<T> *> none;
	balance(base, none, "after the last array");
	free_list_whole("after the last array");
	uint64_t by = 0, n = heap_live_since(mark, &by);
	SIM_CHECK(n == 0, "leak", "%llu blocks (%llu bytes) are still allocated after the last pooled array is gone", (unsigned long long)n, (unsigned long long)by);
}

// One thread's arrays, handles held across every change of the array they were taken from.
template <class T>
static void handles_family() {
	may_fail = false;
	small_pool(12);
	uint64_t mark = heap_mark();
	Books base;
	int rounds = 2 + choose(ST_CFG, 4);
	int TN = 1 + choose(ST_CFG, 2);
	std::vector<int> tids;
	for (int t = 0; t < TN; t++) {
		tids.push_back(spawn([&]() {
			typedef Cv<T> C;
			for (int q = 0; q < rounds; q++) {
				PoolVector<T> *a = new PoolVector<T>();
				PoolVector<T> b;
				M m, bm;
				uint32_t n = 1 + wchoose(5);
				for (uint32_t i = 0; i < n; i++) {
					int x = wchoose(16);
					a->push_back(C::mk(x));
					m.push_back(x);
				}
				bool shared = wflip(1, 2);
				if (shared) {
					b = *a;
					bm = m;
				}
				M view = m;
				typename PoolVector<T>::Read r, r2;
				typename PoolVector<T>::Write w;
				bool writer = !shared && wflip(1, 3);
				if (writer) {
					w = a->write();
					w[0] = C::mk(3);
					view[0] = m[0] = 3;
				} else {
					r = a->read();
					if (wflip(1, 3)) {
						r2 = r;
					}
				}
				ev("handle %s %s", writer ? "write" : "read", shared ? "shared" : "alone");
				int ops = 1 + wchoose(3);
				for (int o = 0; o < ops; o++) {
					PoolVector<T> &v = *a;
					uint64_t errs = lib_errors();
					M was = m;
					uint32_t k = wchoose(9);
					ev("under handle %u", k);
					bool resizing = true;
					switch (k) {
						case 0:
							v.push_back(C::mk(5));
							m.push_back(5);
							break;
						case 1:
							if (m.size()) {
								v.remove(0);
								m.erase(m.begin());
							}
							break;
						case 2: {
							Error e = v.insert(0, C::mk(4));
							m.insert(m.begin(), 4);
							SIM_CHECK((e == OK) == (v.size() == (int)m.size()), "result", "insert under a handle returned %d", e);
						} break;
						case 3: {
							uint32_t z = wchoose(m.size() + 1);
							Error e = v.resize(z);
							m.resize(z);
							SIM_CHECK(v.size() == (int)(e == OK ? m.size() : was.size()), "result", "resize under a handle returned %d", e);
						} break;
						case 4: {
							uint32_t z = m.size() + 1 + wchoose(4);
							Error e = v.resize(z);
							SIM_CHECK((e == OK) == (v.size() == (int)z), "result", "resize under a handle returned %d", e);
							if (e == OK) {
								for (uint32_t i = m.size(); i < z; i++) v.set(i, C::mk(6));
								m.resize(z, 6);
							}
						} break;
						case 5: {
							PoolVector<T> o2;
							o2.push_back(C::mk(9));
							M om2(1, 9);
							v.append_array(o2);
							m.push_back(9);
						} break;
						case 6:
							v = PoolVector<T>();
							m.clear();
							resizing = false;
							break;
						case 7: // the array itself goes away under the handle
							delete a;
							a = new PoolVector<T>();
							m.clear();
							resizing = false;
							break;
						case 8:
							if (shared) { // the other owner moves on
								b.push_back(C::mk(8)); // refused if the handle's block is all b's by now
								if (b.size() == (int)bm.size() + 1 || lib_errors() == errs) {
									bm.push_back(8);
								}
							}
							break;
					}
					if (resizing && lib_errors() != errs && !matches(*a, m)) {
						probe(2, "a resize under an open handle was refused");
						m = was;
					} else if (resizing) {
						probe(3, "a resize under an open handle left the handle's block");
					}
					check(*a, m, "under a handle");
					check(b, bm, "the other owner under a handle");
					const T *p = writer ? w.ptr() : r.ptr();
					for (size_t i = 0; i < view.size(); i++) {
						SIM_CHECK(C::same(p[i], view[i]), "handle-view", "element %zu of a handle's view changed while it was open", i);
					}
					if (wflip(1, 4)) {
						yield("under a handle");
					}
				}
				if (wflip(1, 2)) {
					r.release();
					w.release();
				}
				check(*a, m, "after the handle");
				delete a;
				if (shared && wflip(1, 2)) {
					b = PoolVector<T>();
				}
				const T *p2 = r2.ptr();
				if (p2) {
					for (size_t i = 0; i < view.size(); i++) {
						SIM_CHECK(C::same(p2[i], view[i]), "handle-view", "element %zu of a second handle's view changed while it was open", i);
					}
				}
			}
		}));
	}
	for (int t : tids) join(t);
	std::vector<const PoolVector<T> *> none;
	balance(base, none, "after the last array and handle");
	free_list_whole("after the last array and handle");
	uint64_t by = 0, n = heap_live_since(mark, &by);
	SIM_CHECK(n == 0, "leak", "%llu blocks (%llu bytes) are still allocated after the last pooled array and handle are gone", (unsigned long long)n, (unsigned long long)by);
}
} // namespace

SCENARIO(C02, numbers, 3) { threads_family<int>(0); }
SCENARIO(C02, strings, 2) { threads_family<String>(0); }
SCENARIO(C02, objects, 2) { threads_family<Tok>(0); }
SCENARIO(C02, numbers_few_slots, 2) { threads_family<int>(1); }
SCENARIO(C02, objects_few_slots, 2) { threads_family<Tok>(1); }
SCENARIO(C02, handles_numbers, 2) { handles_family<int>(); }
SCENARIO(C02, handles_objects, 2) { handles_family<Tok>(); }
