// M01: allocation accounting.  M02: running out of memory in the middle of an operation on a value.
#include "common.h"
#include <algorithm>
using namespace sim;

namespace {
// ---- M01 -----------------------------------------------------------------------------------------------------------
struct Obj {
	int a[5];
	static int live;
	Obj() {
		a[0] = 42;
		Quiet q;
		live++;
	}
	~Obj() {
		Quiet q;
		live--;
	}
};
int Obj::live = 0;

enum BKind { B_NONE, B_RAW, B_OBJ, B_ARR, B_WORDS };
struct Block {
	BKind kind = B_NONE;
	void *p = nullptr;
	size_t n = 0; // bytes (raw) or elements
	uint8_t pat = 0;
	size_t bytes() const {
		switch (kind) {
			case B_RAW: return n;
			case B_OBJ: return sizeof(Obj);
			case B_ARR: return n * sizeof(Obj);
			case B_WORDS: return n * sizeof(uint32_t);
			default: return 0;
		}
	}
};
static void fill(Block &b, size_t from = 0) {
	if (b.kind == B_RAW) {
		for (size_t i = from; i < b.n; i++) ((uint8_t *)b.p)[i] = (uint8_t)(b.pat + i);
	} else if (b.kind == B_WORDS) {
		for (size_t i = 0; i < b.n; i++) ((uint32_t *)b.p)[i] = b.pat + i;
	}
}
static void verify(const Block &b, size_t upto, const char *when) {
	if (b.kind == B_RAW) {
		for (size_t i = 0; i < upto; i++) {
			SIM_CHECK(((uint8_t *)b.p)[i] == (uint8_t)(b.pat + i), "contents", "%s: byte %zu of a block of %zu changed", when, i, b.n);
		}
	} else if (b.kind == B_WORDS) {
		for (size_t i = 0; i < b.n; i++) SIM_CHECK(((uint32_t *)b.p)[i] == b.pat + i, "contents", "%s: word %zu of an array changed", when, i);
		SIM_CHECK(memarr_len((uint32_t *)b.p) == b.n, "array-length", "%s: an array of %zu elements says it has %zu", when, b.n, (size_t)memarr_len((uint32_t *)b.p));
	} else if (b.kind == B_ARR) {
		for (size_t i = 0; i < b.n; i++) SIM_CHECK(((Obj *)b.p)[i].a[0] == 42, "contents", "%s: element %zu of an object array is not constructed", when, i);
		SIM_CHECK(memarr_len((Obj *)b.p) == b.n, "array-length", "%s: an array of %zu objects says it has %zu", when, b.n, (size_t)memarr_len((Obj *)b.p));
	} else if (b.kind == B_OBJ) {
		SIM_CHECK(((Obj *)b.p)->a[0] == 42, "contents", "%s: an object is not constructed", when);
	}
}
static void release(Block &b) {
	switch (b.kind) {
		case B_RAW: memfree(b.p); break;
		case B_OBJ: memdelete((Obj *)b.p); break;
		case B_ARR: memdelete_arr((Obj *)b.p); break;
		case B_WORDS: memdelete_arr((uint32_t *)b.p); break;
		default: break;
	}
	b = Block();
}
static size_t pick_size() {
	switch (wchoose(5)) {
		case 0: return 1 + wchoose(8);
		case 1: return 1 + wchoose(64);
		case 2: return 16 * (1 + wchoose(16));
		case 3: return 1 + wchoose(700);
		default: return 32;
	}
}

static void m01(int TN, bool oom) {
	uint64_t mark = heap_mark();
	uint64_t base = Memory::get_mem_usage(), peak0 = Memory::get_mem_max_usage();
	int steps = 5 + choose(ST_CFG, 25);
	const int S = 5;
	// The most this thread ever held, summed over threads, bounds the peak from above.
	std::vector<uint64_t> most(TN + 1, 0);
	std::vector<std::vector<Block>> bl(TN, std::vector<Block>(S));
	Block box;
	Mutex box_lock;
	uint64_t lead = 0;
	Block leadb;
	if (peak0 > base && choose(ST_CFG, 3) == 0) { // start right below the peak of the start-up phase
		leadb.kind = B_RAW;
		lead = leadb.n = peak0 - base - std::min<uint64_t>(peak0 - base, choose(ST_CFG, 40));
		if (lead) {
			leadb.p = memalloc(lead);
			((char *)leadb.p)[0] = ((char *)leadb.p)[lead - 1] = 5;
		} else {
			leadb = Block();
		}
	}
	uint64_t single_peak = std::max(peak0, base + lead);
	uint64_t boxmost = 0;
	std::vector<int> tids;
	int obj0 = Obj::live;
	for (int t = 0; t < TN; t++) {
		tids.push_back(spawn([&, t]() {
			std::vector<Block> &mine = bl[t];
			for (int s = 0; s < steps; s++) {
				Block &b = mine[wchoose(S)];
				if (oom) {
					oom_arm(1, 2 + wchoose(4));
				}
				size_t extra = 0; // transiently held by a resize on top of what is live: none is accounted for
				switch (weighted(ST_W0 + self(), { 6, 6, 4, 2, 2, 2, 2 })) {
					case 0: {
						if (b.kind != B_NONE) {
							break;
						}
						size_t n = pick_size();
						ev("alloc %zu", n);
						void *p = memalloc(n);
						SIM_CHECK(p || oom, "refused", "an allocation of %zu bytes failed although memory was available", n);
						if (p) {
							b.kind = B_RAW;
							b.p = p;
							b.n = n;
							b.pat = wchoose(250);
							SIM_CHECK(((uintptr_t)p & 7) == 0, "alignment", "a block at %p is not aligned", p);
							fill(b);
						}
					} break;
					case 1: {
						if (b.kind != B_RAW) {
							break;
						}
						size_t n = wflip(1, 8) ? 0 : wflip(1, 4) ? b.n : pick_size();
						ev("realloc %zu->%zu", b.n, n);
						void *p = memrealloc(b.p, n);
						if (n == 0) {
							SIM_CHECK(!p, "resize-zero", "resizing a block to nothing returned a block");
							b = Block();
						} else if (!p) {
							SIM_CHECK(oom, "refused", "a resize to %zu bytes failed although memory was available", n);
							probe(0, "a resize was refused");
							verify(b, b.n, "after a refused resize");
						} else {
							size_t old = b.n;
							b.p = p;
							b.n = n;
							verify(b, std::min(old, n), "after a resize");
							fill(b, std::min(old, n));
						}
					} break;
					case 2:
						if (b.kind != B_NONE) {
							verify(b, b.n, "before release");
							ev("free");
							release(b);
						}
						break;
					case 3:
						if (b.kind == B_NONE) {
							oom_arm(0, 1); // a refused object has nowhere to be constructed
							ev("object");
							b.p = memnew(Obj);
							b.kind = B_OBJ;
							b.n = 1;
						}
						break;
					case 4:
						if (b.kind == B_NONE) {
							size_t n = 1 + wchoose(6);
							ev("objects %zu", n);
							b.p = memnew_arr(Obj, n);
							SIM_CHECK(b.p || oom, "refused", "an array of %zu objects failed although memory was available", n);
							if (b.p) {
								b.kind = B_ARR;
								b.n = n;
							}
						}
						break;
					case 5:
						if (b.kind == B_NONE) {
							size_t n = 1 + wchoose(40);
							ev("words %zu", n);
							b.p = memnew_arr(uint32_t, n);
							SIM_CHECK(b.p || oom, "refused", "an array of %zu words failed although memory was available", n);
							if (b.p) {
								b.kind = B_WORDS;
								b.n = n;
								b.pat = wchoose(250);
								fill(b);
							}
						}
						break;
					case 6: { // trade a block with whoever comes by
						oom_arm(0, 1);
						MutexLock l(box_lock);
						std::swap(b, box);
						boxmost = std::max<uint64_t>(boxmost, box.bytes());
						ev("trade");
					} break;
				}
				oom_arm(0, 1);
				uint64_t own = 0;
				for (Block &x : mine) own += x.bytes();
				uint64_t use = Memory::get_mem_usage();
				if (TN == 1) {
					uint64_t all = base + lead + own + box.bytes();
					single_peak = std::max(single_peak, all);
					SIM_CHECK(use == all, "usage", "%llu bytes are reported in use, %llu are held", (unsigned long long)use, (unsigned long long)all);
					SIM_CHECK(Memory::get_mem_max_usage() == single_peak, "peak", "the reported peak is %llu, the greatest use was %llu", (unsigned long long)Memory::get_mem_max_usage(), (unsigned long long)single_peak);
				} else {
					Quiet q;
					most[t] = std::max(most[t], own);
					SIM_CHECK(use >= base + lead + own && use < base + lead + (1u << 20), "usage", "%llu bytes are reported in use while one thread alone holds %llu above the %llu at the start", (unsigned long long)use, (unsigned long long)own, (unsigned long long)(base + lead));
				}
				(void)extra;
			}
			for (Block &x : mine) verify(x, x.n, "at the end of a thread");
		}));
	}
	for (int t : tids) join(t);
	uint64_t all = base + lead + box.bytes();
	int objs = box.kind == B_OBJ ? 1 : box.kind == B_ARR ? (int)box.n : 0;
	for (auto &v : bl) {
		for (Block &x : v) {
			all += x.bytes();
			objs += x.kind == B_OBJ ? 1 : x.kind == B_ARR ? (int)x.n : 0;
			verify(x, x.n, "at the end");
		}
	}
	verify(box, box.n, "at the end");
	SIM_CHECK(Memory::get_mem_usage() == all, "usage", "%llu bytes are reported in use, %llu are held", (unsigned long long)Memory::get_mem_usage(), (unsigned long long)all);
	SIM_CHECK(Obj::live - obj0 == objs, "objects", "%d objects are constructed, %d are held", Obj::live - obj0, objs);
	uint64_t pk = Memory::get_mem_max_usage();
	SIM_CHECK(pk >= all && pk >= peak0, "peak", "the reported peak %llu is below the use %llu", (unsigned long long)pk, (unsigned long long)all);
	if (TN > 1) {
		uint64_t top = base + lead + boxmost;
		for (uint64_t m : most) top += m;
		// A block on its way from one owner to the next is counted with both: allow the largest block once per thread.
		SIM_CHECK(pk <= std::max(peak0, top + 800u * (TN + 1)), "peak", "the reported peak %llu is above anything the threads can have held (%llu)", (unsigned long long)pk, (unsigned long long)top);
	}
	for (auto &v : bl) {
		for (Block &x : v) release(x);
	}
	release(box);
	if (leadb.p) {
		memfree(leadb.p);
	}
	SIM_CHECK(Memory::get_mem_usage() == base, "usage", "%lld bytes are reported in use after everything was released", (long long)(Memory::get_mem_usage() - base));
	SIM_CHECK(Memory::get_mem_max_usage() == pk, "peak", "the reported peak changed from %llu to %llu while releasing", (unsigned long long)pk, (unsigned long long)Memory::get_mem_max_usage());
	SIM_CHECK(Obj::live == obj0, "objects", "%d objects are still constructed", Obj::live - obj0);
	uint64_t n = heap_live_since(mark);
	SIM_CHECK(n == 0, "leak", "%llu blocks were not handed back", (unsigned long long)n);
}

// ---- M02 -----------------------------------------------------------------------------------------------------------
// An element that knows whether it is constructed; its memory is not subject to the failures injected here.
struct Item {
	int *p;
	static int live;
	Item(int v = 7) {
		p = new int(v);
		live++;
	}
	Item(const Item &o) {
		p = new int(*o.p);
		live++;
	}
	void operator=(const Item &o) { *p = *o.p; }
	~Item() {
		delete p;
		live--;
	}
	bool operator==(const Item &o) const { return *p == *o.p; }
	bool operator<(const Item &o) const { return *p < *o.p; }
};
int Item::live = 0;
template <class T>
struct Cx {
	static T mk(int m) { return T(m); }
	static bool same(const T &a, int b) { return a == T(b); }
};
template <>
struct Cx<Item> {
	static Item mk(int m) { return Item(m); }
	static bool same(const Item &a, int b) { return *a.p == b; }
};

enum Res { R_VOID, R_OK, R_FAIL };
struct Op {
	uint32_t k, i, n, x;
	std::u32string w;
	std::string c;
};

struct StrM {
	typedef String V;
	typedef std::u32string M;
	static Op draw(const M &m) {
		Op o;
		o.k = wchoose(12);
		o.i = m.size() ? wchoose(m.size()) : 0;
		o.n = wchoose(m.size() * 2 + 8);
		o.x = U"aZ\u00e9\u4e16"[wchoose(4)];
		uint32_t l = 1 + wchoose(12);
		for (uint32_t i = 0; i < l; i++) {
			o.w.push_back(U"abcdefgh\u00e9"[wchoose(9)]);
			o.c.push_back("abcdefgh"[wchoose(8)]);
		}
		return o;
	}
	static void model(M &m, const M &other, const Op &o) {
		switch (o.k) {
			case 0:
			case 1:
				if (m.size()) {
					m[o.i] = o.x;
				}
				break;
			case 2: m += (char32_t)o.x; break;
			case 3: m += other; break;
			case 4:
				for (char c : o.c) m += (char32_t)c;
				break;
			case 5: m = M(o.c.begin(), o.c.end()); break;
			case 6: m = o.w; break;
			case 7:
				if (o.n < m.size()) {
					m.resize(o.n);
				} else {
					m.resize(o.n, (char32_t)o.x);
				}
				break;
			case 8:
				if (m.size()) {
					m[o.i] = o.x;
				}
				break;
			case 9:
				if (m.size()) {
					m.erase(o.i, 1);
				}
				break;
			case 10: m = other; break;
			case 11: m = M(o.c.begin(), o.c.end()); break;
		}
	}
	static Res apply(V &v, const V &other, const Op &o) {
		switch (o.k) {
			case 0:
				if (v.length()) {
					v.set(o.i, o.x);
				}
				return R_VOID;
			case 1:
				if (v.length()) {
					v[o.i] = o.x;
				}
				return R_VOID;
			case 2: v += (CharType)o.x; return R_VOID;
			case 3: v += other; return R_VOID;
			case 4: v += o.c.c_str(); return R_VOID;
			case 5: v = o.c.c_str(); return R_VOID;
			case 6: v = o.w.c_str(); return R_VOID;
			case 7: {
				int len = v.length();
				if ((uint32_t)len == o.n) {
					return R_VOID;
				}
				Error e = v.resize(o.n + 1);
				if (e != OK) {
					return R_FAIL;
				}
				if (o.n > (uint32_t)len) {
					CharType *w = v.ptrw();
					SIM_CHECK(w, "no-writer", "a String that was just resized has no storage");
					for (uint32_t i = len; i < o.n; i++) w[i] = o.x;
				}
				return R_OK;
			}
			case 8:
				if (v.length()) {
					CharType *w = v.ptrw();
					if (!w) {
						return R_FAIL;
					}
					w[o.i] = o.x;
					return R_OK;
				}
				return R_VOID;
			case 9:
				if (v.length()) {
					v.remove(o.i);
				}
				return R_VOID;
			case 10: v = other; return R_OK;
			case 11: {
				Error e = v.parse_utf8(o.c.c_str());
				return e == OK ? R_OK : R_FAIL;
			}
		}
		return R_VOID;
	}
	static bool same(const V &v, const M &m) {
		if (v.length() != (int)m.size()) {
			return false;
		}
		for (size_t i = 0; i < m.size(); i++) {
			if (v.ptr()[i] != m[i]) {
				return false;
			}
		}
		return v.size() == 0 || v.ptr()[m.size()] == 0;
	}
	static const int maxlen = 80;
};

struct CharM {
	typedef CharString V;
	typedef std::string M;
	static Op draw(const M &m) {
		Op o;
		o.k = wchoose(5);
		o.i = m.size() ? wchoose(m.size()) : 0;
		o.n = 0;
		o.x = "aZ01"[wchoose(4)];
		uint32_t l = 1 + wchoose(20);
		for (uint32_t i = 0; i < l; i++) o.c.push_back("abcdefgh"[wchoose(8)]);
		return o;
	}
	static void model(M &m, const M &other, const Op &o) {
		switch (o.k) {
			case 0:
				if (m.size()) {
					m[o.i] = o.x;
				}
				break;
			case 1: m += (char)o.x; break;
			case 2: m = o.c; break;
			case 3: m = other; break;
			case 4:
				if (m.size()) {
					m[o.i] = o.x;
				}
				break;
		}
	}
	static Res apply(V &v, const V &other, const Op &o) {
		switch (o.k) {
			case 0:
				if (v.length()) {
					v.set(o.i, o.x);
				}
				return R_VOID;
			case 1: v += (char)o.x; return R_VOID;
			case 2: v = o.c.c_str(); return R_VOID;
			case 3: v = other; return R_OK;
			case 4:
				if (v.length()) {
					char *w = v.ptrw();
					if (!w) {
						return R_FAIL;
					}
					w[o.i] = o.x;
					return R_OK;
				}
				return R_VOID;
		}
		return R_VOID;
	}
	static bool same(const V &v, const M &m) {
		return v.length() == (int)m.size() && memcmp(v.get_data(), m.c_str(), m.size() + 1) == 0;
	}
	static const int maxlen = 80;
};

template <class V_, class T, bool POOL>
struct SeqM {
	typedef V_ V;
	typedef std::vector<int> M;
	typedef Cx<T> C;
	static Op draw(const M &m) {
		Op o;
		o.k = wchoose(12);
		o.i = m.size() ? wchoose(m.size()) : 0;
		o.n = wchoose(m.size() * 2 + 6);
		o.x = wchoose(16);
		return o;
	}
	static void model(M &m, const M &other, const Op &o) {
		switch (o.k) {
			case 0:
			case 8:
				if (m.size()) {
					m[o.i] = o.x;
				}
				break;
			case 1:
			case 2: m.push_back(o.x); break;
			case 3:
				if (m.size()) {
					m.erase(m.begin() + o.i);
				}
				break;
			case 4: m.insert(m.begin() + o.i, o.x); break;
			case 5: m.resize(o.n, o.x); break;
			case 6: {
				M t = other;
				m.insert(m.end(), t.begin(), t.end());
			} break;
			case 7: std::reverse(m.begin(), m.end()); break;
			case 9:
				for (int &e : m) e = o.x;
				break;
			case 10: m = other; break;
			case 11: std::sort(m.begin(), m.end()); break;
		}
	}
	static T *writer(Vector<T> &v, int) { return v.ptrw(); }
	static Res poke(Vector<T> &v, int from, int to, int x) {
		T *w = v.ptrw();
		if (!w) {
			return R_FAIL;
		}
		for (int i = from; i < to; i++) w[i] = C::mk(x);
		return R_OK;
	}
	static Res poke(PoolVector<T> &v, int from, int to, int x) {
		typename PoolVector<T>::Write w = v.write();
		if (!w.ptr()) {
			return R_FAIL;
		}
		for (int i = from; i < to; i++) w[i] = C::mk(x);
		return R_OK;
	}
	static Res push(Vector<T> &v, int x) { return v.push_back(C::mk(x)) ? R_FAIL : R_OK; }
	static Res push(PoolVector<T> &v, int x) {
		v.push_back(C::mk(x));
		return R_VOID;
	}
	static Res apply(V &v, const V &other, const Op &o) {
		switch (o.k) {
			case 0:
				if (v.size()) {
					v.set(o.i, C::mk(o.x));
				}
				return R_VOID;
			case 1:
			case 2: return push(v, o.x);
			case 3:
				if (v.size()) {
					v.remove(o.i);
				}
				return R_VOID;
			case 4: return v.insert(o.i, C::mk(o.x)) == OK ? R_OK : R_FAIL;
			case 5: {
				int n = v.size();
				if (v.resize(o.n) != OK) {
					return R_FAIL;
				}
				if ((int)o.n > n) {
					SIM_CHECK(poke(v, n, o.n, o.x) == R_OK, "no-writer", "a sequence that was just resized has no storage");
				}
				return R_OK;
			}
			case 6: v.append_array(other); return R_VOID;
			case 7: v.invert(); return R_VOID;
			case 8: return v.size() ? poke(v, o.i, o.i + 1, o.x) : R_VOID;
			case 9: v.fill(C::mk(o.x)); return R_VOID;
			case 10: v = other; return R_OK;
			case 11: v.sort(); return R_VOID;
		}
		return R_VOID;
	}
	static bool at(const Vector<T> &v, int i, int m) { return C::same(v.ptr()[i], m); }
	static bool at(const PoolVector<T> &v, int i, int m) { return C::same(v.read()[i], m); }
	static bool same(const V &v, const M &m) {
		if (v.size() != (int)m.size()) {
			return false;
		}
		for (size_t i = 0; i < m.size(); i++) {
			if (!at(v, i, m[i])) {
				return false;
			}
		}
		return true;
	}
	static const int maxlen = 40;
};

template <class A>
static void m02() {
	uint64_t mark = heap_mark(), use0 = Memory::get_mem_usage();
	int items0 = Item::live;
	{
		const int S = 4;
		typename A::V v[S];
		typename A::M m[S];
		int steps = 8 + choose(ST_CFG, 40);
		for (int s = 0; s < steps; s++) {
			int i = wchoose(S), j = wchoose(S);
			Op o = A::draw(m[i]);
			typename A::M nm = m[i], om = m[j];
			A::model(nm, om, o);
			if ((int)nm.size() > A::maxlen) {
				v[i] = typename A::V();
				m[i].clear();
				continue;
			}
			ev("change %u", o.k);
			uint64_t fired = heap().oom_fired;
			switch (choose(ST_OOM, 4)) {
				case 0: break;
				case 1: oom_nth(1); break;
				case 2: oom_nth(1 + choose(ST_OOM, 4)); break;
				case 3: oom_arm(1, 2); break;
			}
			Res r = A::apply(v[i], v[j], o);
			oom_nth(0);
			oom_arm(0, 1);
			if (heap().oom_fired == fired) {
				SIM_CHECK(r != R_FAIL, "refused", "operation %u reported failure although memory was available", o.k);
				SIM_CHECK(A::same(v[i], nm), "result", "operation %u left the wrong contents with memory available", o.k);
				m[i] = nm;
			} else {
				bool isold = A::same(v[i], m[i]), isnew = A::same(v[i], nm);
				SIM_CHECK(isold || isnew, "destroyed", "operation %u, refused memory, left neither the old nor the new contents", o.k);
				SIM_CHECK(r != R_OK || isnew, "false-success", "operation %u, refused memory, reported success but did not happen", o.k);
				SIM_CHECK(r != R_FAIL || isold, "false-failure", "operation %u, refused memory, reported failure but changed the value", o.k);
				if (isold && !isnew) {
					probe(1, "an operation was refused memory and left the value alone");
				} else {
					probe(2, "an operation got by without the refused memory");
				}
				if (!isnew && wflip(3, 4)) {
					r = A::apply(v[i], v[j], o);
					SIM_CHECK(r != R_FAIL && A::same(v[i], nm), "retry", "operation %u still fails after memory is available again", o.k);
					isnew = true;
				}
				if (isnew) {
					m[i] = nm;
				}
			}
			for (int k = 0; k < S; k++) SIM_CHECK(A::same(v[k], m[k]), "other-value", "operation %u changed another value", o.k);
		}
	}
	SIM_CHECK(Item::live == items0, "elements", "%d elements are still constructed after the last value is gone", Item::live - items0);
	SIM_CHECK(Memory::get_mem_usage() == use0, "usage", "%lld bytes are reported in use after the last value is gone", (long long)(Memory::get_mem_usage() - use0));
	uint64_t n = heap_live_since(mark);
	SIM_CHECK(n == 0, "leak", "%llu blocks are still allocated after the last value is gone", (unsigned long long)n);
}
template <class A>
static void m02_pool() {
	uint32_t used = MemoryPool::allocs_used;
	size_t bytes = MemoryPool::total_memory;
	m02<A>();
	SIM_CHECK(MemoryPool::allocs_used == used, "slots", "%d slots are in use after the last pooled array is gone", (int)(MemoryPool::allocs_used - used));
	SIM_CHECK(MemoryPool::total_memory == bytes, "bytes", "%lld bytes are accounted for after the last pooled array is gone", (long long)(MemoryPool::total_memory - bytes));
}
} // namespace

SCENARIO(M01, one_thread, 3) { m01(1, false); }
SCENARIO(M01, one_thread_refused, 3) { m01(1, true); }
SCENARIO(M01, threads, 3) { m01(2 + choose(ST_CFG, 2), false); }
SCENARIO(M01, threads_refused, 3) { m01(2 + choose(ST_CFG, 2), true); }

SCENARIO(M02, strings, 3) { m02<StrM>(); }
SCENARIO(M02, char_strings, 1) { m02<CharM>(); }
SCENARIO(M02, vectors, 2) { m02<SeqM<Vector<int>, int, false>>(); }
SCENARIO(M02, vectors_of_objects, 2) { m02<SeqM<Vector<Item>, Item, false>>(); }
SCENARIO(M02, pooled_arrays, 2) { m02_pool<SeqM<PoolVector<int>, int, true>>(); }
SCENARIO(M02, pooled_arrays_of_objects, 2) { m02_pool<SeqM<PoolVector<Item>, Item, true>>(); }
