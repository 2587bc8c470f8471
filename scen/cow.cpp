// C01: copies of strings and vectors are independent values on every thread.
#include "common.h"
using namespace sim;

namespace {
static int op(uint32_t n) {
	uint32_t k = wchoose(n);
	ev("change %u", k);
	return k;
}
// An element whose construction and destruction are visible to the simulated heap: forgetting one leaks, doing it twice
// is a double free, reading after it is a use after free.
struct Counted {
	int *p;
	Counted(int v = 7) {
		p = (int *)malloc(sizeof(int));
		*p = v;
	}
	Counted(const Counted &o) {
		p = (int *)malloc(sizeof(int));
		*p = *o.p;
	}
	void operator=(const Counted &o) { *p = *o.p; }
	~Counted() { free(p); }
	bool operator==(const Counted &o) const { return *p == *o.p; }
	bool operator<(const Counted &o) const { return *p < *o.p; }
};

struct StrAd {
	typedef String V;
	typedef std::u32string M;
	static const char *name() { return "String"; }
	static M word(uint32_t n) {
		M s;
		uint32_t k = wchoose(n + 1);
		static const char32_t al[] = U"abcABC019 ./\u00e9\u4e16";
		for (uint32_t i = 0; i < k; i++) s.push_back(al[wchoose(14)]);
		return s;
	}
	static void make(V &v, M &m) {
		m = word(10);
		v = String(m.c_str());
	}
	static void clear(V &v, M &m) {
		if (wflip(1, 2)) {
			v.clear();
		} else {
			v = String();
		}
		m.clear();
	}
	static void mutate(V &v, M &m) {
		switch (op(12)) {
			case 0:
				if (m.size()) {
					uint32_t i = wchoose(m.size());
					v.set(i, U'Z');
					m[i] = U'Z';
				}
				break;
			case 1:
				v += (CharType)U'q';
				m += U'q';
				break;
			case 2: {
				M w = word(6);
				v += String(w.c_str());
				m += w;
			} break;
			case 3: {
				uint32_t at = wchoose(m.size() + 1);
				M w = word(4);
				v = v.insert(at, String(w.c_str()));
				m.insert(at, w);
			} break;
			case 4:
				if (m.size()) {
					uint32_t at = wchoose(m.size());
					uint32_t n = 1 + wchoose(m.size() - at);
					v.erase(at, n);
					m.erase(at, n);
				}
				break;
			case 5:
				if (m.size()) {
					uint32_t n = wchoose(m.size());
					v.resize(n + 1);
					m.resize(n);
				}
				break;
			case 6:
				v = "plain";
				m = U"plain";
				break;
			case 7:
				if (m.size()) {
					uint32_t i = wchoose(m.size());
					v.ptrw()[i] = U'#';
					m[i] = U'#';
				}
				break;
			case 8:
				if (m.size()) {
					uint32_t i = wchoose(m.size());
					v[i] = U'@';
					m[i] = U'@';
				}
				break;
			case 9: {
				uint32_t n = wchoose(m.size() + 1);
				v = v.left(n);
				m.resize(n);
			} break;
			case 10:
				v += v;
				m += m;
				if (m.size() > 60) {
					v = v.left(20);
					m.resize(20);
				}
				break;
			case 11: {
				v = v.replace("a", "bb");
				M r;
				for (char32_t c : m) {
					if (c == U'a') {
						r += U"bb";
					} else {
						r += c;
					}
				}
				m = r;
			} break;
		}
	}
	static void check(const V &v, const M &m, const char *who) {
		SIM_CHECK(v.length() == (int)m.size(), "contents", "%s: a String holds %d characters, its model %zu", who, v.length(), m.size());
		const CharType *p = v.ptr();
		for (size_t i = 0; i < m.size(); i++) {
			SIM_CHECK(p[i] == m[i], "contents", "%s: character %zu of a String is U+%x, expected U+%x", who, i, (unsigned)p[i], (unsigned)m[i]);
		}
		SIM_CHECK(v.size() == 0 || p[m.size()] == 0, "terminator", "%s: a String lost its terminator", who);
	}
};

template <class T, class MT>
struct Conv {
	static T mk(MT m) { return T(m); }
	static bool same(const T &a, MT b) { return a == T(b); }
};
template <>
struct Conv<Counted, int> {
	static Counted mk(int m) { return Counted(m); }
	static bool same(const Counted &a, int b) { return *a.p == b; }
};
template <>
struct Conv<String, int> {
	static String mk(int m) {
		String s = "item";
		for (int i = 0; i < (m & 7); i++) s += (CharType)('a' + m);
		return s;
	}
	static bool same(const String &a, int b) {
		const CharType *p = a.ptr();
		if (a.length() != 4 + (b & 7)) {
			return false;
		}
		for (int i = 4; i < a.length(); i++) {
			if (p[i] != (CharType)('a' + b)) {
				return false;
			}
		}
		return true;
	}
};

template <class T>
struct VecAd {
	typedef Vector<T> V;
	typedef std::vector<int> M;
	typedef Conv<T, int> C;
	static const int dflt;
	static const char *name() { return "Vector"; }
	static void make(V &v, M &m) {
		uint32_t n = wchoose(9);
		for (uint32_t i = 0; i < n; i++) {
			int x = wchoose(16);
			v.push_back(C::mk(x));
			m.push_back(x);
		}
	}
	static void clear(V &v, M &m) {
		if (wflip(1, 2)) {
			v.clear();
		} else {
			v = V();
		}
		m.clear();
	}
	static void mutate(V &v, M &m) {
		int x = wchoose(16);
		switch (op(16)) {
			case 11: // an element of the same vector is the argument
				if (m.size()) {
					uint32_t i = wchoose(m.size()), j = wchoose(m.size());
					const V &c = v;
					switch (wchoose(4)) {
						case 0:
							v.set(i, c[j]);
							m[i] = m[j];
							break;
						case 1:
							v.push_back(c[j]);
							m.push_back(int(m[j]));
							break;
						case 2:
							v.insert(i, c[j]);
							m.insert(m.begin() + i, int(m[j]));
							break;
						case 3: {
							v.fill(c[j]);
							int y = m[j];
							for (int &e : m) e = y;
						} break;
					}
				}
				break;
			case 12: // the first of the elements equal to one of them
				if (m.size()) {
					uint32_t j = wchoose(m.size());
					const V &c = v;
					int y = m[j];
					uint32_t k = 0;
					while (!C::same(C::mk(m[k]), y)) k++;
					SIM_CHECK(v.find(c[j]) == (int)k, "search", "finding element %u of a Vector gives another place than %u", j, k);
					if (wflip(1, 2)) {
						v.erase(c[j]);
						m.erase(m.begin() + k);
					}
				}
				break;
			case 0:
				if (m.size()) {
					uint32_t i = wchoose(m.size());
					v.set(i, C::mk(x));
					m[i] = x;
				}
				break;
			case 1:
				v.push_back(C::mk(x));
				m.push_back(x);
				break;
			case 2:
				if (m.size()) {
					uint32_t i = wchoose(m.size());
					v.remove(i);
					m.erase(m.begin() + i);
				}
				break;
			case 3: {
				uint32_t i = wchoose(m.size() + 1);
				v.insert(i, C::mk(x));
				m.insert(m.begin() + i, x);
			} break;
			case 4: {
				uint32_t n = wchoose(m.size() + 1);
				v.resize(n);
				m.resize(n);
			} break;
			case 5: {
				uint32_t n = m.size(), k = n + 1 + wchoose(9);
				v.resize(k);
				for (uint32_t i = n; i < k; i++) v.write[i] = C::mk(x);
				m.resize(k, x);
			} break;
			case 6:
				if (m.size()) {
					uint32_t i = wchoose(m.size());
					v.ptrw()[i] = C::mk(x);
					m[i] = x;
				}
				break;
			case 7: {
				V o = v;
				M om = m;
				if (m.size() < 24) {
					v.append_array(o);
					m.insert(m.end(), om.begin(), om.end());
				}
			} break;
			case 8:
				v.invert();
				for (size_t i = 0, j = m.size(); i + 1 < j; i++) {
					j--;
					int t = m[i];
					m[i] = m[j];
					m[j] = t;
				}
				break;
			case 9:
				v.fill(C::mk(x));
				for (int &e : m) e = x;
				break;
			case 10: {
				if (wflip(1, 2)) {
					uint32_t a = wchoose(m.size() + 1), b = a + wchoose(m.size() - a + 1);
					v = v.slice(a, b);
					m = M(m.begin() + a, m.begin() + b);
					break;
				}
				int n = m.size(), a = (int)wchoose(2 * n + 5) - n - 2, b = (int)wchoose(2 * n + 5) - n - 2; // from the end, outside, empty
				auto at = [n](int x) { return x < 0 ? MAX(x + n, 0) : MIN(x, n); };
				bool all = wchoose(4) == 0; // to the end
				V r = all ? v.slice(a) : v.slice(a, b);
				int from = at(a), to = all ? n : at(b);
				M want;
				if (from < to) want = M(m.begin() + from, m.begin() + to);
				check(r, want, "a slice");
			} break;
			case 13: { // outside
				uint32_t k = m.size() + 1 + wchoose(3);
				Error e = v.insert(wchoose(2) ? (int)k : -1, C::mk(x));
				SIM_CHECK(e != OK, "outside", "inserting outside a Vector reports success");
				v.remove(wchoose(2) ? (int)k - 1 : -1);
				SIM_CHECK(v.find(C::mk(x), k - 1) == -1, "search", "an element is found behind the end of a Vector");
			} break;
			case 14: {
				v.ordered_insert(C::mk(x));
				size_t i = 0;
				while (i < m.size() && !(C::mk(x) < C::mk(m[i]))) i++;
				m.insert(m.begin() + i, x);
			} break;
			case 15:
				v.sort();
				std::sort(m.begin(), m.end(), [](int a, int b) { return C::mk(a) < C::mk(b); });
				break;
		}
	}
	static void check(const V &v, const M &m, const char *who) {
		SIM_CHECK(v.size() == (int)m.size(), "contents", "%s: a Vector holds %d elements, its model %zu", who, v.size(), m.size());
		for (size_t i = 0; i < m.size(); i++) {
			SIM_CHECK(C::same(v.ptr()[i], m[i]), "contents", "%s: element %zu of a Vector differs from its model", who, i);
		}
	}
};

struct CharAd {
	typedef CharString V;
	typedef std::string M;
	static void make(V &v, M &m) {
		m = scn::text(9);
		v = CharString(m.c_str());
	}
	static void clear(V &v, M &m) {
		v = CharString();
		m.clear();
	}
	static void mutate(V &v, M &m) {
		switch (op(4)) {
			case 0:
				if (m.size()) {
					uint32_t i = wchoose(m.size());
					v.set(i, 'Z');
					m[i] = 'Z';
				}
				break;
			case 1:
				v += 'q';
				m += 'q';
				break;
			case 2:
				if (m.size()) {
					uint32_t n = wchoose(m.size());
					v.resize(n + 1);
					m.resize(n);
				}
				break;
			case 3:
				v = "word";
				m = "word";
				break;
		}
	}
	static void check(const V &v, const M &m, const char *who) {
		SIM_CHECK(v.length() == (int)m.size(), "contents", "%s: a CharString holds %d characters, its model %zu", who, v.length(), m.size());
		SIM_CHECK(memcmp(v.get_data(), m.c_str(), m.size() + 1) == 0, "contents", "%s: a CharString differs from its model", who);
	}
};

template <class A>
struct Cell {
	typename A::V v;
	typename A::M m;
};

template <class A>
static void family() {
	uint64_t mark = heap_mark();
	{
		const int K = 2, S = 3;
		Cell<A> orig[K];
		for (int i = 0; i < K; i++) A::make(orig[i].v, orig[i].m);
		Cell<A> box;
		A::make(box.v, box.m);
		Mutex box_lock;
		int T = 2 + choose(ST_CFG, 2);
		int steps = 3 + choose(ST_CFG, 10);
		struct Slots {
			Cell<A> c[S];
		};
		Slots *sl = new Slots[T];
		for (int t = 0; t < T; t++) {
			for (int i = 0; i < S; i++) sl[t].c[i] = orig[choose(ST_CFG, K)];
		}
		std::vector<int> tids;
		for (int t = 0; t < T; t++) {
			tids.push_back(spawn([&, t]() {
				Slots &me = sl[t];
				for (int s = 0; s < steps; s++) {
					int i = wchoose(S);
					switch (weighted(ST_W0 + self(), { 10, 3, 3, 2, 3, 2, 1 })) {
						case 0:
							A::mutate(me.c[i].v, me.c[i].m);
							break;
						case 1: { // copy between own variables, self included
							int j = wchoose(S);
							me.c[i].v = me.c[j].v;
							if (i != j) {
								me.c[i].m = me.c[j].m;
							}
						} break;
						case 2: // copy of a value other threads copy at the same time
						{
							int j = wchoose(K);
							me.c[i].v = orig[j].v;
							me.c[i].m = orig[j].m;
						} break;
						case 3:
							A::clear(me.c[i].v, me.c[i].m);
							break;
						case 4: { // hand over through a locked box
							MutexLock l(box_lock);
							box.v = me.c[i].v;
							box.m = me.c[i].m;
						} break;
						case 5: {
							MutexLock l(box_lock);
							me.c[i].v = box.v;
							me.c[i].m = box.m;
						} break;
						case 6: { // temporary copy, changed and dropped
							Cell<A> tmp;
							tmp.v = me.c[i].v;
							tmp.m = me.c[i].m;
							A::mutate(tmp.v, tmp.m);
							A::check(tmp.v, tmp.m, "temporary");
						} break;
					}
					A::check(me.c[i].v, me.c[i].m, "after an operation");
				}
				for (int i = 0; i < S; i++) A::check(me.c[i].v, me.c[i].m, "at the end of a thread");
				if (wflip(1, 2)) {
					for (int i = 0; i < S; i++) A::clear(me.c[i].v, me.c[i].m);
				}
			}));
		}
		for (int t : tids) join(t);
		for (int i = 0; i < K; i++) A::check(orig[i].v, orig[i].m, "original");
		A::check(box.v, box.m, "box");
		delete[] sl;
	}
	uint64_t by = 0, n = heap_live_since(mark, &by);
	SIM_CHECK(n == 0, "leak", "%llu blocks (%llu bytes) are still allocated after the last copy is gone", (unsigned long long)n, (unsigned long long)by);
}

// A vector whose elements hold vectors of the same sort: assigning one the children of its own child releases the buffer the
// argument lives in.
struct Node {
	Counted c;
	Vector<Node> kids;
};
struct TreeAd {
	typedef Vector<Node> V;
	struct MN;
	typedef std::vector<MN> M;
	struct MN {
		int c;
		std::vector<MN> kids;
	};
	static size_t weight(const M &m) {
		size_t n = m.size();
		for (auto &e : m) n += weight(e.kids);
		return n;
	}
	static void make(V &v, M &m) {
		uint32_t n = wchoose(3);
		for (uint32_t i = 0; i < n; i++) {
			Node x;
			MN y;
			y.c = wchoose(16);
			x.c = Counted(y.c);
			if (wchoose(2)) make(x.kids, y.kids);
			v.push_back(x);
			m.push_back(y);
		}
	}
	static void clear(V &v, M &m) {
		if (wflip(1, 2)) {
			v.clear();
		} else {
			v = V();
		}
		m.clear();
	}
	static void mutate(V &v, M &m) {
		uint32_t k = op(8);
		uint32_t i = m.size() ? wchoose(m.size()) : 0;
		const V &c = v;
		if (m.empty() || k == 0) {
			if (weight(m) > 30) return;
			Node x;
			MN y;
			y.c = wchoose(16);
			x.c = Counted(y.c);
			x.kids = v;
			y.kids = m;
			if (wchoose(2)) {
				v = V();
				m.clear();
			}
			v.push_back(x);
			m.push_back(y);
			return;
		}
		switch (k) {
			case 1: // become the children of an own element
			case 2: {
				M t = m[i].kids;
				v = c[i].kids;
				m = t;
			} break;
			case 3: {
				M t = m[i].kids;
				V copy(c[i].kids);
				v = copy;
				m = t;
			} break;
			case 4: // change below a shared node
				mutate(v.write[i].kids, m[i].kids);
				break;
			case 5: // one level up: an element becomes its own child
				if (m[i].kids.size()) {
					uint32_t j = wchoose(m[i].kids.size());
					const V &ck = c[i].kids;
					MN t = m[i].kids[j];
					v.set(i, ck[j]);
					m[i] = t;
				}
				break;
			case 6:
				v.remove(i);
				m.erase(m.begin() + i);
				break;
			case 7: {
				Counted x(wchoose(16));
				v.write[i].c = x;
				m[i].c = *x.p;
			} break;
		}
	}
	static void check(const V &v, const M &m, const char *who) {
		SIM_CHECK(v.size() == (int)m.size(), "contents", "%s: a Vector of trees holds %d elements, its model %zu", who, v.size(), m.size());
		for (size_t i = 0; i < m.size(); i++) {
			SIM_CHECK(*v[i].c.p == m[i].c, "contents", "%s: element %zu of a tree holds %d, its model %d", who, i, *v[i].c.p, m[i].c);
			check(v[i].kids, m[i].kids, who);
		}
	}
};
} // namespace

SCENARIO(C01, vectors_of_vectors, 2) { family<TreeAd>(); }
SCENARIO(C01, strings, 3) { family<StrAd>(); }
SCENARIO(C01, vectors, 3) { family<VecAd<int>>(); }
SCENARIO(C01, vectors_of_strings, 2) { family<VecAd<String>>(); }
SCENARIO(C01, vectors_of_objects, 2) { family<VecAd<Counted>>(); }
SCENARIO(C01, char_strings, 1) { family<CharAd>(); }
