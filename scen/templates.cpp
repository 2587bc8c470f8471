// C12: collections hold what a model of them holds, in every history and on every thread.
#include "common.h"
#include <algorithm>
#include <set>
#include <cmath>
using namespace sim;

namespace {
static long live = 0; // elements constructed and not destroyed
static int domain = 8; // elements are 0 .. domain-1

// An element that owns memory: read after its destruction, or destroyed twice, it is found out.
struct Tok {
	int *p;
	void make(int v) {
		p = memnew(int(v));
		Quiet q;
		live++;
	}
	Tok() { make(-1); }
	Tok(int v) { make(v); }
	Tok(const Tok &o) { make(*o.p); }
	Tok &operator=(const Tok &o) {
		*p = *o.p;
		return *this;
	}
	~Tok() {
		memdelete(p);
		p = nullptr;
		Quiet q;
		live--;
	}
	int v() const { return *p; }
	bool operator==(const Tok &o) const { return *p == *o.p; }
	bool operator!=(const Tok &o) const { return *p != *o.p; }
	bool operator<(const Tok &o) const { return *p < *o.p; }
};
static int val(const Tok &t) { return t.v(); }
static int val(int t) { return t; }
struct Desc { // the other way round
	bool operator()(const Tok &a, const Tok &b) const { return b < a; }
};
// hash functions, from good ones to the worst
static int hash_kind = 0;
static uint32_t hash_of(int v) {
	switch (hash_kind) {
		case 0: return hash_murmur3_one_32(v);
		case 1: return (uint32_t)v; // 0 is special to open addressing
		case 2: return (uint32_t)(v % 3);
		case 3: return 7;
		case 4: return 0;
		case 5: return (uint32_t)v * 5; // the same place in a table of five
		case 6: return (uint32_t)v / 2; // neighbours share a place and crowd the next ones
		default: return (uint32_t)v / 3 + 40;
	}
}
struct Hs {
	static uint32_t hash(const Tok &t) { return hash_of(t.v()); }
	static uint32_t hash(int t) { return hash_of(t); }
};
static int some() { return (int)wchoose(domain); }
typedef std::vector<int> Ints;

#define EQ(cond, what) SIM_CHECK(cond, "contents", "%s: %s", C::name(), what)

// ---- linked list ----
struct CList {
	typedef CList C;
	static const char *name() { return "list"; }
	typedef List<Tok> L;
	typedef L::Element E;
	L l;
	Ints m;
	std::vector<E *> h; // the handle of each place
	CList() {}
	CList(const CList &o) :
			l(o.l), m(o.m) { handles(); }
	void assign(const CList &o) {
		l = o.l;
		m = o.m;
		handles();
	}
	void handles() {
		h.clear();
		for (E *e = l.front(); e && h.size() <= m.size(); e = e->next()) h.push_back(e);
	}
	void place(size_t i, int v, E *e) {
		m.insert(m.begin() + i, v);
		h.insert(h.begin() + i, e);
	}
	void drop(size_t i) {
		m.erase(m.begin() + i);
		h.erase(h.begin() + i);
	}
	void op() {
		size_t n = m.size(), i = n ? wchoose(n) : 0, j = n ? wchoose(n) : 0;
		int v = some();
		uint32_t o = wchoose(22);
		ev("list op %u on %zu (%zu, %zu)", o, n, i, j);
		switch (o) {
			case 0:
			case 1: place(n, v, l.push_back(Tok(v))); break;
			case 2: place(0, v, l.push_front(Tok(v))); break;
			case 3:
				if (n) {
					E *e = wchoose(2) ? l.push_back(h[i]->get()) : l.push_front(h[i]->get());
					e == l.back() ? place(n, m[i], e) : place(0, m[i], e);
				}
				break;
			case 4:
				if (n) {
					E *e = l.insert_after(h[i], Tok(v));
					place(i + 1, v, e);
				} else {
					place(0, v, l.insert_after(nullptr, Tok(v)));
				}
				break;
			case 5:
				if (n) {
					E *e = l.insert_before(h[i], Tok(v));
					place(i, v, e);
				} else {
					place(0, v, l.insert_before(nullptr, Tok(v)));
				}
				break;
			case 6:
				if (n) {
					wchoose(2) ? (void)l.erase(h[i]) : h[i]->erase();
					drop(i);
				}
				break;
			case 7: {
				auto it = std::find(m.begin(), m.end(), v);
				if (it == m.end()) break;
				EQ(l.erase(Tok(v)), "erasing a value that is there is refused");
				drop(it - m.begin());
			} break;
			case 8:
				l.pop_back();
				if (n) drop(n - 1);
				break;
			case 9:
				l.pop_front();
				if (n) drop(0);
				break;
			case 10:
				if (n) {
					l.swap(h[i], h[j]);
					std::swap(m[i], m[j]);
					std::swap(h[i], h[j]);
				}
				break;
			case 11:
			case 12:
				if (n) {
					E *e = h[i];
					int x = m[i];
					o == 11 ? l.move_to_back(e) : l.move_to_front(e);
					drop(i);
					place(o == 11 ? n - 1 : 0, x, e);
				}
				break;
			case 13:
				if (n && i != j) {
					E *e = h[i], *w = h[j];
					int x = m[i];
					l.move_before(e, w);
					drop(i);
					place(std::find(h.begin(), h.end(), w) - h.begin(), x, e);
				}
				break;
			case 14:
				if (n) { // before nothing: to the end
					E *e = h[i];
					int x = m[i];
					l.move_before(e, nullptr);
					drop(i);
					place(n - 1, x, e);
				}
				break;
			case 15:
				l.invert();
				std::reverse(m.begin(), m.end());
				break;
			case 16:
			case 17:
			case 18: {
				std::set<E *> before(h.begin(), h.end());
				if (o == 16) l.sort();
				if (o == 17) l.sort_custom_inplace<Comparator<Tok>>();
				if (o == 18) l.sort_custom<Desc>();
				o == 18 ? std::sort(m.begin(), m.end(), std::greater<int>()) : std::sort(m.begin(), m.end());
				handles();
				EQ(std::set<E *>(h.begin(), h.end()) == before, "sorting changed the elements themselves");
			} break;
			case 19:
				if (n) {
					h[i]->set(Tok(v));
					m[i] = v;
				}
				break;
			case 20:
				if (wchoose(4) == 0) {
					l.clear();
					m.clear();
					h.clear();
				}
				break;
			default: {
				if (!n) break;
				l[(int)i] = l[(int)j];
				m[i] = m[j];
			}
		}
	}
	void look() const {
		int v = some();
		const L &c = l;
		size_t i = 0;
		for (const E *e = c.front(); e; e = e->next(), i++) EQ(i < m.size() && e->get().v() == m[i], "another element while reading");
		EQ(i == m.size(), "elements are missing while reading");
		if (m.size()) {
			size_t k = wchoose(m.size());
			EQ(c[(int)k].v() == m[k], "an element by position is wrong");
		}
		auto it = std::find(m.begin(), m.end(), v);
		const E *f = const_cast<L &>(c).find(Tok(v));
		EQ(it == m.end() ? !f : f == h[it - m.begin()], "finding a value gives another element");
	}
	void check() {
		EQ(l.size() == (int)m.size() && l.empty() == m.empty(), "wrong size");
		size_t i = 0;
		for (E *e = l.front(); e; e = e->next(), i++) EQ(i < m.size() && e == h[i] && e->get().v() == m[i], "wrong elements from the front");
		EQ(i == m.size(), "elements are missing from the front");
		for (E *e = l.back(); e; e = e->prev(), i--) EQ(i > 0 && e == h[i - 1], "wrong elements from the back");
		EQ(i == 0, "elements are missing from the back");
	}
};
// ---- ordered map and set ----
template <class CC>
struct CMapT {
	typedef CMapT C;
	static const char *name() { return "ordered map"; }
	typedef RBMap<Tok, Tok, CC> M;
	typedef typename M::Element E;
	M t;
	struct Less {
		bool operator()(int a, int b) const { return CC()(Tok(a), Tok(b)); }
	};
	std::map<int, int, Less> m;
	std::map<int, E *> h;
	CMapT() {}
	CMapT(const CMapT &o) :
			t(o.t), m(o.m) { handles(); }
	void assign(const CMapT &o) {
		t = o.t;
		m = o.m;
		handles();
	}
	void handles() {
		h.clear();
		size_t i = 0;
		for (E *e = t.front(); e && i <= m.size(); e = e->next(), i++) h[e->key().v()] = e;
	}
	void op() {
		int k = some(), v = some();
		uint32_t o = wchoose(10);
		ev("map op %u key %d on %zu", o, k, m.size());
		switch (o) {
			case 0:
			case 1:
			case 2: {
				E *e = t.insert(Tok(k), Tok(v));
				EQ(e && (!h.count(k) || h[k] == e), "inserting gives no element, or another one than the key had");
				m[k] = v;
				h[k] = e;
			} break;
			case 3:
			case 4:
				EQ(t.erase(Tok(k)) == (m.count(k) > 0), "erasing reports something else than happened");
				m.erase(k);
				h.erase(k);
				break;
			case 5:
				if (h.count(k)) {
					t.erase(h[k]);
					m.erase(k);
					h.erase(k);
				}
				break;
			case 6:
				t[Tok(k)] = Tok(v);
				m[k] = v;
				h[k] = t.find(Tok(k));
				break;
			case 7:
				if (h.count(k) && m.size()) { // a value of its own under another key
					int q = some();
					E *e = t.insert(Tok(q), h[k]->value());
					m[q] = m[k];
					h[q] = e;
				}
				break;
			case 8:
				if (h.count(k)) { // by a reference to its own key
					t.erase(h[k]->key());
					m.erase(k);
					h.erase(k);
				}
				break;
			default:
				if (wchoose(6) == 0) {
					t.clear();
					m.clear();
					h.clear();
				}
		}
	}
	void look() const {
		int k = some();
		const M &c = t;
		const E *e = c.find(Tok(k));
		auto it = m.find(k);
		EQ(it == m.end() ? !e : e && e->value().v() == it->second && e->key().v() == k && c[Tok(k)].v() == it->second, "finding a key gives another answer");
		EQ(c.has(Tok(k)) == (it != m.end()), "asking for a key gives another answer");
		const E *n = c.find_closest(Tok(k)); // the last one that is not after the key
		auto up = m.upper_bound(k);
		if (up == m.begin()) {
			EQ(!n, "the closest key before all others is something");
		} else {
			--up;
			EQ(n && n->key().v() == up->first, "the closest key is another one");
		}
		size_t i = 0;
		it = m.begin();
		for (const E *x = c.front(); x; x = x->next(), ++it, i++) EQ(it != m.end() && x->key().v() == it->first && x->value().v() == it->second, "another element while reading");
		EQ(i == m.size(), "elements are missing while reading");
	}
	void check() {
		EQ(t.size() == (int)m.size() && t.empty() == m.empty(), "wrong size");
		auto it = m.begin();
		for (E *x = t.front(); x; x = x->next(), ++it) {
			EQ(it != m.end() && x->key().v() == it->first && x->value().v() == it->second, "wrong elements from the front");
			EQ(h[it->first] == x, "an element has moved");
		}
		EQ(it == m.end(), "elements are missing from the front");
		auto r = m.rbegin();
		for (E *x = t.back(); x; x = x->prev(), ++r) EQ(r != m.rend() && x->key().v() == r->first, "wrong elements from the back");
		EQ(r == m.rend(), "elements are missing from the back");
		EQ(t.calculate_depth() <= 2 * log2(m.size() + 1.0) + 1, "the tree is too deep");
	}
};
typedef CMapT<Comparator<Tok>> CMap;
typedef CMapT<Desc> CMapDesc;
struct CSet {
	typedef CSet C;
	static const char *name() { return "ordered set"; }
	typedef RBSet<Tok> M;
	typedef M::Element E;
	M t;
	std::set<int> m;
	std::map<int, E *> h;
	CSet() {}
	CSet(const CSet &o) :
			t(o.t), m(o.m) { handles(); }
	void assign(const CSet &o) {
		t = o.t;
		m = o.m;
		handles();
	}
	void handles() {
		h.clear();
		size_t i = 0;
		for (E *e = t.front(); e && i <= m.size(); e = e->next(), i++) h[e->get().v()] = e;
	}
	void op() {
		int k = some();
		uint32_t o = wchoose(8);
		ev("set op %u key %d on %zu", o, k, m.size());
		switch (o) {
			case 0:
			case 1:
			case 2: {
				E *e = t.insert(Tok(k));
				EQ(e && (!h.count(k) || h[k] == e), "inserting gives no element, or another one than there was");
				m.insert(k);
				h[k] = e;
			} break;
			case 3:
			case 4:
				EQ(t.erase(Tok(k)) == (m.count(k) > 0), "erasing reports something else than happened");
				m.erase(k);
				h.erase(k);
				break;
			case 5:
			case 6:
				if (h.count(k)) {
					o == 5 ? t.erase(h[k]) : (void)t.erase(h[k]->get());
					m.erase(k);
					h.erase(k);
				}
				break;
			default:
				if (wchoose(6) == 0) {
					t.clear();
					m.clear();
					h.clear();
				}
		}
	}
	void look() const {
		int k = some();
		const M &c = t;
		const E *e = c.find(Tok(k));
		EQ((e != nullptr) == (m.count(k) > 0) && c.has(Tok(k)) == (m.count(k) > 0) && (!e || e->get().v() == k), "finding a value gives another answer");
		const E *b = c.lower_bound(Tok(k));
		auto lb = m.lower_bound(k);
		EQ(lb == m.end() ? !b : b && b->get().v() == *lb, "the first value not below another is wrong");
		auto it = m.begin();
		for (const E *x = c.front(); x; x = x->next(), ++it) EQ(it != m.end() && x->get().v() == *it, "another element while reading");
		EQ(it == m.end(), "elements are missing while reading");
	}
	void check() {
		EQ(t.size() == (int)m.size() && t.empty() == m.empty(), "wrong size");
		auto it = m.begin();
		for (E *x = t.front(); x; x = x->next(), ++it) EQ(it != m.end() && x->get().v() == *it && h[*it] == x, "wrong elements from the front");
		EQ(it == m.end(), "elements are missing from the front");
		auto r = m.rbegin();
		for (E *x = t.back(); x; x = x->prev(), ++r) EQ(r != m.rend() && x->get().v() == *r, "wrong elements from the back");
		EQ(r == m.rend(), "elements are missing from the back");
		EQ(t.calculate_depth() <= 2 * log2(m.size() + 1.0) + 1, "the tree is too deep");
	}
};
// ---- sorted arrays ----
struct CVMap {
	typedef CVMap C;
	static const char *name() { return "sorted array map"; }
	VMap<Tok, Tok> t;
	std::map<int, int> m;
	void assign(const CVMap &o) {
		t = o.t;
		m = o.m;
	}
	void op() {
		int k = some(), v = some();
		uint32_t o = wchoose(7);
		ev("vmap op %u key %d on %zu", o, k, m.size());
		switch (o) {
			case 0:
			case 1: {
				int p = t.insert(Tok(k), Tok(v));
				m[k] = v;
				EQ(p >= 0 && p < t.size() && t.getk(p).v() == k, "inserting gives a position that holds something else");
			} break;
			case 2:
				t.erase(Tok(k));
				m.erase(k);
				break;
			case 3:
				t[Tok(k)] = Tok(v);
				m[k] = v;
				break;
			case 4:
				if (m.size()) { // from a value of its own
					int p = wchoose(m.size());
					const VMap<Tok, Tok> &c = t;
					const Tok &own = c.getv(p);
					int ov = own.v();
					t.insert(Tok(k), own);
					m[k] = ov;
				}
				break;
			case 5:
				if (m.size()) {
					int p = wchoose(m.size());
					t.getv(p) = Tok(v);
					m[t.getk(p).v()] = v;
				}
				break;
			default:
				if (m.size()) { // by a key of its own
					const VMap<Tok, Tok> &c = t;
					int p = wchoose(m.size());
					int ok = c.getk(p).v();
					t.erase(c.getk(p));
					m.erase(ok);
				}
		}
	}
	void look() const {
		int k = some();
		const VMap<Tok, Tok> &c = t;
		auto it = m.find(k);
		int p = c.find(Tok(k));
		EQ(c.has(Tok(k)) == (it != m.end()), "asking for a key gives another answer");
		auto lb = m.lower_bound(k);
		EQ(c.find_nearest(Tok(k)) == (m.empty() ? -1 : (int)std::distance(m.begin(), lb)), "the place where a key would be is wrong");
		EQ(it == m.end() ? p == -1 : p == (int)std::distance(m.begin(), it) && c[Tok(k)].v() == it->second && c.get_array()[p].value.v() == it->second, "finding a key gives another answer");
		int i = 0;
		for (auto &e : m) {
			EQ(i < c.size() && c.getk(i).v() == e.first && c.getv(i).v() == e.second, "another element while reading");
			i++;
		}
		EQ(i == c.size() && c.empty() == m.empty(), "wrong size");
	}
	void check() { look(); }
};
struct CVSet {
	typedef CVSet C;
	static const char *name() { return "sorted array set"; }
	VSet<Tok> t;
	std::set<int> m;
	void assign(const CVSet &o) {
		t = o.t;
		m = o.m;
	}
	void op() {
		int k = some();
		uint32_t o = wchoose(4);
		ev("vset op %u key %d on %zu", o, k, m.size());
		const VSet<Tok> &c = t;
		switch (o) {
			case 0:
			case 1:
				t.insert(Tok(k));
				m.insert(k);
				break;
			case 2:
				t.erase(Tok(k));
				m.erase(k);
				break;
			default:
				if (m.size()) {
					int p = wchoose(m.size()), ok = c[p].v();
					t.erase(c[p]);
					m.erase(ok);
				}
		}
	}
	void look() const {
		int k = some();
		const VSet<Tok> &c = t;
		auto it = m.find(k);
		EQ(c.has(Tok(k)) == (it != m.end()) && c.find(Tok(k)) == (it == m.end() ? -1 : (int)std::distance(m.begin(), it)), "finding a value gives another answer");
		int i = 0;
		for (int e : m) {
			EQ(i < c.size() && c[i].v() == e, "another element while reading");
			i++;
		}
		EQ(i == c.size() && c.empty() == m.empty(), "wrong size");
	}
	void check() { look(); }
};
// ---- hash maps ----
typedef std::vector<std::pair<int, int>> Pairs;
static Pairs::iterator at(Pairs &m, int k) {
	return std::find_if(m.begin(), m.end(), [&](const std::pair<int, int> &e) { return e.first == k; });
}
static Pairs::const_iterator at(const Pairs &m, int k) {
	return std::find_if(m.begin(), m.end(), [&](const std::pair<int, int> &e) { return e.first == k; });
}
struct CHash {
	typedef CHash C;
	static const char *name() { return "hash map"; }
	typedef HashMap<Tok, Tok, Hs> M;
	typedef M::Element E;
	M t;
	Pairs m; // in insertion order
	std::map<int, E *> h;
	CHash() :
			t(wchoose(2) ? M(wchoose(30)) : M()) {}
	CHash(const CHash &o) :
			t(o.t), m(o.m) { handles(); }
	void assign(const CHash &o) {
		t = o.t;
		m = o.m;
		if (&o != this) handles();
	}
	void handles() {
		h.clear();
		size_t i = 0;
		for (E *e = t.front(); e && i <= m.size(); e = e->next, i++) h[e->key().v()] = e;
	}
	void put(int k, int v, bool front, E *e) {
		auto it = at(m, k);
		EQ(e && e->key().v() == k && (it == m.end() || h[k] == e), "inserting gives no element, or another one than the key had");
		if (it != m.end()) {
			it->second = v;
		} else {
			m.insert(front ? m.begin() : m.end(), { k, v });
			h[k] = e;
		}
	}
	void op() {
		int k = some(), v = some();
		uint32_t o = wchoose(11);
		ev("hash op %u key %d on %zu", o, k, m.size());
		switch (o) {
			case 0:
			case 1:
			case 2: {
				bool front = wchoose(4) == 0;
				E *e = wchoose(2) ? t.insert(Tok(k), Tok(v), front) : t.set(Tok(k), Tok(v), front);
				put(k, v, front, e);
			} break;
			case 3:
			case 4:
			case 5: {
				auto it = at(m, k);
				bool there = it != m.end();
				bool own = there && wchoose(2);
				EQ((own ? t.erase(h[k]->key()) : t.erase(Tok(k))) == there, "erasing reports something else than happened");
				if (there) m.erase(it);
				h.erase(k);
			} break;
			case 6:
				t[Tok(k)] = Tok(v);
				put(k, v, false, t.find(Tok(k)));
				break;
			case 7:
				if (m.size()) {
					auto q = m[wchoose(m.size())];
					put(k, q.second, false, t.set(Tok(k), h[q.first]->value()));
				}
				break;
			case 8: t.reserve(wchoose(60)); break;
			case 9: {
				Tok *p = t.getptr(Tok(k));
				auto it = at(m, k);
				EQ((p != nullptr) == (it != m.end()), "asking for a value gives another answer");
				if (p) {
					*p = Tok(v);
					it->second = v;
				}
			} break;
			default:
				if (wchoose(5) == 0) {
					t.clear();
					m.clear();
					h.clear();
				}
		}
	}
	void look() const {
		int k = some();
		const M &c = t;
		auto it = at(m, k);
		const Tok *p = c.getptr(Tok(k));
		EQ(it == m.end() ? !p && !c.find(Tok(k)) && !c.has(Tok(k)) : p && p->v() == it->second && c.has(Tok(k)) && c.find(Tok(k))->key().v() == k && c[Tok(k)].v() == it->second && c.get(Tok(k)).v() == it->second, "finding a key gives another answer");
		size_t i = 0;
		uint32_t hash = hash_of(k);
		EQ(c.custom_getptr(Tok(k), hash ? hash : 1) == p, "finding a key with its hash gives another answer");
		for (const Tok *q = c.next(nullptr); q; q = c.next(q), i++) EQ(i < m.size() && q->v() == m[i].first, "another key while reading");
		EQ(i == m.size(), "keys are missing while reading");
	}
	void check() {
		EQ(t.size() == m.size() && t.empty() == m.empty(), "wrong size");
		size_t i = 0;
		for (E *e = t.front(); e; e = e->next, i++) EQ(i < m.size() && e->key().v() == m[i].first && e->value().v() == m[i].second && h[m[i].first] == e, "wrong elements from the front");
		EQ(i == m.size(), "elements are missing from the front");
		for (E *e = t.back(); e; e = e->prev, i--) EQ(i > 0 && e->key().v() == m[i - 1].first, "wrong elements from the back");
		EQ(i == 0, "elements are missing from the back");
		if (wchoose(4) == 0) {
			List<Tok> l;
			t.get_key_list(&l);
			EQ(l.size() == (int)m.size(), "the list of keys has another size");
			for (auto *e = l.front(); e; e = e->next(), i++) EQ(e->get().v() == m[i].first, "the list of keys is wrong");
		}
		for (auto &e : m) EQ(t.has(Tok(e.first)), "an element that is there is not found");
	}
};
struct COg {
	typedef COg C;
	static const char *name() { return "chained hash map"; }
	typedef OGHashMap<Tok, Tok, Hs, HashMapComparatorDefault<Tok>, 1, 2> M;
	typedef M::Element E;
	M t;
	std::map<int, int> m;
	std::map<int, E *> h;
	COg() {}
	COg(const COg &o) :
			t(o.t), m(o.m) { handles(); }
	void assign(const COg &o) {
		t = o.t;
		m = o.m;
		handles();
	}
	void handles() {
		h.clear();
		for (auto &e : m) h[e.first] = t.find(Tok(e.first));
	}
	void op() {
		int k = some(), v = some();
		uint32_t o = wchoose(9);
		ev("chained hash op %u key %d on %zu", o, k, m.size());
		switch (o) {
			case 0:
			case 1:
			case 2: {
				E *e = t.set(Tok(k), Tok(v));
				EQ(e && (!h.count(k) || h[k] == e), "inserting gives no element, or another one than the key had");
				m[k] = v;
				h[k] = e;
			} break;
			case 3:
			case 4:
			case 5: {
				bool own = h.count(k) && wchoose(2);
				EQ((own ? t.erase(h[k]->key()) : t.erase(Tok(k))) == (m.count(k) > 0), "erasing reports something else than happened");
				m.erase(k);
				h.erase(k);
			} break;
			case 6:
				t[Tok(k)] = Tok(v);
				m[k] = v;
				h[k] = t.find(Tok(k));
				break;
			case 7:
				if (h.count(k)) {
					int q = some();
					t.set(Tok(q), h[k]->value());
					m[q] = m[k];
					h[q] = t.find(Tok(q));
				}
				break;
			default:
				if (wchoose(5) == 0) {
					t.clear();
					m.clear();
					h.clear();
				}
		}
	}
	void look() const {
		int k = some();
		const M &c = t;
		auto it = m.find(k);
		const Tok *p = c.getptr(Tok(k));
		EQ(it == m.end() ? !p && !c.find(Tok(k)) && !c.has(Tok(k)) : p && p->v() == it->second && c.has(Tok(k)) && c[Tok(k)].v() == it->second, "finding a key gives another answer");
		EQ(c.custom_getptr(Tok(k), hash_of(k)) == p, "finding a key with its hash gives another answer");
		std::set<int> seen;
		for (const Tok *q = c.next(nullptr); q; q = c.next(q)) EQ(m.count(q->v()) && seen.insert(q->v()).second, "a key that is not there, or twice, while reading");
		EQ(seen.size() == m.size(), "keys are missing while reading");
	}
	void check() {
		EQ(t.size() == m.size() && t.empty() == m.empty(), "wrong size");
		look();
		for (auto &e : m) EQ(t.find(Tok(e.first)) == h[e.first] && h[e.first] && h[e.first]->value().v() == e.second, "an element is missing, wrong or has moved");
		if (wchoose(4) == 0) {
			List<Tok> l;
			t.get_key_list(&l);
			std::set<int> seen;
			for (auto *e = l.front(); e; e = e->next()) seen.insert(e->get().v());
			EQ(l.size() == (int)m.size() && seen.size() == m.size(), "the list of keys is wrong");
			std::vector<const M::Pair *> a(m.size() + 1, nullptr);
			t.get_key_value_ptr_array(a.data());
			EQ(!a[m.size()], "the array of pairs is too long");
			seen.clear();
			for (size_t i = 0; i < m.size(); i++) EQ(a[i] && m.count(a[i]->key.v()) && m[a[i]->key.v()] == a[i]->data.v() && seen.insert(a[i]->key.v()).second, "the array of pairs is wrong");
		}
	}
};
struct COrdered {
	typedef COrdered C;
	static const char *name() { return "ordered hash map"; }
	typedef OrderedHashMap<Tok, Tok, Hs, HashMapComparatorDefault<Tok>, 1, 2> M;
	M t;
	Pairs m;
	COrdered() {}
	COrdered(const COrdered &o) :
			t(o.t), m(o.m) {}
	void assign(const COrdered &o) {
		t = o.t;
		m = o.m;
	}
	void op() {
		int k = some(), v = some();
		uint32_t o = wchoose(9);
		ev("ordered hash op %u key %d on %zu", o, k, m.size());
		auto it = at(m, k);
		bool there = it != m.end();
		switch (o) {
			case 0:
			case 1:
			case 2: {
				M::Element e = t.insert(Tok(k), Tok(v));
				EQ(e && e.key().v() == k && e.value().v() == v, "inserting gives another element");
				if (there) {
					it->second = v;
				} else {
					m.push_back({ k, v });
				}
			} break;
			case 3:
			case 4: {
				EQ(t.erase(Tok(k)) == there, "erasing reports something else than happened");
				if (there) m.erase(it);
			} break;
			case 5: {
				alignas(M::Element) char room[sizeof(M::Element)];
				memset(room, 0x5a, sizeof(room)); // what the stack happens to hold
				M::Element &e = *new ((void *)room) M::Element(t.find(Tok(k)));
				EQ((bool)e == there, "finding a key gives another answer");
				EQ(there || (!e.next() && !e.prev()), "something comes after or before an element that is not there");
				if (there) {
					t.erase(e);
					EQ(!e, "an erased element still is one");
					m.erase(it);
				}
			} break;
			case 6:
				t[Tok(k)] = Tok(v);
				if (there) {
					it->second = v;
				} else {
					m.push_back({ k, v });
				}
				break;
			case 7: { // erasing while walking
				int mod = 1 + wchoose(3);
				for (M::Element e = t.front(); e;) {
					M::Element n = e.next();
					if (e.key().v() % mod == 0) {
						wchoose(2) ? t.erase(e) : (void)t.erase(e.key());
					}
					e = n;
				}
				m.erase(std::remove_if(m.begin(), m.end(), [&](const std::pair<int, int> &e) { return e.first % mod == 0; }), m.end());
			} break;
			default:
				if (wchoose(5) == 0) {
					t.clear();
					m.clear();
				}
		}
	}
	void look() const {
		int k = some();
		const M &c = t;
		auto it = at(m, k);
		M::ConstElement f = c.find(Tok(k));
		EQ(it == m.end() ? !f && !c.has(Tok(k)) : f && f.key().v() == k && f.value().v() == it->second && c.has(Tok(k)) && c[Tok(k)].v() == it->second, "finding a key gives another answer");
		size_t i = 0;
		for (M::ConstElement e = c.front(); e; e = e.next(), i++) EQ(i < m.size() && e.key().v() == m[i].first && e.value().v() == m[i].second, "another element while reading");
		EQ(i == m.size(), "elements are missing while reading");
		for (M::ConstElement e = c.back(); e; e = e.prev(), i--) EQ(i > 0 && e.key().v() == m[i - 1].first, "another element while reading backwards");
		EQ(i == 0, "elements are missing while reading backwards");
	}
	void check() {
		EQ(t.size() == (int)m.size() && t.empty() == m.empty(), "wrong size");
		look();
		size_t i = 0;
		for (M::Element e = t.front(); e; e = e.next(), i++) EQ(i < m.size() && e.key().v() == m[i].first && e.value().v() == m[i].second, "wrong elements from the front");
		for (M::Element e = t.back(); e; e = e.prev(), i--) EQ(i > 0 && e.key().v() == m[i - 1].first, "wrong elements from the back");
		for (auto &e : m) EQ(t.has(Tok(e.first)), "an element that is there is not found");
	}
};
struct CHashSet {
	typedef CHashSet C;
	static const char *name() { return "hash set"; }
	typedef HashSet<Tok, Hs> M;
	M t;
	std::set<int> m;
	CHashSet() :
			t(wchoose(2) ? M(wchoose(30)) : M()) {}
	CHashSet(const CHashSet &o) :
			t(o.t), m(o.m) {}
	void assign(const CHashSet &o) {
		t = o.t;
		m = o.m;
	}
	void op() {
		int k = some();
		uint32_t o = wchoose(10);
		ev("hash set op %u key %d on %zu", o, k, m.size());
		switch (o) {
			case 0:
			case 1:
			case 2:
			case 3: {
				M::Iterator i = t.insert(Tok(k));
				m.insert(k);
				EQ(i.valid() && (*i).v() == k, "inserting gives another element");
			} break;
			case 4:
			case 5:
				EQ(t.erase(Tok(k)) == (m.count(k) > 0), "erasing reports something else than happened");
				m.erase(k);
				break;
			case 6: {
				M::Iterator i = t.find(Tok(k));
				EQ((bool)i == (m.count(k) > 0), "finding a value gives another answer");
				t.remove(i);
				m.erase(k);
			} break;
			case 7: t.reserve(wchoose(60)); break;
			case 8:
				if (m.size()) t.insert(*t.begin()); // one it has
				break;
			default:
				if (wchoose(5) == 0) {
					wchoose(2) ? t.clear() : t.reset();
					m.clear();
				}
		}
	}
	void look() const {
		int k = some();
		const M &c = t;
		EQ(c.has(Tok(k)) == (m.count(k) > 0) && (bool)c.find(Tok(k)) == (m.count(k) > 0), "finding a value gives another answer");
		std::set<int> seen;
		for (M::Iterator i = c.begin(); i != c.end(); ++i) EQ(m.count((*i).v()) && seen.insert((*i).v()).second, "a value that is not there, or twice, while reading");
		EQ(seen.size() == m.size(), "values are missing while reading");
	}
	void check() {
		EQ(t.size() == m.size() && t.is_empty() == m.empty(), "wrong size");
		look();
		size_t n = 0;
		for (M::Iterator i = t.last(); i; --i) n++;
		EQ(n == m.size(), "values are missing from the back");
		for (int e : m) EQ(t.has(Tok(e)) && (*t.find(Tok(e))).v() == e, "a value that is there is not found");
	}
};
// ---- growing arrays ----
template <class T>
static void tighter(LocalVector<T> &t, uint32_t n) { t.reserve(n, true); }
template <class T>
static void tighter(TightLocalVector<T> &t, uint32_t n) { t.reserve(n); }
template <class V, class T>
struct CLocal {
	typedef CLocal C;
	static const char *name() { return "local vector"; }
	V t;
	Ints m;
	CLocal() {}
	CLocal(const CLocal &o) :
			t(o.t), m(o.m) {}
	void assign(const CLocal &o) {
		t = o.t;
		m = o.m;
	}
	void op() {
		size_t n = m.size(), i = n ? wchoose(n) : 0;
		int v = some();
		uint32_t o = wchoose(20);
		ev("local vector op %u at %zu of %zu", o, i, n);
		switch (o) {
			case 0:
			case 1:
				t.push_back(T(v));
				m.push_back(v);
				break;
			case 2:
				if (n) {
					t.push_back(t[i]);
					m.push_back(m[i]);
				}
				break;
			case 3:
				if (n) {
					t.remove(i);
					m.erase(m.begin() + i);
				}
				break;
			case 4:
				if (n) {
					t.remove_unordered(i);
					m[i] = m.back();
					m.pop_back();
				}
				break;
			case 5: {
				auto it = std::find(m.begin(), m.end(), v);
				if (it != m.end() && wchoose(2)) {
					t.erase(t[it - m.begin()]); // a reference to its own
				} else {
					t.erase(T(v));
				}
				if (it != m.end()) m.erase(it);
			} break;
			case 6: {
				size_t k = t.erase_multiple_unordered(T(v));
				EQ((long)k == std::count(m.begin(), m.end(), v), "erasing all of one value reports another number");
				m.erase(std::remove(m.begin(), m.end(), v), m.end());
				std::multiset<int> a(m.begin(), m.end()), b;
				for (size_t q = 0; q < t.size(); q++) b.insert(val(t[q]));
				EQ(a == b, "erasing all of one value left other elements");
				m.clear();
				for (size_t q = 0; q < t.size(); q++) m.push_back(val(t[q]));
			} break;
			case 7:
				t.invert();
				std::reverse(m.begin(), m.end());
				break;
			case 8:
				wchoose(2) ? t.reserve(wchoose(40)) : tighter(t, wchoose(40));
				break;
			case 9: {
				size_t k = wchoose(n + 6);
				t.resize(k);
				m.resize(k);
				for (size_t q = n; q < k; q++) {
					t[q] = T(v);
					m[q] = v;
				}
			} break;
			case 10:
				if (n) {
					wchoose(2) ? t.fill(t[i]) : t.fill(T(m[i]));
					std::fill(m.begin(), m.end(), (int)m[i]);
				}
				break;
			case 11:
			case 12: {
				size_t p = wchoose(n + 1);
				bool own = n && wchoose(2);
				if (own) {
					t.insert(p, t[i]);
					v = m[i];
				} else {
					t.insert(p, T(v));
				}
				m.insert(m.begin() + p, v);
			} break;
			case 13:
				t.sort();
				std::sort(m.begin(), m.end());
				break;
			case 14: {
				t.ordered_insert(T(v));
				size_t q = 0;
				while (q < n && !(v < m[q])) q++;
				m.insert(m.begin() + q, v);
			} break;
			case 15:
				if (wchoose(4) == 0) {
					wchoose(2) ? t.clear() : t.reset();
					m.clear();
				}
				break;
			case 16: { // through another kind of array
				Vector<T> x = t;
				EQ(x.size() == (int)n, "converting to a vector changes the size");
				for (size_t q = 0; q < n; q++) EQ(val(x[q]) == m[q], "converting to a vector changes an element");
				if (wchoose(2)) x.push_back(T(v)), m.push_back(v);
				wchoose(2) ? (void)(t = x) : (void)(t = V(x));
			} break;
			case 17: {
				PoolVector<T> x = t;
				EQ(x.size() == (int)n, "converting to a pooled array changes the size");
				for (size_t q = 0; q < n; q++) EQ(val(x[q]) == m[q], "converting to a pooled array changes an element");
				wchoose(2) ? (void)(t = x) : (void)(t = V(x));
			} break;
			default:
				if (n) {
					t[i] = T(v);
					m[i] = v;
				}
		}
	}
	void look() const {
		const V &c = t;
		int v = some();
		size_t from = m.size() ? wchoose(m.size()) : 0;
		auto it = std::find(m.begin() + from, m.end(), v);
		EQ(c.find(T(v), from) == (it == m.end() ? -1 : it - m.begin()), "finding a value gives another answer");
		EQ(c.size() == m.size() && c.empty() == m.empty() && c.get_capacity() >= c.size(), "wrong size");
		for (size_t i = 0; i < m.size(); i++) EQ(val(c[i]) == m[i] && val(c.ptr()[i]) == m[i], "another element while reading");
	}
	void check() { look(); }
};
typedef CLocal<LocalVector<Tok>, Tok> CLocalTok;
typedef CLocal<LocalVector<int>, int> CLocalInt;
typedef CLocal<TightLocalVector<Tok>, Tok> CTightTok;
typedef CLocal<TightLocalVector<int>, int> CTightInt;
// ---- ring buffer ----
struct CRing {
	typedef CRing C;
	static const char *name() { return "ring buffer"; }
	RingBuffer<Tok> t;
	Ints m; // what can be read, the oldest first
	int power = 3;
	CRing() :
			t(3) {}
	void assign(const CRing &o) {
		t = o.t;
		m = o.m;
		power = o.power;
	}
	int room() const { return (1 << power) - 1 - (int)m.size(); }
	void op() {
		int v = some(), k = wchoose(10);
		uint32_t o = wchoose(13);
		ev("ring op %u (%d) with %zu of %d", o, k, m.size(), 1 << power);
		std::vector<Tok> b(12);
		switch (o) {
			case 0:
			case 1:
				if (room() == 0) break; // refused, with an error
				EQ(t.write(Tok(v)) == OK, "writing is refused although there is room");
				m.push_back(v);
				break;
			case 2:
			case 3: {
				for (int i = 0; i < k; i++) b[i] = Tok((v + i) % domain);
				int n = t.write(b.data(), k);
				EQ(n == std::min(k, room()), "writing took another number of elements than fit");
				for (int i = 0; i < n; i++) m.push_back((v + i) % domain);
			} break;
			case 4:
			case 5:
				if (m.empty()) break; // refused, with an error
				EQ(t.read().v() == m[0], "reading gives another element than the oldest");
				m.erase(m.begin());
				break;
			case 6:
			case 7: {
				bool adv = wchoose(3);
				int n = t.read(b.data(), k, adv);
				EQ(n == std::min(k, (int)m.size()), "reading gave another number of elements than there are");
				for (int i = 0; i < n; i++) EQ(b[i].v() == m[i], "reading gives other elements than the oldest");
				if (adv) m.erase(m.begin(), m.begin() + n);
			} break;
			case 8: {
				int n = t.advance_read(k);
				EQ(n == std::min(k, (int)m.size()), "skipping another number of elements than there are");
				m.erase(m.begin(), m.begin() + n);
			} break;
			case 9: {
				int n = t.decrease_write(k);
				EQ(n == std::min(k, (int)m.size()), "taking back another number of elements than there are");
				m.resize(m.size() - n);
			} break;
			case 10:
				if (power < 5) t.resize(++power);
				break;
			case 11:
				if (wchoose(4) == 0) {
					t.clear();
					m.clear();
				}
				break;
			default: look();
		}
	}
	void look() const {
		const RingBuffer<Tok> &c = t;
		int off = wchoose(m.size() + 1), k = wchoose(m.size() + 3), left = (int)m.size() - off;
		std::vector<Tok> b(64);
		int n = c.copy(b.data(), off, k);
		EQ(n == std::min(k, left), "copying gave another number of elements than there are");
		for (int i = 0; i < n; i++) EQ(b[i].v() == m[off + i], "copying gives other elements");
		int v = some(), want = -1;
		for (int i = 0; i < std::min(k, left) && want < 0; i++) {
			if (m[off + i] == v) want = i;
		}
		EQ(c.find(Tok(v), off, k) == want, "finding a value gives another answer");
	}
	void check() {
		EQ(t.size() == 1 << power && t.data_left() == (int)m.size() && t.space_left() == room(), "wrong number of elements");
		std::vector<Tok> b(64);
		int n = t.read(b.data(), 64, false);
		EQ(n == (int)m.size(), "wrong number of elements in a peek");
		for (int i = 0; i < n; i++) EQ(b[i].v() == m[i], "wrong elements");
	}
};
// ---- text under construction ----
static const char *const bits_of_text[] = { "a", "bc", "", "12345678901234567890", "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef" };
struct CText {
	typedef CText C;
	static const char *name() { return "text buffer"; }
	StringBuffer<> t;
	StringBuffer<8> s;
	StringBuilder b;
	std::string m;
	void assign(const CText &o) {
		t = o.t;
		s = o.s;
		b = o.b;
		m = o.m;
	}
	void op() {
		uint32_t o = wchoose(8);
		const char *x = bits_of_text[wchoose(5)];
		ev("text op %u with %zu", o, m.size());
		if (m.size() > 400) o = 7;
		switch (o) {
			case 0:
			case 1:
				t.append(x);
				s += x;
				b.append(x);
				m += x;
				break;
			case 2:
			case 3: {
				String y(x);
				t += y;
				s.append(y);
				b += y;
				m += x;
			} break;
			case 4: {
				CharType c = 'A' + wchoose(20);
				t += c;
				s.append(c);
				b.append(String::chr(c));
				m += (char)c;
			} break;
			case 5: {
				String y(x);
				int clip = (int)wchoose(6) - 1;
				t.append(y.get_data(), clip);
				s.append(y.get_data(), clip);
				b.append(clip < 0 ? y : y.substr(0, clip));
				m += clip < 0 ? std::string(x) : std::string(x).substr(0, clip);
			} break;
			case 6: {
				int k = wchoose(130);
				t.reserve(k);
				s.reserve(k);
			} break;
			default:
				text();
				if (wchoose(3) == 0) {
					t = StringBuffer<>();
					s = StringBuffer<8>();
					b.clear();
					m.clear();
				}
		}
	}
	void text() {
		String x = t.as_string(), y = s.as_string(), z = b.as_string(), w(m.c_str());
		EQ(x == w && x.length() == (int)m.size(), "the text of a buffer is wrong");
		EQ(y == w && y.length() == (int)m.size(), "the text of a small buffer is wrong");
		EQ(z == w && z.length() == (int)m.size(), "the text of a builder is wrong");
	}
	void look() const { EQ(b.as_string() == String(m.c_str()), "the text of a builder is wrong"); }
	void check() {
		EQ(t.length() == (int)m.size() && s.length() == (int)m.size() && b.length() == m.size(), "wrong length");
		if (wchoose(6) == 0) text();
	}
};

// ---- histories ----
static uint64_t in_use() { return heap_live_since(0); }
static void setup() {
	live = 0;
	static const int sizes[] = { 8, 3, 20, 60 };
	domain = sizes[choose(ST_CFG, 4)];
	hash_kind = choose(ST_CFG, 8);
}
template <class X>
static void history_of(const char *what) {
	uint64_t before = in_use();
	{
		X *o[3];
		for (int i = 0; i < 3; i++) o[i] = new X();
		int steps = 5 + choose(ST_CFG, 60);
		uint64_t e0 = lib_errors();
		for (int s = 0; s < steps; s++) {
			uint32_t i = wchoose(3), j = wchoose(3);
			switch (wchoose(14)) {
				case 11:
					ev("assign %u = %u", i, j);
					o[i]->assign(*o[j]);
					break;
				case 12: {
					ev("copy %u from %u", i, j);
					X *c = new X(*o[j]);
					delete o[i];
					o[i] = c;
				} break;
				case 13: o[i]->look(); break;
				default: o[i]->op();
			}
			for (auto x : o) x->check();
		}
		SIM_CHECK(lib_errors() == e0, "internal", "%s: an internal error: %s", what, lib_last_error());
		for (auto x : o) delete x;
	}
	SIM_CHECK(live == 0, "lifetimes", "%s: %ld more elements were constructed than destroyed", what, live);
	uint64_t after = in_use();
	SIM_CHECK(after == before, "leak", "%s: %llu blocks in use before, %llu when all was destroyed", what, (unsigned long long)before, (unsigned long long)after);
}
// Every thread has collections of its own and reads one that nobody changes.
template <class X>
static void shared_of(const char *what) {
	uint64_t before = in_use();
	{
		X *base = new X();
		int prep = 2 + choose(ST_CFG, 20), steps = 2 + choose(ST_CFG, 8), n = 2 + choose(ST_CFG, 2);
		for (int i = 0; i < prep; i++) base->op();
		base->check();
		std::vector<int> ts;
		for (int t = 0; t < n; t++) {
			ts.push_back(spawn([&] {
				X *mine = wchoose(2) ? new X(*base) : new X();
				for (int s = 0; s < steps; s++) {
					switch (wchoose(6)) {
						case 0: base->look(); break;
						case 1:
							mine->assign(*base);
							break;
						default: mine->op();
					}
					mine->check();
				}
				delete mine;
			}));
		}
		for (int t : ts) join(t);
		base->check();
		delete base;
	}
	SIM_CHECK(live == 0, "lifetimes", "%s: %ld more elements were constructed than destroyed", what, live);
	uint64_t after = in_use();
	SIM_CHECK(after == before, "leak", "%s: %llu blocks in use before, %llu when all was destroyed", what, (unsigned long long)before, (unsigned long long)after);
}
// a lookup in an ordered tree goes past at most 2 log2(n + 1) elements, however it grew and shrank
static std::vector<int> looked_at;
static int looked_for = -1;
struct Watched {
	bool operator()(const int &l, const int &r) const {
		if (looked_for >= 0) {
			Quiet q;
			int other = l == looked_for ? r : l;
			if (looked_at.empty() || looked_at.back() != other) looked_at.push_back(other);
		}
		return l < r;
	}
};
template <class Tree, class Ins>
static void balance(Ins ins) {
	Tree t;
	std::vector<int> in; // ascending
	auto check = [&] {
		Quiet q;
		SIM_CHECK((size_t)t.size() == in.size(), "contents", "tree of %zu: it says it has %d", in.size(), (int)t.size());
		double bound = 2 * std::log2((double)in.size() + 1) + 1e-9;
		for (int k : in) {
			looked_at.clear();
			looked_for = k;
			bool has = t.has(k);
			looked_for = -1;
			size_t n = looked_at.size();
			SIM_CHECK(has, "contents", "tree of %zu: %d is not found", in.size(), k);
			SIM_CHECK(n <= bound, "unbalanced", "finding one of %zu elements of a tree went past %zu of them", in.size(), n);
		}
	};
	int rounds = 1 + (int)wchoose(4);
	int next_up = 5000, next_down = 5000;
	for (int r = 0; r < rounds; r++) {
		int n = 1 + (int)wchoose(r ? 40 : 90);
		int how = (int)wchoose(4);
		for (int i = 0; i < n; i++) {
			int k = how == 0 ? next_up++ : how == 1 ? --next_down : how == 2 ? (i & 1 ? next_up++ : --next_down) : (int)wchoose(10000);
			auto at = std::lower_bound(in.begin(), in.end(), k);
			if (at == in.end() || *at != k) in.insert(at, k);
			ins(t, k);
		}
		check();
		if (in.empty()) continue;
		int keep = (int)wchoose(std::min<size_t>(in.size(), 12)) + (wflip(1, 3) ? (int)in.size() / 2 : 0);
		how = (int)wchoose(5);
		for (int step = 0; (int)in.size() > keep; step++) {
			size_t i = how == 0 ? 0 : how == 1 ? in.size() - 1 : how == 2 ? in.size() / 2 : how == 3 ? (step % 2 ? 0 : in.size() - 1) : wchoose(in.size());
			t.erase(in[i]);
			in.erase(in.begin() + i);
			if (in.size() < 24 || step % 8 == 0) check();
		}
	}
}
static void c12_balance() {
	set_step_limit(4000000, 400000000);
	if (wflip(1, 2))
		balance<RBMap<int, int, Watched>>([](RBMap<int, int, Watched> &t, int k) { t.insert(k, k); });
	else
		balance<RBSet<int, Watched>>([](RBSet<int, Watched> &t, int k) { t.insert(k); });
}
} // namespace

#define BOTH(X) \
	do { \
		setup(); \
		if (threads) { \
			shared_of<X>(X::name()); \
		} else { \
			history_of<X>(X::name()); \
		} \
	} while (0)
static void c12_ordered(bool threads) {
	switch (choose(ST_CFG, 5)) {
		case 0: BOTH(CMap); break;
		case 1: BOTH(CMapDesc); break;
		case 2: BOTH(CSet); break;
		case 3: BOTH(CVMap); break;
		default: BOTH(CVSet);
	}
}
static void c12_hashed(bool threads) {
	switch (choose(ST_CFG, 4)) {
		case 0: BOTH(CHash); break;
		case 1: BOTH(CHashSet); break;
		case 2: BOTH(COg); break;
		default: BOTH(COrdered);
	}
}
static void c12_sequences(bool threads) {
	switch (choose(ST_CFG, 7)) {
		case 0: BOTH(CList); break;
		case 1: BOTH(CLocalTok); break;
		case 2: BOTH(CLocalInt); break;
		case 3: BOTH(CTightTok); break;
		case 4: BOTH(CTightInt); break;
		case 5: BOTH(CRing); break;
		default: BOTH(CText);
	}
}
SCENARIO(C12, balance, 1) { c12_balance(); }
SCENARIO(C12, ordered, 2) { c12_ordered(false); }
SCENARIO(C12, hashed, 2) { c12_hashed(false); }
SCENARIO(C12, sequences, 2) { c12_sequences(false); }
SCENARIO(C12, ordered_threads, 1) { c12_ordered(true); }
SCENARIO(C12, hashed_threads, 1) { c12_hashed(true); }
SCENARIO(C12, sequences_threads, 1) { c12_sequences(true); }
