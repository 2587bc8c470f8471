// C13: a generic value holds what was put in it, of any type, whatever it held before.
#include "common.h"
#include <cmath>
#include <set>
using namespace sim;

namespace {
// ---- values of every type, by number -----------------------------------------------------------------
template <class A> static A gen(int k);
static const int64_t ints[] = { 0, 3, -7, INT64_MAX, INT64_MIN, 1LL << 40 };
static const double reals[] = { 0.0, 2.5, -1.75, 4.0, 1e300, 0.1 };
static const char *const names[] = { "alpha", "beta", "x", "gamma", "long name of an entry", "b" };
template <> bool gen<bool>(int k) { return k & 1; }
template <> int64_t gen<int64_t>(int k) { return ints[k % 6]; }
template <> double gen<double>(int k) { return reals[k % 6]; }
template <> StringName gen<StringName>(int k) { return StringName(names[k % 6]); }
template <> Rect2 gen<Rect2>(int k) { return Rect2(k, k + 1, k + 2, k * 3); }
template <> Rect2i gen<Rect2i>(int k) { return Rect2i(k, -k, k + 2, k * 3); }
template <> Vector2 gen<Vector2>(int k) { return Vector2(k - 2, k); }
template <> Vector2i gen<Vector2i>(int k) { return Vector2i(k - 1, 3 - k); }
template <> Vector3 gen<Vector3>(int k) { return Vector3(k, 4 - k, k % 3 - 1); }
template <> Vector3i gen<Vector3i>(int k) { return Vector3i(5 - k, k, 1 - k % 3); }
template <> Vector4 gen<Vector4>(int k) { return Vector4(k, k + 1, k + 2, k + 3); }
template <> Vector4i gen<Vector4i>(int k) { return Vector4i(k, -k, 7, k + 3); }
template <> Plane gen<Plane>(int k) { return Plane(k, 1, 2, k + 3); }
template <> Quaternion gen<Quaternion>(int k) { return Quaternion(k, 1, 2, k + 3); }
template <> AABB gen<AABB>(int k) { return AABB(Vector3(k, 1, 2), Vector3(3, k, 5)); }
template <> Basis gen<Basis>(int k) { return Basis(k, 1, 2, 3, k, 5, 6, 7, k); }
template <> Transform gen<Transform>(int k) { return Transform(gen<Basis>(k), Vector3(k, 8, 9)); }
template <> Transform2D gen<Transform2D>(int k) { return Transform2D(k, 1, 2, k, 4, 5); }
template <> Projection gen<Projection>(int k) { return Projection(gen<Vector4>(k), gen<Vector4>(k + 1), Vector4(1, 2, 3, k), Vector4(0, 0, 1, 0)); }
template <> Color gen<Color>(int k) { return Color(k / 8.0, 0.25, 0.5, k / 16.0); }
// elements of pooled arrays
template <> uint8_t gen<uint8_t>(int k) { return (uint8_t)(k * 51); }
template <> int gen<int>(int k) { return k * 1000003 - 7; }
template <> float gen<float>(int k) { return k * 0.375f - 1; }
template <> String gen<String>(int k) { return String(names[k % 6]); }

template <class A> static bool same(const A &a, const A &b) { return memcmp(&a, &b, sizeof a) == 0; }
template <> bool same(const String &a, const String &b) { return a == b; }
template <> bool same(const StringName &a, const StringName &b) { return a == b; }

struct Box;
struct Val {
	int t = 0; // Variant::Type
	int k = 0; // which value of the type; -1 the default one
	std::vector<int> e; // elements of a pooled array, characters of a string
	Box *c = nullptr; // container
	int o = -1; // object
};
struct Box {
	bool dict = false;
	int owner = 0;
	std::vector<Val> a, keys;
};
static std::vector<Box *> boxes;
static Box *new_box(bool dict, int owner) {
	Quiet q;
	Box *b = new Box();
	b->dict = dict;
	b->owner = owner;
	boxes.push_back(b);
	return b;
}
struct ORec {
	Object *p = nullptr;
	bool counted = false;
	int destroyed = 0;
};
static std::vector<ORec> objs;
static void gone(int n, Object *p) {
	Quiet q;
	if (n == -2) return;
	SIM_CHECK(n >= 0 && n < (int)objs.size() && objs[n].p == p, "corrupt", "an object is corrupt at its destruction");
	objs[n].destroyed++;
	SIM_CHECK(objs[n].destroyed == 1, "destroyed-twice", "an object in a value was destroyed twice");
}
class CountedThing : public Reference {
	SFW_OBJECT(CountedThing, Reference);

public:
	int n = -1;
	~CountedThing() { gone(n, this); }
};
class PlainThing : public Object {
	SFW_OBJECT(PlainThing, Object);

public:
	int n = -1;
	~PlainThing() { gone(n, this); }
};

struct Kind {
	Variant::Type t;
	Variant (*make)(int);
	bool (*is)(const Variant &, int);
};
template <class A> static Variant mk(int k) { return k < 0 ? Variant(A()) : Variant(gen<A>(k)); }
template <class A> static bool is(const Variant &v, int k) {
	A x = v.operator A();
	return k < 0 ? same(x, A()) : same(x, gen<A>(k));
}
#define K(t, A) { Variant::t, mk<A>, is<A> }
static const Kind kinds[] = {
	K(BOOL, bool), K(INT, int64_t), K(REAL, double), K(RECT2, Rect2), K(RECT2I, Rect2i), K(VECTOR2, Vector2), K(VECTOR2I, Vector2i),
	K(VECTOR3, Vector3), K(VECTOR3I, Vector3i), K(VECTOR4, Vector4), K(VECTOR4I, Vector4i), K(PLANE, Plane), K(QUATERNION, Quaternion), K(AABB, ::AABB),
	K(BASIS, Basis), K(TRANSFORM, Transform), K(TRANSFORM2D, Transform2D), K(PROJECTION, Projection), K(COLOR, Color), K(STRING_NAME, StringName)
};
static const int NK = sizeof kinds / sizeof kinds[0];
static const Kind *kind(int t) {
	for (auto &k : kinds) {
		if (k.t == t) return &k;
	}
	return nullptr;
}
struct Pooled {
	Variant::Type t;
	Variant (*make)(const std::vector<int> &, int how);
	void (*check)(const Variant &, const std::vector<int> &);
	Variant (*elem)(int);
	bool (*elem_is)(const Variant &, int);
};
template <class A> struct As { typedef A T; };
template <> struct As<uint8_t> { typedef int64_t T; };
template <> struct As<int> { typedef int64_t T; };
template <> struct As<float> { typedef double T; };
template <class A> static Variant pmake(const std::vector<int> &e, int how) {
	if (how == 1) {
		Vector<A> x;
		for (int k : e) x.push_back(gen<A>(k));
		return Variant(x);
	}
	PoolVector<A> x;
	for (int k : e) x.push_back(gen<A>(k));
	if (how == 2) { // by way of a list of generic values
		Variant y = Array(Variant(x));
		SIM_CHECK(y.get_type() == Variant::ARRAY, "convert", "a pooled array made a list is of type %d", (int)y.get_type());
		return Variant(y.operator PoolVector<A>());
	}
	return Variant(x);
}
template <class A> static void pcheck(const Variant &v, const std::vector<int> &e) {
	PoolVector<A> x = v.operator PoolVector<A>();
	SIM_CHECK(x.size() == (int)e.size(), "contents", "a pooled array in a value has %d elements, expected %zu", x.size(), e.size());
	for (size_t i = 0; i < e.size(); i++) SIM_CHECK(same(x.get(i), gen<A>(e[i])), "contents", "element %zu of a pooled array in a value is another", i);
}
template <class A> static void to_others(const Variant &v, const std::vector<int> &e) {
	Vector<A> x = v.operator Vector<A>();
	SIM_CHECK(x.size() == (int)e.size(), "convert", "a pooled array of %zu elements makes a vector of %d", e.size(), x.size());
	for (size_t i = 0; i < e.size(); i++) SIM_CHECK(same(x[i], gen<A>(e[i])), "convert", "element %zu of a pooled array made a vector is another", i);
}
template <class A> static Variant emk(int k) { return Variant(gen<A>(k)); }
template <class A> static bool eis(const Variant &v, int k) { return v.operator typename As<A>::T() == (typename As<A>::T)gen<A>(k) && v.get_type() == emk<A>(k).get_type(); }
#define P(t, A) { Variant::t, pmake<A>, pcheck<A>, emk<A>, eis<A> }
static const Pooled pooled[] = {
	P(POOL_BYTE_ARRAY, uint8_t), P(POOL_INT_ARRAY, int), P(POOL_REAL_ARRAY, real_t), P(POOL_STRING_ARRAY, String), P(POOL_VECTOR2_ARRAY, Vector2),
	P(POOL_VECTOR2I_ARRAY, Vector2i), P(POOL_VECTOR3_ARRAY, Vector3), P(POOL_VECTOR3I_ARRAY, Vector3i), P(POOL_VECTOR4_ARRAY, Vector4),
	P(POOL_VECTOR4I_ARRAY, Vector4i), P(POOL_COLOR_ARRAY, Color)
};
typedef void (*Conv)(const Variant &, const std::vector<int> &);
static const Conv convs[] = { to_others<uint8_t>, to_others<int>, to_others<real_t>, to_others<String>, to_others<Vector2>, to_others<Vector2i>, to_others<Vector3>, to_others<Vector3i>, to_others<Vector4>, to_others<Vector4i>, to_others<Color> };
static const int NP = sizeof pooled / sizeof pooled[0];
static int pool_of(int t) {
	for (int i = 0; i < NP; i++) {
		if (pooled[i].t == t) return i;
	}
	return -1;
}
static String text_of(const std::vector<int> &e) {
	String s;
	for (int c : e) s += String::chr(c);
	return s;
}
static const int chars[] = { 'a', 'b', 0x6f22, 'z', 0xfc, ' ' };

// ---- model -------------------------------------------------------------------------------------------
static bool reaches(const Box *from, const Box *to) {
	if (from == to) return true;
	for (auto &x : from->a) {
		if (x.c && reaches(x.c, to)) return true;
	}
	return false;
}
static int weight(const Val &m) {
	int n = 1 + (int)m.e.size();
	if (m.c) {
		for (auto &x : m.c->a) n += weight(x);
	}
	return n;
}
static void reach(const Val &m, std::set<int> &live) {
	if (m.o >= 0) live.insert(m.o);
	if (m.c) {
		for (auto &x : m.c->a) reach(x, live);
	}
}
static bool equal(const Val &a, const Val &b) {
	if (a.t != b.t) return false;
	if (a.t == Variant::OBJECT) return a.o == b.o; // also after it was destroyed
	if (a.t == Variant::DICTIONARY) return a.c == b.c;
	if (a.t == Variant::ARRAY) {
		if (a.c->a.size() != b.c->a.size()) return false;
		for (size_t i = 0; i < a.c->a.size(); i++) {
			if (!equal(a.c->a[i], b.c->a[i])) return false;
		}
		return true;
	}
	if (const Kind *k = kind(a.t)) {
		if ((a.k < 0) == (b.k < 0)) return a.k == b.k || (a.t == Variant::BOOL && (a.k & 1) == (b.k & 1));
		int x = a.k < 0 ? b.k : a.k;
		return k->is(k->make(-1), x); // some numbered value may be the default one
	}
	return a.e == b.e;
}
static void check(const Variant &v, const Val &m, int depth);
static bool is_mem(const Variant &v, const Val &m) { // like check, as a question, for scalars
	if (v.get_type() != m.t) return false;
	if (const Kind *k = kind(m.t)) return k->is(v, m.k);
	if (m.t == Variant::STRING) return v.operator String() == text_of(m.e);
	return m.t == Variant::NIL;
}
static Variant key_of(const Val &m) { return m.t == Variant::STRING ? Variant(text_of(m.e)) : kind(m.t)->make(m.k); }
static void check(const Variant &v, const Val &m, int depth) {
	SIM_CHECK(v.get_type() == m.t, "type", "a value is of type %d, expected %d", (int)v.get_type(), m.t);
	SIM_CHECK(v.is_null() == (m.t == Variant::NIL), "type", "a value says wrongly whether it holds anything");
	int p = pool_of(m.t);
	if (p >= 0) {
		pooled[p].check(v, m.e);
	} else if (m.t == Variant::ARRAY) {
		const Array a = v;
		SIM_CHECK(a.size() == (int)m.c->a.size(), "contents", "an array in a value has %d elements, expected %zu", a.size(), m.c->a.size());
		for (size_t i = 0; i < m.c->a.size(); i++) check(a[i], m.c->a[i], depth + 1);
	} else if (m.t == Variant::DICTIONARY) {
		const Dictionary d = v;
		SIM_CHECK(d.size() == (int)m.c->a.size(), "contents", "a dictionary in a value has %d entries, expected %zu", d.size(), m.c->a.size());
		for (size_t i = 0; i < m.c->a.size(); i++) {
			const Variant *x = d.getptr(key_of(m.c->keys[i]));
			SIM_CHECK(x, "contents", "a dictionary in a value has lost a key");
			check(*x, m.c->a[i], depth + 1);
		}
	} else if (m.t == Variant::OBJECT) {
		Object *want = m.o < 0 || objs[m.o].destroyed ? nullptr : objs[m.o].p;
		SIM_CHECK((Object *)v == want, "contents", "a value holds another object");
		SIM_CHECK(v.is_ref() == (m.o >= 0 && objs[m.o].counted), "contents", "a value says wrongly whether it holds a counted object");
		SIM_CHECK(v.is_invalid_object() == (m.o >= 0 && objs[m.o].destroyed), "contents", "a value says wrongly whether its object is gone");
	} else if (m.t == Variant::STRING) {
		SIM_CHECK(v.operator String() == text_of(m.e), "contents", "a text in a value is another");
	} else if (m.t != Variant::NIL) {
		SIM_CHECK(kind(m.t)->is(v, m.k), "contents", "a value of type %d is another", m.t);
	}
}

// ---- making ------------------------------------------------------------------------------------------
static uint32_t bias = 0; // type class that is made half of the time
static Variant some(Val &m, const std::vector<std::pair<Variant, Val>> *from, const Box *into, int depth) {
	uint32_t cls = wchoose(8);
	if (bias && wchoose(2)) cls = bias - 1;
	if (depth > 2 && cls >= 4 && cls <= 5) cls = 0;
	switch (cls) {
		case 1: { // text
			m.t = Variant::STRING;
			uint32_t n = wchoose(5);
			for (uint32_t i = 0; i < n; i++) m.e.push_back(chars[wchoose(6)]);
			String s = text_of(m.e);
			if (wchoose(4) == 0 && n == 0) return Variant("");
			return wchoose(3) ? Variant(s) : Variant(s.ptr() ? s.ptr() : U"");
		}
		case 2: // pooled array
		case 3: {
			int p = wchoose(NP);
			m.t = pooled[p].t;
			uint32_t n = wchoose(5);
			for (uint32_t i = 0; i < n; i++) m.e.push_back(wchoose(6));
			Variant v = pooled[p].make(m.e, wchoose(3));
			return v;
		}
		case 4: { // list
			m.t = Variant::ARRAY;
			m.c = new_box(false, self());
			Array a;
			uint32_t n = wchoose(4);
			for (uint32_t i = 0; i < n; i++) {
				Val x;
				a.push_back(some(x, from, into, depth + 1));
				Quiet q;
				m.c->a.push_back(x);
			}
			return Variant(a);
		}
		case 5: { // dictionary
			m.t = Variant::DICTIONARY;
			m.c = new_box(true, self());
			Dictionary d;
			uint32_t n = wchoose(3);
			for (uint32_t i = 0; i < n; i++) {
				Val k, x;
				k.t = Variant::INT;
				k.k = i;
				d[key_of(k)] = some(x, from, into, depth + 1);
				Quiet q;
				m.c->keys.push_back(k);
				m.c->a.push_back(x);
			}
			return Variant(d);
		}
		case 6: { // object
			m.t = Variant::OBJECT;
			uint32_t w = wchoose(5);
			if (w == 4) return wchoose(2) ? Variant((const Object *)nullptr) : Variant(Ref<CountedThing>());
			if (w < 3) {
				Ref<CountedThing> t;
				t.instance();
				{
					Quiet q;
					t->n = m.o = (int)objs.size();
					if (objs.size() == objs.capacity()) end_run();
					objs.push_back({ t.ptr(), true, 0 });
				}
				return Variant(t);
			}
			PlainThing *t = memnew(PlainThing);
			{
				Quiet q;
				t->n = m.o = (int)objs.size();
				if (objs.size() == objs.capacity()) end_run();
				objs.push_back({ t, false, 0 });
			}
			return Variant(t);
		}
		case 7:
			if (from && from->size()) { // what another value holds
				auto &x = (*from)[wchoose(from->size())];
				if (weight(x.second) < 40 && !(into && x.second.c && reaches(x.second.c, into))) {
					Quiet q;
					m = x.second;
					return x.first;
				}
			}
			return Variant();
		default: {
			const Kind &k = kinds[wchoose(NK)];
			m.t = k.t;
			m.k = wchoose(6);
			return k.make(m.k);
		}
	}
}
typedef std::pair<Variant, Val> Slot;

static int index_in(int n, Variant &v) { // an index inside or outside, -1: outside
	int i = (int)wchoose(2 * n + 3) - n - 1;
	v = wchoose(4) ? Variant(i) : Variant((double)i);
	int j = i < 0 ? i + n : i;
	return j >= 0 && j < n ? j : -1;
}
static void set_op(Slot &s, std::vector<Slot> &S) {
	Val &m = s.second;
	Variant ix;
	bool ok = true;
	int p = pool_of(m.t);
	if (p >= 0) {
		int i = index_in(m.e.size(), ix), k = wchoose(6);
		bool wrong = wchoose(6) == 0;
		s.first.set(ix, wrong ? Variant() : pooled[p].elem(k), &ok);
		SIM_CHECK(ok == (i >= 0 && !wrong), "set", "setting an element of a pooled array says %d", ok);
		if (ok) m.e[i] = k;
		if (ok) probe(4, "an element of a pooled array in a value was replaced");
	} else if (m.t == Variant::STRING) {
		int i = index_in(m.e.size(), ix), c = chars[wchoose(6)];
		uint32_t how = wchoose(3);
		s.first.set(ix, how == 0 ? Variant(c) : how == 1 ? Variant(String::chr(c))
														 : Variant("two"),
				&ok);
		SIM_CHECK(ok == (i >= 0), "set", "setting a character says %d", ok);
		if (ok) {
			Quiet q;
			m.e.erase(m.e.begin() + i);
			if (how < 2) {
				m.e.insert(m.e.begin() + i, c);
			} else {
				static const int two[] = { 't', 'w', 'o' };
				m.e.insert(m.e.begin() + i, two, two + 3);
			}
		}
	} else if (m.t == Variant::ARRAY) {
		if (m.c->owner != self()) return;
		int i = index_in(m.c->a.size(), ix);
		Val x;
		Variant v = some(x, &S, m.c, 1);
		if (x.c && reaches(x.c, m.c)) return;
		s.first.set(ix, v, &ok);
		SIM_CHECK(ok == (i >= 0), "set", "setting an element of an array says %d", ok);
		Quiet q;
		if (ok) m.c->a[i] = x;
	} else if (m.t == Variant::DICTIONARY) {
		if (m.c->owner != self()) return;
		Val k, x;
		k.t = wchoose(2) ? Variant::INT : Variant::VECTOR2;
		k.k = wchoose(4);
		Variant v = some(x, &S, m.c, 1);
		if (x.c && reaches(x.c, m.c)) return;
		s.first.set(key_of(k), v, &ok);
		SIM_CHECK(ok, "set", "setting an entry of a dictionary says %d", ok);
		Quiet q;
		for (size_t i = 0; i < m.c->keys.size(); i++) {
			if (equal(m.c->keys[i], k)) {
				m.c->a[i] = x;
				return;
			}
		}
		m.c->keys.push_back(k);
		m.c->a.push_back(x);
	} else if (m.t == Variant::NIL || m.t == Variant::BOOL || m.t == Variant::INT || m.t == Variant::REAL) {
		s.first.set(Variant(0), Variant(1), &ok);
		SIM_CHECK(!ok, "set", "setting an element of a value without elements says it worked");
	}
}
static void get_op(const Slot &s) {
	const Val &m = s.second;
	Variant ix;
	bool ok = true;
	int p = pool_of(m.t);
	if (p >= 0) {
		int i = index_in(m.e.size(), ix);
		Variant v = s.first.get(ix, &ok);
		SIM_CHECK(ok == (i >= 0), "get", "getting an element of a pooled array says %d", ok);
		if (ok) SIM_CHECK(pooled[p].elem_is(v, m.e[i]), "get", "an element of a pooled array in a value is another");
		int k = wchoose(6);
		bool has = s.first.in(pooled[p].elem(k), &ok), want = false;
		for (int x : m.e) want = want || x == k;
		SIM_CHECK(ok && has == want, "in", "an element is%s found in a pooled array of %zu", has ? "" : " not", m.e.size());
	} else if (m.t == Variant::STRING) {
		int i = index_in(m.e.size(), ix);
		Variant v = s.first.get(ix, &ok);
		SIM_CHECK(ok == (i >= 0), "get", "getting a character says %d", ok);
		if (ok) SIM_CHECK(v.operator String() == String::chr(m.e[i]), "get", "a character of a text in a value is another");
		int c = chars[wchoose(6)];
		bool has = s.first.in(Variant(String::chr(c)), &ok), want = false;
		for (int x : m.e) want = want || x == c;
		SIM_CHECK(ok && has == want, "in", "a character is%s found in a text", has ? "" : " not");
	} else if (m.t == Variant::ARRAY) {
		int i = index_in(m.c->a.size(), ix);
		Variant v = s.first.get(ix, &ok);
		SIM_CHECK(ok == (i >= 0), "get", "getting an element of an array says %d", ok);
		if (ok) {
			check(v, m.c->a[i], 1);
			SIM_CHECK(s.first.in(v, &ok) && ok, "in", "an element is not found in its array");
		}
	} else if (m.t == Variant::DICTIONARY) {
		Val k;
		k.t = wchoose(2) ? Variant::INT : Variant::VECTOR2;
		k.k = wchoose(4);
		Variant v = s.first.get(key_of(k), &ok);
		int at = -1;
		for (size_t i = 0; i < m.c->keys.size(); i++) {
			if (equal(m.c->keys[i], k)) at = (int)i;
		}
		SIM_CHECK(ok == (at >= 0), "get", "getting an entry of a dictionary says %d", ok);
		if (ok) check(v, m.c->a[at], 1);
		SIM_CHECK(s.first.in(key_of(k), &ok) == (at >= 0) && ok, "in", "a key is found wrongly");
	}
}
static void walk(const Slot &s) {
	const Val &m = s.second;
	std::vector<Variant> got;
	Variant it;
	bool valid = true;
	int p = pool_of(m.t);
	bool walks = p >= 0 || m.t == Variant::STRING || m.t == Variant::ARRAY || m.t == Variant::DICTIONARY || m.t == Variant::VECTOR2 || m.t == Variant::VECTOR2I || m.t == Variant::VECTOR3 || m.t == Variant::VECTOR3I;
	if (m.t == Variant::INT || m.t == Variant::REAL) {
		if ((m.k >= 0 && m.k % 6 >= 3)) return; // too far
		walks = true;
	}
	bool more = s.first.iter_init(it, valid);
	SIM_CHECK(valid == walks, "walk", "a value of type %d can%s be walked", m.t, valid ? "" : " not");
	if (!valid) return;
	while (more) {
		SIM_CHECK(got.size() < 60, "walk", "walking a value of type %d does not end", m.t);
		got.push_back(s.first.iter_get(it, valid));
		SIM_CHECK(valid, "walk", "walking a value finds something that is no element");
		more = s.first.iter_next(it, valid);
		SIM_CHECK(valid, "walk", "walking a value of type %d stops half way", m.t);
	}
	std::vector<int64_t> steps;
	bool numbers = true;
	auto range = [&](int64_t a, int64_t b, int64_t d) {
		if (d == 0) return;
		for (; d > 0 ? a < b : a > b; a += d) steps.push_back(a);
	};
	switch (m.t) {
		case Variant::INT: range(0, s.first, 1); break;
		case Variant::REAL: range(0, (int64_t)std::ceil((double)s.first), 1); break;
		case Variant::VECTOR2: {
			Vector2 v = s.first;
			range((int64_t)v.x, (int64_t)v.y, 1);
		} break;
		case Variant::VECTOR2I: {
			Vector2i v = s.first;
			range(v.x, v.y, 1);
		} break;
		case Variant::VECTOR3: {
			Vector3 v = s.first;
			range((int64_t)v.x, (int64_t)v.y, (int64_t)v.z);
		} break;
		case Variant::VECTOR3I: {
			Vector3i v = s.first;
			range(v.x, v.y, v.z);
		} break;
		default: numbers = false;
	}
	if (numbers) {
		SIM_CHECK(got.size() == steps.size(), "walk", "walking a value of type %d gives %zu numbers, expected %zu", m.t, got.size(), steps.size());
		for (size_t i = 0; i < steps.size(); i++) SIM_CHECK((int64_t)got[i] == steps[i], "walk", "walking a value of type %d gives another number at place %zu", m.t, i);
		return;
	}
	size_t n = m.c ? m.c->a.size() : m.e.size();
	SIM_CHECK(got.size() == n, "walk", "walking a value of type %d gives %zu elements, expected %zu", m.t, got.size(), n);
	for (size_t i = 0; i < n; i++) {
		if (p >= 0) {
			SIM_CHECK(pooled[p].elem_is(got[i], m.e[i]), "walk", "walking a pooled array gives another element at place %zu", i);
		} else if (m.t == Variant::STRING) {
			SIM_CHECK(got[i].operator String() == String::chr(m.e[i]), "walk", "walking a text gives another character at place %zu", i);
		} else if (m.t == Variant::ARRAY) {
			check(got[i], m.c->a[i], 1);
		} else {
			SIM_CHECK(is_mem(got[i], m.c->keys[i]), "walk", "walking a dictionary gives another key at place %zu", i);
		}
	}
}
static void compare(const Slot &a, const Slot &b) {
	bool same = equal(a.second, b.second);
	ev("compare values of types %d and %d (objects %d %d)", a.second.t, b.second.t, a.second.o, b.second.o);
	SIM_CHECK((a.first == b.first) == same, "equal", "values of types %d and %d %s equal", a.second.t, b.second.t, same ? "are not said to be" : "are said to be");
	SIM_CHECK((a.first != b.first) == !same, "equal", "values of types %d and %d %s different", a.second.t, b.second.t, same ? "are said to be" : "are not said to be");
	if (same) {
		SIM_CHECK(a.first.hash() == b.first.hash(), "hash", "equal values of type %d have different hashes", a.second.t);
		SIM_CHECK(a.first.deep_equal(b.first), "equal", "equal values of type %d are not deeply equal", a.second.t);
	}
	if (a.second.t != Variant::BOOL && a.second.t != Variant::NIL) SIM_CHECK(a.first.hash_compare(b.first) == same, "equal", "values of types %d and %d compare as %s as keys", a.second.t, b.second.t, same ? "different" : "equal");
}
// A copy of the model of a duplicate.
static Val dup(const Val &m, bool deep) {
	Val r = m;
	if (m.c) {
		r.c = new_box(m.c->dict, self());
		Quiet q;
		r.c->keys = m.c->keys;
		for (auto &x : m.c->a) r.c->a.push_back(deep ? dup(x, true) : x);
	}
	return r;
}
template <class A> static void number(Slot &s, int k) {
	A x = gen<A>(k);
	s.first = Variant(x);
	SIM_CHECK((A)s.first == x, "number", "a number put into a value comes out as another");
}
template <> uint16_t gen<uint16_t>(int k) { return k * 13107; }
template <> int16_t gen<int16_t>(int k) { return k * 13107 - 32768; }
template <> uint32_t gen<uint32_t>(int k) { return k * 858993459u; }
template <> int8_t gen<int8_t>(int k) { return k * 51 - 128; }
template <> uint64_t gen<uint64_t>(int k) { return k * 3689348814741910323ULL; }
static void numbers(Slot &s) {
	int k = wchoose(6);
	switch (wchoose(8)) {
		case 0: number<uint8_t>(s, k); break;
		case 1: number<int8_t>(s, k); break;
		case 2: number<uint16_t>(s, k); break;
		case 3: number<int16_t>(s, k); break;
		case 4: number<uint32_t>(s, k); break;
		case 5: number<int>(s, k); break;
		case 6: number<uint64_t>(s, k); break;
		default: number<float>(s, k); break;
	}
	s.first = Variant();
	Quiet q;
	s.second = Val();
}
static void lists(Slot &s) { // a list is made a vector and back
	const Val &m = s.second;
	Vector<Variant> x = s.first.operator Vector<Variant>();
	SIM_CHECK(x.size() == (int)m.c->a.size(), "convert", "a list of %zu elements makes a vector of %d", m.c->a.size(), x.size());
	for (size_t i = 0; i < m.c->a.size(); i++) check(x[i], m.c->a[i], 1);
	Variant y(x);
	SIM_CHECK(y.get_type() == Variant::ARRAY, "convert", "a vector of values makes a value of type %d", (int)y.get_type());
	check(y, m, 0);
	const Array a = s.first, b = y;
	SIM_CHECK(a.id() != b.id(), "convert", "a list made from a vector is the list the vector was made from");
	Vector<StringName> n;
	for (int i = wchoose(4); i > 0; i--) n.push_back(gen<StringName>(wchoose(6)));
	Variant z(n);
	Vector<StringName> o = z.operator Vector<StringName>();
	SIM_CHECK(o.size() == n.size(), "convert", "%d names put into a value come out as %d", n.size(), o.size());
	for (int i = 0; i < n.size(); i++) SIM_CHECK(o[i] == n[i], "convert", "a name put into a value comes out as another");
	Vector<Plane> pl;
	for (int i = wchoose(4); i > 0; i--) pl.push_back(gen<Plane>(wchoose(6)));
	z = Variant(pl);
	Vector<Plane> po = z.operator Vector<Plane>();
	SIM_CHECK(po.size() == pl.size(), "convert", "%d planes put into a value come out as %d", pl.size(), po.size());
	for (int i = 0; i < pl.size(); i++) SIM_CHECK(same(po[i], pl[i]), "convert", "a plane put into a value comes out as another");
}
// ---- members of values without outside elements, by name and by number ---------------------------------
template <class A> struct Member {
	const char *name;
	int index;
	int value; // 0: a number; else: the type
	void (*put)(A &, int k);
	Variant (*get)(const A &);
};
static double scalar(int k) { return k & 1 ? k + 0.5 : k - 2; }
static Variant scalar_value(int k) { return k & 1 ? Variant(k + 0.5) : Variant(k - 2); }
#define SC(A, n, i, f) { n, i, 0, [](A &a, int k) { a.f = scalar(k); }, [](const A &a) { return Variant(a.f); } }
#define VE(A, n, i, t, T, f) { n, i, Variant::t, [](A &a, int k) { a.f = gen<T>(k); }, [](const A &a) { return Variant(a.f); } }
#define EN(A, t, T) { "end", -1, Variant::t, [](A &a, int k) { a.size = gen<T>(k) - a.position; }, [](const A &a) { return Variant(a.size + a.position); } }
#define AX(A, n, i, e) { n, i, Variant::VECTOR3, [](A &a, int k) { Vector3 v = gen<Vector3>(k); a.e[0][i] = v.x; a.e[1][i] = v.y; a.e[2][i] = v.z; }, [](const A &a) { return Variant(Vector3(a.e[0][i], a.e[1][i], a.e[2][i])); } }
static const Member<Vector2> m_v2[] = { SC(Vector2, "x", 0, x), SC(Vector2, "y", 1, y) };
static const Member<Vector2i> m_v2i[] = { SC(Vector2i, "x", 0, x), SC(Vector2i, "y", 1, y) };
static const Member<Vector3> m_v3[] = { SC(Vector3, "x", 0, x), SC(Vector3, "y", 1, y), SC(Vector3, "z", 2, z) };
static const Member<Vector3i> m_v3i[] = { SC(Vector3i, "x", 0, x), SC(Vector3i, "y", 1, y), SC(Vector3i, "z", 2, z) };
static const Member<Vector4> m_v4[] = { SC(Vector4, "x", 0, x), SC(Vector4, "y", 1, y), SC(Vector4, "z", 2, z), SC(Vector4, "w", 3, w) };
static const Member<Vector4i> m_v4i[] = { SC(Vector4i, "x", 0, x), SC(Vector4i, "y", 1, y), SC(Vector4i, "z", 2, z), SC(Vector4i, "w", 3, w) };
static const Member<Rect2> m_r2[] = { VE(Rect2, "position", -1, VECTOR2, Vector2, position), VE(Rect2, "size", -1, VECTOR2, Vector2, size), EN(Rect2, VECTOR2, Vector2) };
static const Member<Rect2i> m_r2i[] = { VE(Rect2i, "position", -1, VECTOR2I, Vector2i, position), VE(Rect2i, "size", -1, VECTOR2I, Vector2i, size), EN(Rect2i, VECTOR2I, Vector2i) };
static const Member<Plane> m_pl[] = { SC(Plane, "x", -1, normal.x), SC(Plane, "y", -1, normal.y), SC(Plane, "z", -1, normal.z), SC(Plane, "d", -1, d), VE(Plane, "normal", -1, VECTOR3, Vector3, normal) };
static const Member<Quaternion> m_q[] = { SC(Quaternion, "x", -1, x), SC(Quaternion, "y", -1, y), SC(Quaternion, "z", -1, z), SC(Quaternion, "w", -1, w) };
#define C8(n, f) { n, -1, 0, [](Color &a, int k) { a.f = scalar(k) / 255.0; }, [](const Color &a) { return Variant((int)Math::round(a.f * 255.0)); } }
static const Member<Color> m_c[] = { SC(Color, "r", 0, r), SC(Color, "g", 1, g), SC(Color, "b", 2, b), SC(Color, "a", 3, a),
	C8("r8", r), C8("g8", g), C8("b8", b), C8("a8", a),
	{ "h", -1, 0, [](Color &a, int k) { a.set_hsv(scalar(k), a.get_s(), a.get_v(), a.a); }, [](const Color &a) { return Variant(a.get_h()); } },
	{ "s", -1, 0, [](Color &a, int k) { a.set_hsv(a.get_h(), scalar(k), a.get_v(), a.a); }, [](const Color &a) { return Variant(a.get_s()); } },
	{ "v", -1, 0, [](Color &a, int k) { a.set_hsv(a.get_h(), a.get_s(), scalar(k), a.a); }, [](const Color &a) { return Variant(a.get_v()); } } };
static const Member<::AABB> m_ab[] = { VE(::AABB, "position", -1, VECTOR3, Vector3, position), VE(::AABB, "size", -1, VECTOR3, Vector3, size), EN(::AABB, VECTOR3, Vector3) };
static const Member<Basis> m_b[] = { AX(Basis, "x", 0, rows), AX(Basis, "y", 1, rows), AX(Basis, "z", 2, rows) };
static const Member<Transform> m_t[] = { VE(Transform, "basis", -1, BASIS, Basis, basis), VE(Transform, "origin", 3, VECTOR3, Vector3, origin), AX(Transform, nullptr, 0, basis.rows), AX(Transform, nullptr, 1, basis.rows), AX(Transform, nullptr, 2, basis.rows) };
static const Member<Transform2D> m_t2[] = { VE(Transform2D, "x", 0, VECTOR2, Vector2, columns[0]), VE(Transform2D, "y", 1, VECTOR2, Vector2, columns[1]), VE(Transform2D, "origin", 2, VECTOR2, Vector2, columns[2]) };
static const Member<Projection> m_p[] = { VE(Projection, "x", 0, VECTOR4, Vector4, matrix[0]), VE(Projection, "y", 1, VECTOR4, Vector4, matrix[1]), VE(Projection, "z", 2, VECTOR4, Vector4, matrix[2]), VE(Projection, "w", 3, VECTOR4, Vector4, matrix[3]) };

template <class A, size_t N> static void members(const Member<A> (&ms)[N]) {
	int k = wchoose(6), t = mk<A>(k).get_type(), count = 0;
	for (auto &m : ms) count = MAX(count, m.index + 1);
	A want = gen<A>(k);
	Variant v = want, w = v;
	for (int n = 1 + wchoose(4); n > 0; n--) {
		const Member<A> &m = ms[wchoose(N)];
		int how = wchoose(4), j = wchoose(6);
		if (!m.name) how = 2;
		if (how == 2 && m.index < 0) how = 0;
		Variant ix;
		if (how == 0) ix = String(m.name);
		if (how == 1) ix = StringName(m.name);
		if (how == 2) ix = Variant(wchoose(2) ? m.index : m.index - count);
		bool ok = false, set = wchoose(3);
		uint32_t odd = wchoose(8);
		if (odd == 1) { // no such member
			ix = wchoose(2) ? Variant(String("other")) : Variant(wchoose(2) ? count : -count - 1);
			how = 0;
			ok = true;
			v.get(ix, &ok);
			SIM_CHECK(!ok, "member", "getting a member that a value of type %d does not have says it worked", t);
		}
		Variant x;
		switch (m.value) {
			case 0: x = scalar_value(j); break;
			case Variant::VECTOR2: x = gen<Vector2>(j); break;
			case Variant::VECTOR2I: x = gen<Vector2i>(j); break;
			case Variant::VECTOR3: x = gen<Vector3>(j); break;
			case Variant::VECTOR4: x = gen<Vector4>(j); break;
			default: x = gen<Basis>(j); break;
		}
		bool plane_d = t == Variant::PLANE && m.value == 0 && !strcmp(m.name, "d"); // takes anything that makes a number
		if (odd == 2 && !plane_d) x = Variant(StringName("text"));
		if (set || odd == 1 || odd == 2) {
			bool good = odd == 0 || odd > 2 || (odd == 2 && plane_d);
			ok = !good;
			if (how == 3) {
				v.set_named(StringName(m.name), x, &ok);
			} else {
				v.set(ix, x, &ok);
			}
			ev("member %s (%d) of a value of type %d set, way %d", m.name ? m.name : "-", m.index, t, how);
			SIM_CHECK(ok == good, "member", "setting member %s (%d) of a value of type %d says it %s", m.name ? m.name : "-", m.index, t, ok ? "worked" : "did not work");
			if (good) {
				m.put(want, j);
				probe(6, "a member of a value was set");
			}
			SIM_CHECK(v.get_type() == t && same(v.operator A(), want), "member", "setting member %s (%d) of a value of type %d made another value", m.name ? m.name : "-", m.index, t);
		} else {
			Variant g = how == 3 ? v.get_named(StringName(m.name), &ok) : v.get(ix, &ok), e = m.get(want);
			SIM_CHECK(ok, "member", "getting member %s (%d) of a value of type %d, way %d, says it did not work", m.name ? m.name : "-", m.index, t, how);
			SIM_CHECK(g.get_type() == e.get_type() && g == e, "member", "member %s (%d) of a value of type %d is another", m.name ? m.name : "-", m.index, t);
		}
	}
	SIM_CHECK(w.get_type() == t && same(w.operator A(), gen<A>(k)), "member", "setting members of a value of type %d changed a copy of it", t);
}
static void members() {
	switch (wchoose(16)) {
		case 0: members(m_v2); break;
		case 1: members(m_v2i); break;
		case 2: members(m_v3); break;
		case 3: members(m_v3i); break;
		case 4: members(m_v4); break;
		case 5: members(m_v4i); break;
		case 6: members(m_r2); break;
		case 7: members(m_r2i); break;
		case 8: members(m_pl); break;
		case 9: members(m_q); break;
		case 10: members(m_c); break;
		case 11: members(m_ab); break;
		case 12: members(m_b); break;
		case 13: members(m_t); break;
		case 14: members(m_t2); break;
		default: members(m_p); break;
	}
}
static void op(std::vector<Slot> &S, bool alone) {
	Slot &s = S[wchoose(S.size())];
	switch (wchoose(16)) {
		case 15: members(); break;
		case 14:
			s.second.t == Variant::ARRAY && s.second.c->owner == self() ? lists(s) : numbers(s);
			break;
		default: { // a new value of any type
			Val m;
			Variant v = some(m, &S, nullptr, 0);
			ev("value of type %d replaced by a new one of type %d", s.second.t, m.t);
			if (wchoose(3) == 0) {
				Variant w(v);
				s.first = w;
			} else {
				s.first = v;
			}
			Quiet q;
			s.second = m;
		} break;
		case 3:
		case 4: { // copied from another
			Slot &o = S[wchoose(S.size())];
			ev("value of type %d replaced by another of type %d", s.second.t, o.second.t);
			s.first = o.first;
			Quiet q;
			s.second = o.second;
		} break;
		case 5: {
			int t = s.second.t;
			ev("zero a value of type %d", t);
			s.first.zero();
			Quiet q;
			SIM_CHECK(s.first.get_type() == t || s.first.get_type() == Variant::NIL, "zero", "a value of type %d made zero is of type %d", t, (int)s.first.get_type());
			s.second = Val();
			s.second.t = s.first.get_type();
			s.second.k = -1;
			if (kind(t) && t != Variant::STRING_NAME) probe(1, "a value without outside storage was made zero");
		} break;
		case 6: set_op(s, S); break;
		case 7: get_op(s); break;
		case 8: walk(s); break;
		case 9: compare(s, S[wchoose(S.size())]); break;
		case 10: { // duplicate
			if (weight(s.second) > 40) break;
			Slot &o = S[wchoose(S.size())];
			bool deep = wchoose(2);
			ev("duplicate of a value of type %d", s.second.t);
			Val m = dup(s.second, deep);
			o.first = s.first.duplicate(deep);
			Quiet q;
			o.second = m;
		} break;
		case 11: { // sum, perhaps into an operand
			Slot &o = S[wchoose(S.size())], &r = S[wchoose(S.size())];
			int t = s.second.t;
			if (t != o.second.t || weight(s.second) + weight(o.second) > 40) break;
			if (t != Variant::STRING && t != Variant::ARRAY && pool_of(t) < 0) break;
			bool ok = false;
			Val m;
			m.t = t;
			if (t == Variant::ARRAY) {
				m.c = new_box(false, self());
				Quiet q;
				m.c->a = s.second.c->a;
				auto x = o.second.c->a;
				m.c->a.insert(m.c->a.end(), x.begin(), x.end());
			} else {
				Quiet q;
				m.e = s.second.e;
				m.e.insert(m.e.end(), o.second.e.begin(), o.second.e.end());
			}
			ev("sum of values of type %d", t);
			Variant::evaluate(Variant::OP_ADD, s.first, o.first, r.first, ok);
			SIM_CHECK(ok, "sum", "values of type %d cannot be joined", t);
			probe(2, "two texts or lists were joined");
			Quiet q;
			r.second = m;
		} break;
		case 12: { // replaced by an element of its own
			if (!s.second.c || s.second.c->a.empty()) break;
			uint32_t i = wchoose(s.second.c->a.size());
			const Variant *x;
			if (s.second.c->dict) {
				const Dictionary d = s.first;
				x = d.getptr(key_of(s.second.c->keys[i]));
				SIM_CHECK(x, "contents", "a dictionary in a value has lost a key");
			} else {
				const Array a = s.first;
				x = &a[i];
			}
			ev("value replaced by its own element");
			s.first = *x;
			probe(3, "a value was replaced by its own element");
			Quiet q;
			Val m = s.second.c->a[i];
			s.second = m;
		} break;
		case 13: { // an object goes
			if (!alone || s.second.o < 0 || objs[s.second.o].counted || objs[s.second.o].destroyed) {
				int p = pool_of(s.second.t);
				if (p >= 0) convs[p](s.first, s.second.e);
				break;
			}
			ev("destroy an object");
			memdelete((PlainThing *)objs[s.second.o].p);
		} break;
	}
}
static void alive(const std::vector<Slot> &S, const char *when) {
	std::set<int> live;
	for (auto &s : S) reach(s.second, live);
	for (size_t i = 0; i < objs.size(); i++) {
		if (!objs[i].counted) continue;
		bool want = live.count((int)i);
		SIM_CHECK((objs[i].destroyed == 0) == want, want ? "destroyed-early" : "not-destroyed", "%s: an object %s", when, want ? "was destroyed while a value holds it" : "still exists although no value holds it");
	}
}
static void finish(uint64_t mark, uint32_t used, size_t bytes) {
	for (auto &o : objs) {
		if (!o.counted && !o.destroyed) memdelete((PlainThing *)o.p);
		SIM_CHECK(o.destroyed == 1, "not-destroyed", "an object still exists after the last value is gone");
	}
	SIM_CHECK(MemoryPool::allocs_used == used && MemoryPool::total_memory == bytes, "pool", "%d pooled arrays are left after the last value is gone", (int)(MemoryPool::allocs_used - used));
	uint64_t by = 0, n = heap_live_since(mark, &by);
	SIM_CHECK(n == 0, "lost", "%llu blocks of %llu bytes are left after the last value is gone", (unsigned long long)n, (unsigned long long)by);
	Quiet q;
	for (Box *b : boxes) delete b;
	boxes = std::vector<Box *>();
	objs = std::vector<ORec>();
}
static void warm() { // what the library makes once for each class and never returns
	PlainThing *p = memnew(PlainThing);
	p->n = -2;
	Variant v(p);
	memdelete(p);
	Ref<CountedThing> t;
	t.instance();
	t->n = -2;
	v = t;
	Quiet q;
	boxes.clear();
	objs.clear();
	objs.reserve(2000); // never moved while threads read it
}
static void history() {
	warm();
	uint64_t mark = heap_mark();
	uint32_t used = MemoryPool::allocs_used;
	size_t bytes = MemoryPool::total_memory;
	bias = choose(ST_CFG, 9);
	{
		std::vector<Slot> S(3 + choose(ST_CFG, 4));
		int n = 4 + choose(ST_CFG, 40);
		for (int i = 0; i < n; i++) {
			op(S, true);
			alive(S, "after an operation");
			for (auto &s : S) check(s.first, s.second, 0);
		}
	}
	finish(mark, used, bytes);
}
static void threads() {
	warm();
	uint64_t mark = heap_mark();
	uint32_t used = MemoryPool::allocs_used;
	size_t bytes = MemoryPool::total_memory;
	bias = choose(ST_CFG, 9);
	{
		std::vector<Slot> proto(3);
		for (auto &s : proto) {
			Val m;
			s.first = some(m, nullptr, nullptr, 0);
			s.second = m;
		}
		int nt = 2 + choose(ST_CFG, 2);
		std::vector<int> ts;
		for (int t = 0; t < nt; t++) {
			std::vector<Slot> *mine;
			{
				Quiet q;
				mine = new std::vector<Slot>(proto);
			}
			ts.push_back(spawn([mine] {
				std::vector<Slot> &S = *mine;
				int n = 2 + (int)wchoose(12);
				for (int i = 0; i < n; i++) {
					op(S, false);
					for (auto &s : S) check(s.first, s.second, 0);
				}
				for (auto &s : S) s.first = Variant();
				Quiet q;
				delete mine;
			}));
		}
		if (choose(ST_CFG, 2)) {
			for (auto &s : proto) s.first = Variant();
			proto.clear();
		}
		for (int t : ts) join(t);
		for (auto &s : proto) check(s.first, s.second, 0);
	}
	finish(mark, used, bytes);
}
} // namespace
SCENARIO(C13, histories, 3) { history(); }
SCENARIO(C13, threads, 2) { threads(); }
SCENARIO(C13, members, 1) {
	warm();
	uint64_t mark = heap_mark();
	for (int n = 1 + choose(ST_CFG, 12); n > 0; n--) members();
	finish(mark, MemoryPool::allocs_used, MemoryPool::total_memory);
}
