// L10: vectors, matrices and tensors hold exactly what each operation says, whatever came before,
// whichever operands are one and the same object, and whoever else reads the operands meanwhile.
#include "common.h"
#include "core/mlpp_matrix.h"
#include "core/mlpp_tensor3.h"
#include "core/mlpp_vector.h"
#include "image.h"
#include <algorithm>
#include <cmath>
using namespace sim;

namespace {
typedef std::vector<float> F;

#define SAYS(cond, what) SIM_CHECK(cond, "contents", "%s: %s", on, what)

static bool same_f(float a, float b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static bool near_f(float a, double e, double tol) {
	if (same_f(a, (float)e)) return true;
	if (std::isinf((float)e) || std::isinf(a)) return std::fabs(e) > 1e38 && std::fabs(a) > 1e38 && (a > 0) == (e > 0);
	return std::fabs(a - e) <= tol * std::max(1.0, std::fabs(e));
}
static float some() { return (float)((int)wchoose(9) - 4); }
static F some_n(size_t n) {
	F f(n);
	for (auto &v : f) v = some();
	return f;
}
static Vector<real_t> vec_of(const F &f) {
	Vector<real_t> v;
	for (float x : f) v.push_back(x);
	return v;
}
static PoolRealArray pool_of(const F &f) {
	PoolRealArray v;
	for (float x : f) v.push_back(x);
	return v;
}
template <class T>
static bool is_list(T &v, const F &f) {
	if ((size_t)v.size() != f.size()) return false;
	for (size_t i = 0; i < f.size(); i++)
		if (!same_f(v[i], f[i])) return false;
	return true;
}
static bool is_bytes(const Vector<uint8_t> &b, const F &f) {
	if ((size_t)b.size() != f.size() * 4) return false;
	for (size_t i = 0; i < f.size(); i++) {
		float x;
		memcpy(&x, b.ptr() + i * 4, 4);
		if (!same_f(x, f[i])) return false;
	}
	return true;
}

// One object and what it must hold. A vector is n elements, a matrix y rows of x, a tensor z slices of y rows of x.
struct Shape {
	int x = 0, y = 0, z = 0;
	bool operator==(const Shape &o) const { return x == o.x && y == o.y && z == o.z; }
	bool operator!=(const Shape &o) const { return !(*this == o); }
};
template <class T>
struct Kind;
template <>
struct Kind<MLPPVector> {
	static constexpr const char *name = "vector";
	static constexpr int dims = 1;
	static size_t volume(Shape s) { return s.x; }
	static Shape shape(const MLPPVector &v) { return { v.size(), 0, 0 }; }
	static void resize(MLPPVector &v, Shape s) { v.resize(s.x); }
	static int count(const MLPPVector &v) { return v.size(); }
	static void set_from(MLPPVector &v, const Ref<MLPPVector> &o) { v.set_from_mlpp_vector(o); }
	static void set_from_r(MLPPVector &v, const MLPPVector &o) { v.set_from_mlpp_vectorr(o); }
	static Vector<uint8_t> bytes(const MLPPVector &v) { return v.to_byte_array(); }
	static Vector<real_t> flat(const MLPPVector &v) { return v.to_vector(); }
	static PoolRealArray pool(const MLPPVector &v) { return v.to_pool_vector(); }
	static std::vector<real_t> std_flat(const MLPPVector &v) { return v.to_std_vector(); }
};
template <>
struct Kind<MLPPMatrix> {
	static constexpr const char *name = "matrix";
	static constexpr int dims = 2;
	static size_t volume(Shape s) { return s.x * s.y; }
	static Shape shape(const MLPPMatrix &v) { return { v.size().x, v.size().y, 0 }; }
	static void resize(MLPPMatrix &v, Shape s) { v.resize(Size2i(s.x, s.y)); }
	static int count(const MLPPMatrix &v) { return v.data_size(); }
	static void set_from(MLPPMatrix &v, const Ref<MLPPMatrix> &o) { v.set_from_mlpp_matrix(o); }
	static void set_from_r(MLPPMatrix &v, const MLPPMatrix &o) { v.set_from_mlpp_matrixr(o); }
	static Vector<uint8_t> bytes(const MLPPMatrix &v) { return v.to_flat_byte_array(); }
	static Vector<real_t> flat(const MLPPMatrix &v) { return v.to_flat_vector(); }
	static PoolRealArray pool(const MLPPMatrix &v) { return v.to_flat_pool_vector(); }
	static std::vector<real_t> std_flat(const MLPPMatrix &v) { return v.to_flat_std_vector(); }
};
template <>
struct Kind<MLPPTensor3> {
	static constexpr const char *name = "tensor";
	static constexpr int dims = 3;
	static size_t volume(Shape s) { return s.x * s.y * s.z; }
	static Shape shape(const MLPPTensor3 &v) { return { v.size().x, v.size().y, v.size().z }; }
	static void resize(MLPPTensor3 &v, Shape s) { v.resize(Size3i(s.x, s.y, s.z)); }
	static int count(const MLPPTensor3 &v) { return v.data_size(); }
	static void set_from(MLPPTensor3 &v, const Ref<MLPPTensor3> &o) { v.set_from_mlpp_tensor3(o); }
	static void set_from_r(MLPPTensor3 &v, const MLPPTensor3 &o) { v.set_from_mlpp_tensor3r(o); }
	static Vector<uint8_t> bytes(const MLPPTensor3 &v) { return v.to_flat_byte_array(); }
	static Vector<real_t> flat(const MLPPTensor3 &v) { return v.to_flat_vector(); }
	static PoolRealArray pool(const MLPPTensor3 &v) { return v.to_flat_pool_vector(); }
	static std::vector<real_t> std_flat(const MLPPTensor3 &v) { return v.to_flat_std_vector(); }
};

template <class T>
struct Obj {
	typedef Kind<T> K;
	Ref<T> r;
	Shape s;
	F d;
	bool null() const { return r.is_null(); }
	float at(int y, int x) const { return d[y * s.x + x]; }
	float at(int z, int y, int x) const { return d[(z * s.y + y) * s.x + x]; }
	void write() { // the object takes over what the model holds
		for (size_t i = 0; i < d.size(); i++) (*r.ptr())[i] = d[i];
	}
	void check(const char *on) const {
		const T &t = *r.ptr();
		Shape n = K::shape(t);
		SIM_CHECK(n == s, "contents", "%s: a %s is %d by %d by %d instead of %d by %d by %d", on, K::name, n.x, n.y, n.z, s.x, s.y, s.z);
		SIM_CHECK((size_t)K::count(t) == d.size() && t.empty() == d.empty(), "contents", "%s: a %s of %zu elements says it has %d", on, K::name, d.size(), K::count(t));
		const real_t *p = t.ptr();
		SIM_CHECK(p || d.empty(), "contents", "%s: a %s has no elements", on, K::name);
		for (size_t i = 0; i < d.size(); i++)
			SIM_CHECK(same_f(p[i], d[i]), "contents", "%s: element %zu of a %s is %g instead of %g", on, i, K::name, p[i], d[i]);
	}
	void take(Shape ns, const F &nd) { s = ns, d = nd; }
	// Elements of any kind go back to small whole numbers, which floating point holds exactly.
	void tame() {
		bool wild = false;
		for (float v : d)
			if (!(std::fabs(v) <= 100) || v != std::floor(v)) wild = true;
		if (d.size() > 40) {
			s = Shape();
			d.clear();
			K::resize(*r.ptr(), s);
		} else if (wild) {
			d = some_n(d.size());
			write();
		}
	}
};
typedef Obj<MLPPVector> V;
typedef Obj<MLPPMatrix> M;
typedef Obj<MLPPTensor3> T3;

// what came back is a fresh object that holds this
template <class T>
static void returned(const char *on, const Ref<T> &r, Shape s, const F &d) {
	SAYS(r.is_valid(), "nothing came back");
	Obj<T> o;
	o.r = r;
	o.s = s;
	o.d = d;
	o.check(on);
}

static Shape shape_for(int dims, bool small) {
	Shape s;
	int top = small ? 3 : 4;
	s.x = 1 + (int)wchoose(top);
	if (dims > 1) s.y = 1 + (int)wchoose(top);
	if (dims > 2) s.z = 1 + (int)wchoose(top);
	return s;
}

enum { ADD, SUB, MUL, DIV, MAXI, MINI };
static float bin(int op, float a, float b) {
	switch (op) {
		case ADD: return a + b;
		case SUB: return a - b;
		case MUL: return a * b;
		case DIV: return a / b;
		case MAXI: return a > b ? a : b;
		default: return a < b ? a : b;
	}
}
static const char *bin_name[] = { "addition", "subtraction", "element-wise product", "element-wise division", "maximum", "minimum" };
static bool has_min(MLPPTensor3 *) { return false; }
template <class T>
static bool has_min(T *) { return true; }
enum { SQRT, ABSO, POW, SMUL, SADD, LOG, LOG10, EXP, ERF, CBRT, SIN, COS };
static const char *un_name[] = { "square root", "magnitude", "power", "scalar multiplication", "scalar addition", "logarithm", "decimal logarithm", "exponential", "error function", "cube root", "sine", "cosine" };
static double un(int op, float v, float k) {
	switch (op) {
		case SQRT: return std::sqrt((double)v);
		case ABSO: return std::fabs(v);
		case POW: return std::pow((double)v, k);
		case SMUL: return v * k;
		case SADD: return v + k;
		case LOG: return std::log((double)v);
		case LOG10: return std::log10((double)v);
		case EXP: return std::exp((double)v);
		case ERF: return std::erf((double)v);
		case CBRT: return std::cbrt((double)v);
		case SIN: return std::sin((double)v);
		default: return std::cos((double)v);
	}
}
#define FORM(NAME) \
	switch (form) { \
		case 0: t.NAME(b); break; \
		case 1: ret = t.NAME##n(b); break; \
		default: t.NAME##b(a, b); \
	} \
	break
template <class T>
static void call_bin(int op, int form, T &t, const Ref<T> &a, const Ref<T> &b, Ref<T> &ret) {
	switch (op) {
		case ADD: FORM(add);
		case SUB: FORM(sub);
		case MUL: FORM(hadamard_product);
		case DIV: FORM(division_element_wise);
		case MAXI: FORM(max);
		default:
			if constexpr (Kind<T>::dims < 3) FORM(min);
	}
}
#undef FORM
#define FORM(NAME, ...) \
	switch (form) { \
		case 0: t.NAME(__VA_ARGS__); break; \
		case 1: ret = t.NAME##n(__VA_ARGS__); break;
template <class T>
static void call_un(int op, int form, T &t, const Ref<T> &a, float k, Ref<T> &ret) {
	switch (op) {
		case SQRT: FORM(sqrt) default: t.sqrtb(a); } break;
		case ABSO: FORM(abs) default: t.absb(a); } break;
		case POW: FORM(exponentiate, k) default: t.exponentiateb(a, k); } break;
		case SMUL: FORM(scalar_multiply, k) default: t.scalar_multiplyb(k, a); } break;
		case SADD: FORM(scalar_add, k) default: t.scalar_addb(k, a); } break;
		default:
			if constexpr (Kind<T>::dims < 3) {
				switch (op) {
					case LOG: FORM(log) default: t.logb(a); } break;
					case LOG10: FORM(log10) default: t.log10b(a); } break;
					case EXP: FORM(exp) default: t.expb(a); } break;
					case ERF: FORM(erf) default: t.erfb(a); } break;
					case CBRT: FORM(cbrt) default: t.cbrtb(a); } break;
					case SIN: FORM(sin) default: t.sinb(a); } break;
					case COS: FORM(cos) default: t.cosb(a); } break;
				}
			}
	}
}
#undef FORM

// t = a op b in its three forms; the operands may be the target itself or each other
template <class T>
static void binary(Obj<T> &t, const Obj<T> &a, const Obj<T> &b, int op, int form) {
	if (op == MINI && !has_min((T *)nullptr)) op = MAXI;
	const char *on = bin_name[op];
	const Obj<T> &l = form == 2 ? a : t;
	Ref<T> ret;
	bool fits = l.s == b.s;
	F e;
	if (fits)
		for (size_t i = 0; i < l.d.size(); i++) e.push_back(bin(op, l.d[i], b.d[i]));
	Shape s = l.s;
	call_bin(op, form, *t.r.ptr(), a.r, b.r, ret);
	if (form == 1) {
		if (fits)
			returned(on, ret, s, e);
		else
			SAYS(ret.is_null(), "operands of different sizes gave a result");
	} else if (fits) {
		t.take(s, e);
	}
	t.check(on);
}
template <class T>
static void unary(Obj<T> &t, const Obj<T> &a, int op, int form) {
	const char *on = un_name[op];
	static const float powers[] = { 2, 1, 3, 0, 0.5f, -1 };
	float k = op == POW ? powers[wchoose(6)] : some();
	const Obj<T> &l = form == 2 ? a : t;
	Ref<T> ret;
	F before = l.d;
	Shape s = l.s;
	call_un(op, form, *t.r.ptr(), a.r, k, ret);
	if (form == 1) SAYS(ret.is_valid(), "nothing came back");
	T &out = form == 1 ? *ret.ptr() : *t.r.ptr();
	SAYS(Kind<T>::shape(out) == s, "the result has another size");
	F got;
	for (size_t i = 0; i < before.size(); i++) {
		float g = out[i];
		double e = un(op, before[i], k);
		bool exact = op == ABSO || op == SMUL || op == SADD;
		// the cube root is taken as a power, which negative numbers do not have
		if (!(op == CBRT && before[i] < 0)) SIM_CHECK(exact ? same_f(g, (float)e) : near_f(g, e, 1e-4), "contents", "%s of %g with %g is %g instead of %g (form %d)", on, before[i], k, g, e, form);
		got.push_back(g);
	}
	if (form != 1) t.take(s, got);
	t.check(on);
}
template <class T>
static void nothing_there(Obj<T> &t) {
	static const char *on = "an operand that is not there";
	Ref<T> none, ret;
	int op = (int)wchoose(has_min((T *)nullptr) ? 6 : 5);
	int form = (int)wchoose(3);
	switch (wchoose(5)) {
		case 0: call_bin(op, form, *t.r.ptr(), wflip(1, 2) ? t.r : none, none, ret); break;
		case 1: call_un((int)wchoose(has_min((T *)nullptr) ? 12 : 5), 2, *t.r.ptr(), none, 2, ret); break;
		case 2: Kind<T>::set_from(*t.r.ptr(), none); break;
		case 3: SAYS(!t.r->is_equal_approx(none), "it equals nothing"); break;
		default: call_bin(op, 2, *t.r.ptr(), none, t.r, ret);
	}
	SAYS(ret.is_null(), "a result came back");
	t.check(on);
}

// what all three have in common
template <class T>
static void common(std::vector<Obj<T>> &o) {
	typedef Kind<T> K;
	Obj<T> &t = o[wchoose(o.size())], &a = o[wchoose(o.size())], &b = o[wchoose(o.size())];
	T &r = *t.r.ptr();
	switch (weighted(ST_W0 + self(), { 14, 10, 2, 3, 3, 2, 2, 3, 3, 2, 2, 2 })) {
		case 0: binary(t, a, b, (int)wchoose(6), (int)wchoose(3)); break;
		case 1: unary(t, a, (int)wchoose(has_min((T *)nullptr) ? 12 : 5), (int)wchoose(3)); break;
		case 2: nothing_there(t); break;
		case 3: {
			static const char *on = "resizing";
			Shape s = wflip(1, 8) ? Shape() : shape_for(K::dims, K::dims == 3);
			Shape was = t.s;
			F had = t.d;
			K::resize(r, s);
			SAYS(K::shape(r) == s, "the size is another");
			t.s = s;
			t.d = some_n(K::volume(s));
			bool rows = K::dims == 1 || (was.x == s.x && (K::dims == 2 || was.y == s.y));
			if (rows)
				for (size_t i = 0; i < had.size() && i < t.d.size(); i++) {
					t.d[i] = had[i];
					SAYS(same_f(r[i], had[i]), "an element it keeps has changed");
				}
			t.write();
			break;
		}
		case 4: {
			K::set_from(r, a.r);
			t.take(a.s, F(a.d));
			t.check("a copy of another");
			break;
		}
		case 5: {
			K::set_from_r(r, *a.r.ptr());
			t.take(a.s, F(a.d));
			t.check("a copy of another");
			break;
		}
		case 6: {
			float k = some();
			r.fill(k);
			for (auto &v : t.d) v = k;
			t.check("filling");
			break;
		}
		case 7: {
			static const char *on = "reading it all";
			auto f = K::flat(r);
			auto p = K::pool(r);
			auto s = K::std_flat(r);
			SAYS(is_list(f, t.d) && is_list(p, t.d) && is_list(s, t.d) && is_bytes(K::bytes(r), t.d), "other elements");
			if (f.size()) {
				f.write[0] = 77;
				p.set(0, 77);
			}
			t.check(on);
			break;
		}
		case 8: {
			static const char *on = "a duplicate";
			Ref<T> d = r.duplicate_fast();
			returned(on, d, t.s, t.d);
			SAYS(d->is_equal_approx(t.r) && r.is_equal_approx(d), "it does not equal the original");
			if (t.d.size()) {
				size_t i = wchoose(t.d.size());
				(*d.ptr())[i] += 1;
				SAYS(!d->is_equal_approx(t.r) && !r.is_equal_approx(d), "it equals the original after a change");
				SAYS(d->is_equal_approx(t.r, 1.5), "it is further from the original than it is");
			}
			t.check(on);
			if (wflip(1, 2)) { // the duplicate takes its place
				t.r = r.duplicate_fast();
			}
			break;
		}
		case 9: {
			static const char *on = "comparing";
			bool eq = t.s == a.s;
			for (size_t i = 0; eq && i < t.d.size(); i++) eq = same_f(t.d[i], a.d[i]);
			SAYS(t.r->is_equal_approx(a.r) == eq, "it is wrong about which are equal");
			break;
		}
		case 10: { // through an array of numbers, as scripts store it
			static const char *on = "stored data";
			if constexpr (K::dims == 1) {
				PoolRealArray p = r.get_data();
				SAYS(is_list(p, t.d), "other elements");
				a.r->set_data(p);
			} else {
				Array p = r.get_data();
				a.r->set_data(p);
				if (wflip(1, 4)) { // one number short
					Array q = p.duplicate(true);
					PoolRealArray n = q[1];
					if (n.size()) {
						n.remove(n.size() - 1);
						q[1] = n;
						a.r->set_data(q);
					}
				}
			}
			a.take(t.s, F(t.d));
			a.check(on);
			t.check(on);
			break;
		}
		default: {
			static const char *on = "emptying";
			bool all = wflip(1, 2);
			if (all)
				r.clear();
			else
				r.reset();
			t.take(Shape(), F());
			t.check(on);
			if (wflip(3, 4)) {
				t.s = shape_for(K::dims, K::dims == 3);
				t.d = some_n(K::volume(t.s));
				K::resize(r, t.s);
				t.write();
			}
		}
	}
}

// ---- vectors ----
static void vectors(std::vector<V> &v, std::vector<M> &m) {
	V &t = v[wchoose(v.size())], &a = v[wchoose(v.size())], &b = v[wchoose(v.size())];
	M &mm = m[wchoose(m.size())];
	MLPPVector &r = *t.r.ptr();
	int n = t.s.x;
	const char *on = "";
	switch (weighted(ST_W0 + self(), { 4, 3, 3, 3, 3, 3, 2, 3, 3, 3, 2, 3, 3, 3, 4, 3, 3, 3, 2 })) {
		case 0: {
			on = "adding at the back";
			float k = some();
			r.push_back(n && wflip(1, 4) ? (k = t.d[0], r[0]) : k);
			t.d.push_back(k);
			break;
		}
		case 1: {
			on = "appending a vector";
			r.append_mlpp_vector(a.r);
			F e = a.d;
			t.d.insert(t.d.end(), e.begin(), e.end());
			break;
		}
		case 2: {
			on = "removing a place";
			int i = (int)wchoose(n + 2) - (wflip(1, 12) ? 1 : 0);
			bool un = wflip(1, 3);
			if (un)
				r.remove_unordered(i);
			else
				r.remove(i);
			if (i >= 0 && i < n) {
				if (un)
					t.d[i] = t.d[n - 1], t.d.pop_back();
				else
					t.d.erase(t.d.begin() + i);
			}
			break;
		}
		case 3: {
			on = "erasing a value";
			float k = some();
			bool own = n && wflip(1, 3);
			if (own) k = t.d[wchoose(n)];
			size_t at = std::find(t.d.begin(), t.d.end(), k) - t.d.begin();
			r.erase(own ? r[(int)at] : k);
			if (at < t.d.size()) t.d.erase(t.d.begin() + at);
			break;
		}
		case 4: {
			on = "erasing every one of a value";
			float k = some();
			bool own = n && wflip(1, 3);
			size_t at = n ? wchoose(n) : 0;
			if (own) k = t.d[at];
			int got = r.erase_multiple_unordered(own ? r[(int)at] : k);
			F e;
			for (float x : t.d)
				if (x != k) e.push_back(x);
			SIM_CHECK(got == (int)(t.d.size() - e.size()), "contents", "%s: %d were erased instead of %zu", on, got, t.d.size() - e.size());
			SAYS(r.size() == (int)e.size(), "the size is another");
			F g(r.ptr(), r.ptr() + r.size()), gs = g;
			std::sort(gs.begin(), gs.end());
			std::sort(e.begin(), e.end());
			SAYS(gs == e, "other elements are left");
			t.d = g;
			break;
		}
		case 5: {
			on = "inserting";
			int i = (int)wchoose(n + 2) - (wflip(1, 12) ? 1 : 0);
			float k = some();
			r.insert(i, k);
			if (i >= 0 && i <= n) t.d.insert(t.d.begin() + i, k);
			break;
		}
		case 6: {
			on = "turning round";
			r.invert();
			std::reverse(t.d.begin(), t.d.end());
			break;
		}
		case 7: {
			on = "sorting";
			r.sort();
			std::sort(t.d.begin(), t.d.end());
			if (wflip(1, 2)) {
				float k = some();
				r.ordered_insert(k);
				t.d.insert(std::upper_bound(t.d.begin(), t.d.end(), k), k);
			}
			break;
		}
		case 8: {
			on = "finding";
			float k = some();
			int from = (int)wchoose(n + 2);
			int e = -1;
			for (int i = from; i < n && e < 0; i++)
				if (t.d[i] == k) e = i;
			SAYS(r.find(k, from) == e, "another place");
			int i = (int)wchoose(n + 2) - 1;
			SAYS(same_f(r.element_get(i), i >= 0 && i < n ? t.d[i] : 0), "another element");
			r.element_set(i, k);
			if (i >= 0 && i < n) t.d[i] = k;
			break;
		}
		case 9: {
			on = "taking over a list";
			F e = some_n(wchoose(6));
			switch (wchoose(3)) {
				case 0: r.set_from_vector(vec_of(e)); break;
				case 1: r.set_from_pool_vector(pool_of(e)); break;
				default: r.set_from_std_vector(e);
			}
			t.d = e;
			break;
		}
		case 10: {
			on = "a new vector of a list";
			F e = some_n(1 + wchoose(5));
			switch (wchoose(5)) {
				case 0: t.r = Ref<MLPPVector>(memnew(MLPPVector(vec_of(e)))); break;
				case 1: t.r = Ref<MLPPVector>(memnew(MLPPVector(pool_of(e)))); break;
				case 2: t.r = Ref<MLPPVector>(memnew(MLPPVector(e.data(), (int)e.size()))); break;
				case 3: t.r = Ref<MLPPVector>(memnew(MLPPVector(e))); break;
				default:
					e = a.d;
					t.r = Ref<MLPPVector>(memnew(MLPPVector(*a.r.ptr())));
			}
			t.d = e;
			break;
		}
		case 11: {
			on = "joining vectors";
			Vector<Ref<MLPPVector>> list;
			F e;
			size_t k = wchoose(4);
			for (size_t i = 0; i < k; i++) {
				V &o = v[wchoose(v.size())];
				list.push_back(o.r);
				e.insert(e.end(), o.d.begin(), o.d.end());
			}
			if (wflip(1, 2)) {
				returned(on, r.flatten_vectorsn(list), Shape{ (int)e.size() }, e);
			} else {
				r.flatten_vectors(list);
				t.d = e;
			}
			break;
		}
		case 12: {
			on = "product with a vector";
			double e = 0;
			bool fits = t.s == a.s;
			for (int i = 0; fits && i < n; i++) e += t.d[i] * a.d[i];
			SAYS(same_f(r.dot(a.r), (float)e), "the dot product is another");
			if (n == 3 && a.s.x == 3) {
				F c = { t.d[1] * a.d[2] - t.d[2] * a.d[1], t.d[2] * a.d[0] - t.d[0] * a.d[2], t.d[0] * a.d[1] - t.d[1] * a.d[0] };
				returned(on, r.cross(a.r), Shape{ 3 }, c);
			}
			F o;
			for (float x : t.d)
				for (float y : a.d) o.push_back(x * y);
			if (n && a.s.x) returned(on, r.outer_product(a.r), Shape{ a.s.x, n }, o);
			break;
		}
		case 13: {
			on = "a vector of one value";
			int k = (int)wchoose(7) - 3, c = 1 + (int)wchoose(4);
			switch (wchoose(6)) {
				case 0: returned(on, r.vecn_zero(c), Shape{ c }, F(c, 0.f)); break;
				case 1: returned(on, r.vecn_one(c), Shape{ c }, F(c, 1.f)); break;
				case 2: returned(on, r.vecn_full(c, k), Shape{ c }, F(c, (float)k)); break;
				case 3: returned(on, MLPPVector::create_vec_zero(c), Shape{ c }, F(c, 0.f)); break;
				case 4: returned(on, MLPPVector::create_vec_one(c), Shape{ c }, F(c, 1.f)); break;
				default: returned(on, MLPPVector::create_vec_full(c, k), Shape{ c }, F(c, (float)k));
			}
			break;
		}
		case 14: {
			on = "the extremes";
			if (n) {
				auto hi = std::max_element(t.d.begin(), t.d.end());
				auto lo = std::min_element(t.d.begin(), t.d.end());
				SAYS(r.max_element() == *hi && r.max_element_index() == hi - t.d.begin(), "the greatest is another");
				SAYS(r.min_element() == *lo && r.min_element_index() == lo - t.d.begin(), "the least is another");
			} else {
				SAYS(r.max_element_index() == -1 && r.min_element_index() == -1, "nothing has an extreme");
			}
			break;
		}
		case 15: {
			on = "lengths";
			double q = 0, s = 0, d = 0;
			for (float x : t.d) q += x * x, s += x;
			bool fits = t.s == a.s;
			for (int i = 0; fits && i < n; i++) d += (t.d[i] - a.d[i]) * (t.d[i] - a.d[i]);
			SAYS(near_f(r.norm_2(), std::sqrt(q), 1e-5) && same_f(r.norm_sq(), (float)q), "the norm is another");
			SAYS(same_f(r.sum_elements(), (float)s), "the sum is another");
			SAYS(near_f(r.euclidean_distance(a.r), std::sqrt(d), 1e-5) && same_f(r.euclidean_distance_squared(a.r), (float)d), "the distance is another");
			break;
		}
		case 16: {
			on = "taking off rows";
			int form = (int)wchoose(3);
			V &l = form == 2 ? a : t;
			bool fits = mm.s.x == l.s.x;
			F e = l.d;
			if (fits)
				for (int i = 0; i < mm.s.y; i++)
					for (int j = 0; j < mm.s.x; j++) e[j] -= mm.at(i, j);
			if (form == 0) {
				r.subtract_matrix_rows(mm.r);
				if (fits) t.d = e;
			} else if (form == 1) {
				Ref<MLPPVector> ret = r.subtract_matrix_rowsn(mm.r);
				if (fits) returned(on, ret, t.s, e);
			} else {
				r.subtract_matrix_rowsb(a.r, mm.r);
				if (fits) t.d = e;
			}
			break;
		}
		case 17: {
			on = "a diagonal matrix";
			F e(n * n, 0.f);
			for (int i = 0; i < n; i++) e[i * n + i] = t.d[i];
			if (n) returned(on, r.diagnm(), Shape{ n, n }, e);
			break;
		}
		default: {
			on = "as text";
			String s = "[MLPPVector: ";
			for (float x : t.d) s += String::num(x) + " ";
			SAYS(r.to_string() == s + "]", "another text");
		}
	}
	t.s = Shape{ (int)t.d.size() };
	t.check(on);
}

// ---- matrices ----
static double minor_det(const std::vector<F> &m) {
	size_t n = m.size();
	if (n == 0) return 1;
	double s = 0;
	for (size_t c = 0; c < n; c++) {
		std::vector<F> sub;
		for (size_t i = 1; i < n; i++) {
			F row;
			for (size_t j = 0; j < n; j++)
				if (j != c) row.push_back(m[i][j]);
			sub.push_back(row);
		}
		s += (c % 2 ? -1.0 : 1.0) * m[0][c] * minor_det(sub);
	}
	return s;
}
static std::vector<F> rows_of(const M &m) {
	std::vector<F> r;
	for (int y = 0; y < m.s.y; y++) r.emplace_back(m.d.begin() + y * m.s.x, m.d.begin() + (y + 1) * m.s.x);
	return r;
}
static bool product(const M &a, const M &b, Shape &s, F &e) {
	if (a.s.x != b.s.y) return false;
	s = Shape{ b.s.x, a.s.y, 0 };
	e.clear();
	for (int i = 0; i < a.s.y; i++)
		for (int j = 0; j < b.s.x; j++) {
			float c = 0;
			for (int k = 0; k < a.s.x; k++) c += a.at(i, k) * b.at(k, j);
			e.push_back(c);
		}
	return true;
}
static void kronecker(const M &a, const M &b, Shape &s, F &e) {
	s = Shape{ a.s.x * b.s.x, a.s.y * b.s.y, 0 };
	e.clear();
	for (int i = 0; i < a.s.y; i++)
		for (int k = 0; k < b.s.y; k++)
			for (int j = 0; j < a.s.x; j++)
				for (int l = 0; l < b.s.x; l++) e.push_back(a.at(i, j) * b.at(k, l));
}
static void transposed(const M &a, Shape &s, F &e) {
	s = Shape{ a.s.y, a.s.x, 0 };
	e.clear();
	for (int x = 0; x < a.s.x; x++)
		for (int y = 0; y < a.s.y; y++) e.push_back(a.at(y, x));
}
static bool close_to(const char *on, const Ref<MLPPMatrix> &r, Shape s, const std::vector<double> &e, double tol) {
	SAYS(r.is_valid() && r->size() == Size2i(s.x, s.y), "a result of another size");
	for (size_t i = 0; i < e.size(); i++)
		if (!near_f(r->element_get_index((int)i), e[i], tol)) {
			SIM_CHECK(false, "contents", "%s: element %zu is %g instead of %g", on, i, r->element_get_index((int)i), e[i]);
			return false;
		}
	return true;
}
static std::vector<double> inverted(const M &m, double det) {
	int n = m.s.x;
	auto rows = rows_of(m);
	std::vector<double> e(n * n);
	for (int i = 0; i < n; i++)
		for (int j = 0; j < n; j++) {
			std::vector<F> sub;
			for (int y = 0; y < n; y++) {
				if (y == i) continue;
				F row;
				for (int x = 0; x < n; x++)
					if (x != j) row.push_back(rows[y][x]);
				sub.push_back(row);
			}
			e[j * n + i] = ((i + j) % 2 ? -1.0 : 1.0) * minor_det(sub) / det;
		}
	return e;
}
// a target for a result: one of the handles, which may be the operand, or a new object
static Ref<Image> image_of(int w, int h, std::vector<uint8_t> &px) {
	PoolByteArray arr;
	for (int i = 0; i < w * h * 4; i++) {
		px.push_back(wflip(1, 2) ? 255 : (uint8_t)wchoose(256));
		arr.push_back(px.back());
	}
	Ref<Image> img;
	img.instance();
	img->create(w, h, false, Image::FORMAT_RGBA8, arr);
	return img;
}
static void matrices(std::vector<M> &m, std::vector<V> &v) {
	M &t = m[wchoose(m.size())], &a = m[wchoose(m.size())], &b = m[wchoose(m.size())];
	V &va = v[wchoose(v.size())], &vb = v[wchoose(v.size())];
	MLPPMatrix &r = *t.r.ptr();
	const char *on = "";
	int w = t.s.x, h = t.s.y;
	Shape s;
	F e;
	bool square = w == h && w > 0;
	switch (weighted(ST_W0 + self(), { 4, 4, 4, 4, 6, 4, 4, 3, 4, 4, 4, 4, 4, 3, 3, 3, 3, 3, 3, 2, 3, 2 })) {
		case 0: {
			on = "adding a row";
			if (w == 0 && h) { // rows of nothing that become rows of something hold nothing in particular
				r.resize(Size2i());
				t.take(Shape{}, F());
			}
			F row = some_n(w && wflip(5, 6) ? w : 1 + wchoose(4));
			bool fits = w == 0 || w == (int)row.size();
			switch (wchoose(3)) {
				case 0: r.row_add(vec_of(row)); break;
				case 1: r.row_add_pool_vector(pool_of(row)); break;
				default:
					row = va.d;
					fits = row.size() && (w == 0 || w == (int)row.size());
					r.row_add_mlpp_vector(va.r);
			}
			if (fits) {
				t.s.x = (int)row.size();
				t.s.y++;
				t.d.insert(t.d.end(), row.begin(), row.end());
			}
			break;
		}
		case 1: {
			on = "adding rows";
			if (w == 0 && h) { // rows of nothing that become rows of something hold nothing in particular
				r.resize(Size2i());
				t.take(Shape{}, F());
			}
			r.rows_add_mlpp_matrix(a.r);
			if (a.d.size() && (w == 0 || w == a.s.x)) {
				F more = a.d;
				int n = a.s.y;
				t.s.x = a.s.x;
				t.s.y += n;
				t.d.insert(t.d.end(), more.begin(), more.end());
			}
			break;
		}
		case 2: {
			on = "removing a row";
			int i = (int)wchoose(h + 2) - (wflip(1, 12) ? 1 : 0);
			bool un = wflip(1, 2);
			if (un)
				r.row_remove_unordered(i);
			else
				r.row_remove(i);
			if (i >= 0 && i < h) {
				if (un) std::copy(t.d.end() - w, t.d.end(), t.d.begin() + i * w);
				size_t at = un ? h - 1 : i;
				t.d.erase(t.d.begin() + at * w, t.d.begin() + (at + 1) * w);
				t.s.y--;
			}
			break;
		}
		case 3: {
			on = "a row";
			int i = (int)wchoose(h + 2) - 1;
			int j = (int)wchoose(h + 2) - 1;
			bool ok = i >= 0 && i < h;
			F row;
			if (ok) row.assign(t.d.begin() + i * w, t.d.begin() + (i + 1) * w);
			auto f = r.row_get_vector(i);
			auto p = r.row_get_pool_vector(i);
			auto q = r.row_get_mlpp_vector(i);
			SAYS(is_list(f, row) && is_list(p, row), "another row");
			SAYS(ok ? q.is_valid() && is_list(*q.ptr(), row) : q.is_null(), "another row");
			r.row_get_into_mlpp_vector(i, va.r);
			if (ok) va.take(Shape{ (int)row.size() }, row);
			va.check(on);
			r.row_swap(i, j);
			if (ok && j >= 0 && j < h && i != j) std::swap_ranges(t.d.begin() + i * w, t.d.begin() + (i + 1) * w, t.d.begin() + j * w);
			t.check(on);
			F n = some_n(wflip(5, 6) ? w : 1 + wchoose(4));
			bool fits = ok && (int)n.size() == w;
			switch (wchoose(4)) {
				case 0: r.row_set_vector(i, vec_of(n)); break;
				case 1: r.row_set_pool_vector(i, pool_of(n)); break;
				case 2:
					if (n.size()) r.set_row_std_vector(i, n);
					break;
				default:
					n = vb.d;
					fits = ok && (int)n.size() == w;
					r.row_set_mlpp_vector(i, vb.r);
			}
			if (fits) std::copy(n.begin(), n.end(), t.d.begin() + i * w);
			break;
		}
		case 4: {
			on = "matrix product";
			int form = (int)wchoose(3);
			bool fits = product(form == 2 ? a : t, b, s, e);
			if (form == 0)
				r.mult(b.r);
			else if (form == 2)
				r.multb(a.r, b.r);
			else {
				Ref<MLPPMatrix> ret = r.multn(b.r);
				if (fits)
					returned(on, ret, s, e);
				else
					SAYS(ret.is_null(), "matrices that do not fit gave a result");
			}
			if (fits && form != 1) t.take(s, e);
			break;
		}
		case 5: {
			on = "Kronecker product";
			int form = (int)wchoose(3);
			const M &l = form == 2 ? a : t;
			if (l.d.empty() || b.d.empty() || l.d.size() * b.d.size() > 100) break;
			kronecker(l, b, s, e);
			if (form == 0)
				r.kronecker_product(b.r);
			else if (form == 2)
				r.kronecker_productb(a.r, b.r);
			else
				returned(on, r.kronecker_productn(b.r), s, e);
			if (form != 1) t.take(s, e);
			break;
		}
		case 6: {
			on = "transposing";
			int form = (int)wchoose(3);
			transposed(form == 2 ? a : t, s, e);
			if (form == 0)
				r.transpose();
			else if (form == 2)
				r.transposeb(a.r);
			else
				returned(on, r.transposen(), s, e);
			if (form != 1) t.take(s, e);
			break;
		}
		case 7: {
			on = "a power";
			if (!square) break;
			int k = (int)wchoose(5);
			M p;
			p.s = t.s;
			p.d.assign(w * w, 0.f);
			for (int i = 0; i < w; i++) p.d[i * w + i] = 1;
			for (int i = 0; i < k; i++) {
				product(p, t, s, e);
				p.take(s, e);
			}
			returned(on, r.matrix_powern(k), p.s, p.d);
			break;
		}
		case 8: {
			on = "determinant and inverse";
			double tr = 0;
			for (int i = 0; i < std::min(w, h); i++) tr += t.at(i, i);
			SAYS(same_f(r.trace(), (float)tr), "the trace is another");
			if (!square || w > 4) break;
			double d = minor_det(rows_of(t));
			SAYS(near_f(r.det(), d, 1e-4) && near_f(b.r->detb(t.r, w), d, 1e-4), "the determinant is another");
			int k = 1 + (int)wchoose(w);
			{
				std::vector<F> lead;
				for (int i = 0; i < k; i++) lead.emplace_back(t.d.begin() + i * w, t.d.begin() + i * w + k);
				SAYS(near_f(r.det(k), minor_det(lead), 1e-4), "the leading minor is another");
			}
			auto adj = inverted(t, 1);
			close_to(on, r.adjoint(), t.s, adj, 1e-4);
			if (std::fabs(d) < 0.5) break;
			auto inv = inverted(t, d);
			close_to(on, r.inverse(), t.s, inv, 1e-3);
			close_to("inverse by powers", r.matrix_powern(-1), t.s, inv, 1e-3);
			double na = 0, ni = 0;
			for (float x : t.d) na += (double)x * x;
			for (double x : inv) ni += x * x;
			if (na * ni < 50.0 * 50.0) close_to("pseudo-inverse", r.pinverse(), t.s, inv, 3e-2); // its product with itself squares the condition
			if (va.s.x == w) {
				Ref<MLPPVector> x = r.solve(va.r);
				SAYS(x.is_valid() && x->size() == w, "no solution");
				for (int i = 0; i < w; i++) {
					double sum = 0;
					for (int j = 0; j < w; j++) sum += inv[i * w + j] * va.d[j];
					SAYS(near_f((*x.ptr())[i], sum, 1e-3), "the solution does not solve it");
				}
			}
			break;
		}
		case 9: {
			on = "inverse and adjoint into another";
			if (!square || w > 4) break;
			double d = minor_det(rows_of(t));
			bool inv = wflip(1, 2) && std::fabs(d) > 0.5;
			Shape ts = t.s;
			auto want = inverted(t, inv ? d : 1);
			if (inv)
				r.inverseo(b.r);
			else
				r.adjointo(b.r);
			close_to(on, b.r, ts, want, 1e-3);
			F got;
			for (int i = 0; i < w * w; i++) got.push_back((*b.r.ptr())[i]);
			b.take(ts, got);
			b.check(on);
			b.tame();
			break;
		}
		case 10: {
			on = "minor";
			if (!square || w > 4 || w < 2) break;
			int i = (int)wchoose(h), j = (int)wchoose(w);
			bool into = wflip(1, 2);
			Ref<MLPPMatrix> c;
			F was = t.d;
			if (into) {
				r.cofactoro(w, i, j, b.r);
				c = b.r;
			} else {
				c = r.cofactor(w, i, j);
			}
			SAYS(c.is_valid() && c->size() == Size2i(w, h), "the size is another");
			for (int y = 0; y < h - 1; y++)
				for (int x = 0; x < w - 1; x++) SAYS(c->element_get(y, x) == was[(y + (y >= i)) * w + x + (x >= j)], "another element");
			if (c == b.r) { // the last row and column are nobody's
				b.s = t.s;
				b.d = some_n(w * h);
				b.write();
			}
			break;
		}
		case 11: {
			on = "a matrix of one value";
			int k = (int)wchoose(7) - 3, n = 1 + (int)wchoose(4), mm = 1 + (int)wchoose(4);
			F id(n * n, 0.f);
			for (int i = 0; i < n; i++) id[i * n + i] = 1;
			switch (wchoose(6)) {
				case 0: returned(on, r.matn_zero(n, mm), Shape{ mm, n }, F(n * mm, 0.f)); break;
				case 1: returned(on, r.matn_one(n, mm), Shape{ mm, n }, F(n * mm, 1.f)); break;
				case 2: returned(on, r.matn_full(n, mm, k), Shape{ mm, n }, F(n * mm, (float)k)); break;
				case 3: returned(on, r.identity_mat(n), Shape{ n, n }, id); break;
				case 4: returned(on, MLPPMatrix::create_identity_mat(n), Shape{ n, n }, id); break;
				default: {
					F own(w * h, 0.f);
					for (int i = 0; i < std::min(w, h); i++) own[i * w + i] = 1;
					if (wflip(1, 2)) {
						returned(on, r.identityn(), t.s, own);
					} else {
						r.identity();
						t.d = own;
					}
				}
			}
			break;
		}
		case 12: {
			on = "product with a vector";
			bool fits = w >= va.s.x;
			F out;
			for (int i = 0; fits && i < h; i++) {
				float c = 0;
				for (int k = 0; k < va.s.x; k++) c += t.at(i, k) * va.d[k];
				out.push_back(c);
			}
			if (wflip(1, 2)) {
				Ref<MLPPVector> ret = r.mult_vec(va.r);
				if (fits)
					returned(on, ret, Shape{ h }, out);
				else
					SAYS(ret.is_null(), "a vector that does not fit gave a result");
			} else {
				r.mult_veco(va.r, vb.r);
				if (fits) vb.take(Shape{ h }, out);
				vb.check(on);
				vb.tame();
			}
			break;
		}
		case 13: {
			on = "adding a vector to each row";
			int form = (int)wchoose(3);
			const M &l = form == 2 ? a : t;
			bool fits = l.s.x == va.s.x;
			e = l.d;
			s = l.s;
			if (fits)
				for (int i = 0; i < s.y; i++)
					for (int j = 0; j < s.x; j++) e[i * s.x + j] += va.d[j];
			if (form == 0)
				r.add_vec(va.r);
			else if (form == 2)
				r.add_vecb(a.r, va.r);
			else {
				Ref<MLPPMatrix> ret = r.add_vecn(va.r);
				if (fits)
					returned(on, ret, s, e);
				else
					SAYS(ret.is_null(), "a vector that does not fit gave a result");
			}
			if (fits && form != 1) t.take(s, e);
			break;
		}
		case 14: {
			on = "outer product";
			if (va.d.empty() || vb.d.empty()) break;
			for (float x : va.d)
				for (float y : vb.d) e.push_back(x * y);
			s = Shape{ vb.s.x, va.s.x };
			if (wflip(1, 2)) {
				returned(on, r.outer_productn(va.r, vb.r), s, e);
			} else {
				r.outer_product(va.r, vb.r);
				t.take(s, e);
			}
			break;
		}
		case 15: {
			on = "the diagonal";
			bool zero = wflip(1, 2), ret = wflip(1, 2);
			e = zero ? F(t.d.size(), 0.f) : t.d;
			for (int i = 0; i < std::min(std::min(w, h), va.s.x); i++) e[i * w + i] = va.d[i];
			if (ret) {
				returned(on, zero ? r.diagonal_zeroedn(va.r) : r.diagonal_setn(va.r), t.s, e);
			} else {
				if (zero)
					r.diagonal_zeroed(va.r);
				else
					r.diagonal_set(va.r);
				t.d = e;
			}
			break;
		}
		case 16: {
			on = "flattening";
			returned(on, r.flatten(), Shape{ w * h }, t.d);
			r.flatteno(va.r);
			va.take(Shape{ w * h }, t.d);
			va.check(on);
			break;
		}
		case 17: {
			on = "taking over lists";
			int n = 1 + (int)wchoose(3), k = 1 + (int)wchoose(4);
			if (wflip(1, 8)) n = 0;
			F all = some_n(n * k);
			Vector<Vector<real_t>> lists;
			std::vector<std::vector<real_t>> stds;
			Array arr, arr_v;
			Vector<Ref<MLPPVector>> vecs;
			for (int i = 0; i < n; i++) {
				F row(all.begin() + i * k, all.begin() + (i + 1) * k);
				lists.push_back(vec_of(row));
				stds.push_back(row);
				arr.push_back(pool_of(row));
				Ref<MLPPVector> o(memnew(MLPPVector(row)));
				vecs.push_back(o);
				arr_v.push_back(o.get_ref_ptr());
			}
			switch (wchoose(6)) {
				case 0: r.set_from_vectors(lists); break;
				case 1: r.set_from_std_vectors(stds); break;
				case 2: r.set_from_arrays(arr); break;
				case 3: r.set_from_mlpp_vectors(vecs); break;
				case 4: r.set_from_mlpp_vectors_array(arr_v); break;
				default:
					if (n) r.set_from_ptr(all.data(), n, k);
					else r.reset();
			}
			t.take(n ? Shape{ k, n } : Shape(), all);
			break;
		}
		case 18: {
			on = "a new matrix";
			int n = 1 + (int)wchoose(3), k = 1 + (int)wchoose(4);
			F all = some_n(n * k);
			Vector<Vector<real_t>> lists;
			std::vector<std::vector<real_t>> stds;
			Array arr;
			for (int i = 0; i < n; i++) {
				F row(all.begin() + i * k, all.begin() + (i + 1) * k);
				lists.push_back(vec_of(row));
				stds.push_back(row);
				arr.push_back(pool_of(row));
			}
			s = Shape{ k, n };
			MLPPMatrix *p;
			switch (wchoose(5)) {
				case 0: p = memnew(MLPPMatrix(lists)); break;
				case 1: p = memnew(MLPPMatrix(stds)); break;
				case 2: p = memnew(MLPPMatrix(arr)); break;
				case 3: p = memnew(MLPPMatrix(all.data(), n, k)); break;
				default:
					p = memnew(MLPPMatrix(*a.r.ptr()));
					s = a.s;
					all = a.d;
			}
			t.r = Ref<MLPPMatrix>(p);
			t.take(s, all);
			SAYS(t.r->to_std_vector() == rows_of(t), "its rows are others");
			break;
		}
		case 19: {
			on = "rotating";
			int axis = (int)wchoose(4) - 1;
			int n = axis < 0 ? 2 : 3;
			float th = (float)((int)wchoose(13) - 6) * 0.5f;
			double c = std::cos((double)th), si = std::sin((double)th);
			std::vector<double> R;
			if (axis < 0) R = { c, -si, si, c };
			if (axis == 0) R = { 1, 0, 0, 0, c, -si, 0, si, c };
			if (axis == 1) R = { c, 0, si, 0, 1, 0, -si, 0, c };
			if (axis == 2) R = { c, -si, 0, si, c, 0, 0, 0, 1 };
			close_to(on, r.create_rotation_matrix(th, axis), Shape{ n, n }, R, 1e-5);
			int form = (int)wchoose(3);
			const M &l = form == 2 ? a : t;
			std::vector<double> want;
			bool fits = l.s.x == n && l.s.y > 0;
			if (l.s.x != n) fits = false;
			if (fits)
				for (int i = 0; i < l.s.y; i++)
					for (int j = 0; j < n; j++) {
						double q = 0;
						for (int k = 0; k < n; k++) q += l.at(i, k) * R[k * n + j];
						want.push_back(q);
					}
			s = l.s;
			if (form == 1) {
				Ref<MLPPMatrix> ret = r.rotaten(th, axis);
				if (fits) close_to(on, ret, s, want, 1e-4);
			} else {
				if (l.s.x == n && !fits) break;
				if (form == 0)
					r.rotate(th, axis);
				else
					r.rotateb(a.r, th, axis);
				if (fits) {
					close_to(on, t.r, s, want, 1e-4);
					t.s = s;
					t.d.clear();
					for (size_t i = 0; i < want.size(); i++) t.d.push_back(r[(int)i]);
				}
			}
			break;
		}
		case 20: {
			on = "eigenvalues";
			if (!square || w > 4) break;
			M sym;
			sym.s = t.s;
			transposed(t, s, e);
			for (size_t i = 0; i < e.size(); i++) sym.d.push_back(t.d[i] + e[i]);
			sym.r.instance();
			sym.r->resize(Size2i(w, w));
			sym.write();
			MLPPMatrix::EigenResult res = wflip(1, 2) ? sym.r->eigen() : r.eigenb(sym.r);
			SAYS(res.eigen_values.is_valid() && res.eigen_vectors.is_valid() && res.eigen_values->size() == Size2i(w, w) && res.eigen_vectors->size() == Size2i(w, w), "they did not come back");
			double scale = 1;
			for (float x : sym.d) scale = std::max(scale, (double)std::fabs(x));
			for (int c = 0; c < w; c++) {
				double l = res.eigen_values->element_get(c, c);
				if (c) SAYS(l <= res.eigen_values->element_get(c - 1, c - 1) + 1e-3 * scale, "they are not in order");
				for (int i = 0; i < w; i++) {
					double q = 0;
					for (int k = 0; k < w; k++) q += sym.at(i, k) * res.eigen_vectors->element_get(k, c);
					SIM_CHECK(std::fabs(q - l * res.eigen_vectors->element_get(i, c)) < 1e-2 * scale, "contents", "%s: the matrix does not scale eigenvector %d by eigenvalue %g", on, c, l);
				}
				for (int o = 0; o <= c; o++) {
					double q = 0;
					for (int k = 0; k < w; k++) q += res.eigen_vectors->element_get(k, c) * res.eigen_vectors->element_get(k, o);
					SAYS(std::fabs(q - (o == c)) < 1e-3, "the eigenvectors are not orthonormal");
				}
			}
			sym.check(on);
			break;
		}
		default: {
			on = "covariance";
			if (h < 1 || w < 2 || t.d.size() > 24) break;
			std::vector<double> want;
			for (int i = 0; i < h; i++)
				for (int j = 0; j < h; j++) {
					double mi = 0, mj = 0, q = 0;
					for (int k = 0; k < w; k++) mi += t.at(i, k), mj += t.at(j, k);
					mi /= w;
					mj /= w;
					for (int k = 0; k < w; k++) q += (t.at(i, k) - mi) * (t.at(j, k) - mj);
					want.push_back(q / (w - 1));
				}
			close_to(on, r.cov(), Shape{ h, h }, want, 1e-3);
			Ref<MLPPMatrix> out;
			out.instance();
			r.covo(out);
			close_to(on, out, Shape{ h, h }, want, 1e-3);
		}
	}
	t.check(on);
}
// matrices and images, elements and text
static void matrix_views(std::vector<M> &m) {
	M &t = m[wchoose(m.size())];
	MLPPMatrix &r = *t.r.ptr();
	const char *on = "";
	int w = t.s.x, h = t.s.y;
	switch (wchoose(3)) {
		case 0: {
			on = "an element";
			int y = (int)wchoose(h + 2) - 1, x = (int)wchoose(w + 2) - 1;
			float k = some();
			bool ok = y >= 0 && y < h && x >= 0 && x < w;
			SAYS(same_f(r.element_get(y, x), ok ? t.at(y, x) : 0), "another element");
			r.element_set(y, x, k);
			if (ok) t.d[y * w + x] = k;
			t.check(on);
			int i = (int)wchoose(t.d.size() + 2) - 1;
			ok = i >= 0 && i < (int)t.d.size();
			k = some();
			SAYS(same_f(r.element_get_index(i), ok ? t.d[i] : 0), "another element");
			r.element_set_index(i, k);
			if (ok) t.d[i] = k;
			break;
		}
		case 1: {
			on = "as text";
			String s = "[MLPPMatrix: \n";
			for (int y = 0; y < h; y++) {
				s += "  [ ";
				for (int x = 0; x < w; x++) s += String::num(t.at(y, x)) + " ";
				s += "]\n";
			}
			SAYS(r.to_string() == s + "]", "another text");
			break;
		}
		default: {
			on = "as an image";
			std::vector<uint8_t> px;
			int iw = 1 + (int)wchoose(3), ih = 1 + (int)wchoose(3), c = (int)wchoose(4);
			Ref<Image> img = image_of(iw, ih, px);
			r.set_from_image(img, c);
			t.s = Shape{ iw, ih };
			t.d.clear();
			for (int i = 0; i < iw * ih; i++) {
				SAYS(i < r.data_size() && near_f(r[i], px[i * 4 + c] / 255.0, 1e-5), "another colour");
				t.d.push_back(r[i]);
			}
			t.check(on);
			Ref<Image> back = r.get_as_image();
			SAYS(back.is_valid() && back->get_width() == iw && back->get_height() == ih, "an image of another size");
			back->lock();
			for (int y = 0; y < ih; y++)
				for (int x = 0; x < iw; x++) SAYS(std::fabs(back->get_pixel(x, y).r - t.at(y, x)) < 0.005, "another colour comes back");
			back->unlock();
		}
	}
	t.check(on);
}

// ---- tensors ----
static F slice_of(const T3 &t, char axis, int i, Shape &s) {
	F e;
	if (axis == 'z') {
		s = Shape{ t.s.x, t.s.y };
		for (int y = 0; y < t.s.y; y++)
			for (int x = 0; x < t.s.x; x++) e.push_back(t.at(i, y, x));
	} else if (axis == 'y') {
		s = Shape{ t.s.x, t.s.z };
		for (int z = 0; z < t.s.z; z++)
			for (int x = 0; x < t.s.x; x++) e.push_back(t.at(z, i, x));
	} else {
		s = Shape{ t.s.y, t.s.z };
		for (int z = 0; z < t.s.z; z++)
			for (int y = 0; y < t.s.y; y++) e.push_back(t.at(z, y, i));
	}
	return e;
}
static void put_slice(T3 &t, char axis, int i, const F &e) {
	size_t n = 0;
	Shape d = t.s;
	for (int z = 0; z < d.z; z++)
		for (int y = 0; y < d.y; y++)
			for (int x = 0; x < d.x; x++)
				if ((axis == 'z' ? z : axis == 'y' ? y : x) == i) t.d[(z * d.y + y) * d.x + x] = e[n++];
}
static void tensors(std::vector<T3> &ts, std::vector<M> &m, std::vector<V> &v) {
	T3 &t = ts[wchoose(ts.size())];
	M &ma = m[wchoose(m.size())];
	V &va = v[wchoose(v.size())];
	MLPPTensor3 &r = *t.r.ptr();
	const char *on = "";
	int w = t.s.x, h = t.s.y, dz = t.s.z;
	switch (weighted(ST_W0 + self(), { 4, 4, 3, 4, 4, 4, 4, 3, 3, 3, 3, 3, 3 })) {
		case 0: {
			on = "adding a slice";
			if (dz > 5) break;
			F sl = some_n(wflip(5, 6) ? w * h : 1 + wchoose(4));
			bool fits = sl.size() && (int)sl.size() == w * h;
			switch (wchoose(4)) {
				case 0: r.z_slice_add(vec_of(sl)); break;
				case 1: r.z_slice_add_pool_vector(pool_of(sl)); break;
				case 2:
					sl = va.d;
					fits = sl.size() && (int)sl.size() == w * h;
					r.z_slice_add_mlpp_vector(va.r);
					break;
				default:
					sl = ma.d;
					fits = sl.size() && ma.s == Shape{ w, h };
					r.z_slice_add_mlpp_matrix(ma.r);
			}
			if (fits) {
				t.s.z++;
				t.d.insert(t.d.end(), sl.begin(), sl.end());
			}
			break;
		}
		case 1: {
			on = "removing a slice";
			int i = (int)wchoose(dz + 2) - (wflip(1, 12) ? 1 : 0);
			bool un = wflip(1, 2);
			if (un)
				r.z_slice_remove_unordered(i);
			else
				r.z_slice_remove(i);
			size_t n = w * h;
			if (i >= 0 && i < dz) {
				if (un) std::copy(t.d.end() - n, t.d.end(), t.d.begin() + i * n);
				size_t at = un ? dz - 1 : i;
				t.d.erase(t.d.begin() + at * n, t.d.begin() + (at + 1) * n);
				t.s.z--;
			}
			break;
		}
		case 2: {
			on = "exchanging slices";
			int i = (int)wchoose(dz + 2) - 1, j = (int)wchoose(dz + 2) - 1;
			r.z_slice_swap(i, j);
			size_t n = w * h;
			if (i >= 0 && i < dz && j >= 0 && j < dz && i != j) std::swap_ranges(t.d.begin() + i * n, t.d.begin() + (i + 1) * n, t.d.begin() + j * n);
			break;
		}
		case 3: {
			on = "a row";
			int z = (int)wchoose(dz + 2) - 1, y = (int)wchoose(h + 2) - 1;
			bool ok = z >= 0 && z < dz && y >= 0 && y < h;
			F row;
			if (ok) row.assign(t.d.begin() + (z * h + y) * w, t.d.begin() + (z * h + y + 1) * w);
			auto f = r.row_get_vector(z, y);
			auto p = r.row_get_pool_vector(z, y);
			auto q = r.row_get_mlpp_vector(z, y);
			SAYS(is_list(f, row) && is_list(p, row), "another row");
			SAYS(ok ? q.is_valid() && is_list(*q.ptr(), row) : q.is_null(), "another row");
			r.row_get_into_mlpp_vector(z, y, va.r);
			if (ok) va.take(Shape{ w }, row);
			va.check(on);
			F n = some_n(wflip(5, 6) ? w : 1 + wchoose(4));
			bool fits = ok && (int)n.size() == w;
			switch (wchoose(3)) {
				case 0: r.row_set_vector(z, y, vec_of(n)); break;
				case 1: r.row_set_pool_vector(z, y, pool_of(n)); break;
				default: {
					Ref<MLPPVector> o(memnew(MLPPVector(n)));
					r.row_set_mlpp_vector(z, y, o);
				}
			}
			if (fits) std::copy(n.begin(), n.end(), t.d.begin() + (z * h + y) * w);
			break;
		}
		case 4: {
			on = "a z slice";
			int z = (int)wchoose(dz + 2) - 1;
			bool ok = z >= 0 && z < dz;
			if (w * h == 0) break;
			F sl;
			Shape s;
			if (ok) sl = slice_of(t, 'z', z, s);
			auto f = r.z_slice_get_vector(z);
			auto p = r.z_slice_get_pool_vector(z);
			auto q = r.z_slice_get_mlpp_vector(z);
			auto mq = r.z_slice_get_mlpp_matrix(z);
			SAYS(is_list(f, sl) && is_list(p, sl), "another slice");
			SAYS(ok ? q.is_valid() && is_list(*q.ptr(), sl) : q.is_null(), "another slice");
			if (ok)
				returned(on, mq, s, sl);
			else
				SAYS(mq.is_null(), "a slice that is not there");
			r.z_slice_get_into_mlpp_vector(z, va.r);
			r.z_slice_get_into_mlpp_matrix(z, ma.r);
			if (ok) va.take(Shape{ w * h }, sl), ma.take(s, sl);
			va.check(on);
			ma.check(on);
			F n = some_n(w * h);
			Ref<MLPPMatrix> o;
			o.instance();
			o->set_from_ptr(n.data(), h, w);
			switch (wchoose(5)) {
				case 0: r.z_slice_set_vector(z, vec_of(n)); break;
				case 1: r.z_slice_set_pool_vector(z, pool_of(n)); break;
				case 2: r.z_slice_set_mlpp_vector(z, o->flatten()); break;
				case 3: r.z_slice_set_mlpp_matrix(z, o); break;
				default:
					o->resize(Size2i(w + 1, h));
					o->fill(9);
					r.z_slice_set_mlpp_matrix(z, o);
					ok = false;
			}
			if (ok) put_slice(t, 'z', z, n);
			break;
		}
		case 5:
		case 6: {
			bool xs = wflip(1, 2);
			on = xs ? "an x slice" : "a y slice";
			int top = xs ? w : h;
			int i = (int)wchoose(top + 2) - 1;
			bool ok = i >= 0 && i < top;
			if (t.d.empty()) break;
			F sl;
			Shape s;
			if (ok) sl = slice_of(t, xs ? 'x' : 'y', i, s);
			Ref<MLPPMatrix> got = xs ? r.x_slice_get(i) : r.y_slice_get(i);
			if (ok)
				returned(on, got, s, sl);
			else
				SAYS(got.is_null(), "a slice that is not there");
			if (xs)
				r.x_slice_get_into(i, ma.r);
			else
				r.y_slice_get_into(i, ma.r);
			if (ok) ma.take(s, sl);
			ma.check(on);
			s = xs ? Shape{ h, dz } : Shape{ w, dz };
			if (wflip(1, 6)) s.x++;
			F n = some_n(s.x * s.y);
			Ref<MLPPMatrix> o;
			o.instance();
			o->set_from_ptr(n.data(), s.y, s.x);
			if (xs)
				r.x_slice_set(i, o);
			else
				r.y_slice_set(i, o);
			if (ok && s.x == (xs ? h : w)) put_slice(t, xs ? 'x' : 'y', i, n);
			break;
		}
		case 7: {
			on = "another shape";
			Shape s = wflip(1, 2) ? Shape{ dz, w, h } : Shape{ w * h * dz, 1, 1 };
			if (wflip(1, 5)) s.x++;
			r.shape_set(Size3i(s.x, s.y, s.z));
			if ((size_t)(s.x * s.y * s.z) == t.d.size()) t.s = s;
			break;
		}
		case 8: {
			on = "flattening";
			returned(on, r.flatten(), Shape{ (int)t.d.size() }, t.d);
			r.flatteno(va.r);
			va.take(Shape{ (int)t.d.size() }, t.d);
			va.check(on);
			break;
		}
		case 9: {
			on = "product with a vector";
			if (t.d.empty() || va.s.x != w) break;
			F e;
			for (int z = 0; z < dz; z++)
				for (int y = 0; y < h; y++) {
					float c = 0;
					for (int x = 0; x < w; x++) c += t.at(z, y, x) * va.d[x];
					e.push_back(c);
				}
			returned(on, r.tensor_vec_mult(va.r), Shape{ h, dz }, e);
			break;
		}
		case 10: {
			on = "taking over lists";
			int n = 1 + (int)wchoose(3), k = 1 + (int)wchoose(3), l = 1 + (int)wchoose(3);
			if (wflip(1, 8)) n = 0;
			F all = some_n(n * k * l);
			Shape s{ l, k, n };
			Array arr;
			Vector<Ref<MLPPMatrix>> mats;
			Vector<Ref<MLPPVector>> vecs;
			Array arr_v;
			std::vector<std::vector<std::vector<real_t>>> stds;
			for (int z = 0; z < n; z++) {
				Ref<MLPPMatrix> o;
				o.instance();
				o->set_from_ptr(all.data() + z * k * l, k, l);
				mats.push_back(o);
				arr.push_back(o.get_ref_ptr());
				stds.push_back(o->to_std_vector());
				Ref<MLPPVector> q = o->flatten();
				vecs.push_back(q);
				arr_v.push_back(q.get_ref_ptr());
			}
			switch (wchoose(7)) {
				case 0: r.set_from_mlpp_matricess(mats); break;
				case 1: r.set_from_mlpp_matrices_array(arr); break;
				case 2:
				case 3:
					s = Shape{ k * l, n, 1 };
					if (wflip(1, 2))
						r.set_from_mlpp_vectors(vecs);
					else
						r.set_from_mlpp_vectors_array(arr_v);
					break;
				case 4: r.set_from_std_vectors(stds); break;
				case 5: {
					t.r = Ref<MLPPTensor3>(wflip(1, 2) ? memnew(MLPPTensor3(arr)) : memnew(MLPPTensor3(stds)));
					break;
				}
				default:
					if (ma.d.empty()) {
						n = 0;
						r.reset();
						break;
					}
					s = Shape{ ma.s.x, ma.s.y, 1 };
					all = ma.d;
					n = 1;
					if (wflip(1, 3))
						r.set_from_mlpp_matrix(ma.r);
					else if (wflip(1, 2))
						r.set_from_mlpp_matrixr(*ma.r.ptr());
					else
						t.r = Ref<MLPPTensor3>(memnew(MLPPTensor3(*ma.r.ptr())));
			}
			t.take(n ? s : Shape(), n ? all : F());
			break;
		}
		case 11: {
			on = "an element";
			int z = (int)wchoose(dz + 2) - 1, y = (int)wchoose(h + 2) - 1, x = (int)wchoose(w + 2) - 1;
			float k = some();
			bool ok = z >= 0 && z < dz && y >= 0 && y < h && x >= 0 && x < w;
			SAYS(same_f(r.element_get(z, y, x), ok ? t.at(z, y, x) : 0), "another element");
			r.element_set(z, y, x, k);
			if (ok) t.d[(z * h + y) * w + x] = k;
			SAYS(r.to_std_vector().size() == (size_t)dz, "its slices are others");
			break;
		}
		default: { // through images: one channel per z slice
			on = "images";
			std::vector<uint8_t> px;
			static const int pick[][5] = { { 15, 0, 1, 2, 3 }, { 7, 0, 1, 2, -1 }, { 3, 0, 1, -1, -1 }, { 1, 0, -1, -1, -1 }, { 8, 3, -1, -1, -1 }, { 6, 1, 2, -1, -1 } };
			const int *ch = pick[wchoose(6)];
			bool addi = wflip(1, 2);
			int iw = addi && w ? w : 1 + (int)wchoose(3), ih = addi && h ? h : 1 + (int)wchoose(3);
			if (addi && dz > 4) break;
			if (addi && t.d.empty() && !(t.s == Shape())) break;
			Ref<Image> img = image_of(iw, ih, px);
			if (addi)
				r.z_slices_add_image(img, ch[0]);
			else
				r.set_from_image(img, ch[0]), t.d.clear(), t.s = Shape{ iw, ih, 0 };
			t.s.x = iw, t.s.y = ih;
			for (int c = 1; c < 5 && ch[c] >= 0; c++) {
				t.s.z++;
				for (int i = 0; i < iw * ih; i++) {
					size_t at = t.d.size();
					SAYS((int)at < r.data_size() && near_f(r[(int)at], px[i * 4 + ch[c]] / 255.0, 1e-5), "another colour");
					t.d.push_back(r[(int)at]);
				}
			}
			t.check(on);
			bool unit = true; // an image holds what is from 0 to 1
			for (float f : t.d) unit = unit && f >= 0 && f <= 1;
			if (unit) {
				Ref<Image> back;
				int kind = (int)wchoose(3), i = 0;
				Shape s;
				F sl;
				if (kind == 0) i = (int)wchoose(t.s.z), back = r.z_slice_get_image(i), sl = slice_of(t, 'z', i, s);
				if (kind == 1) i = (int)wchoose(t.s.y), back = r.y_slice_get_image(i), sl = slice_of(t, 'y', i, s);
				if (kind == 2) i = (int)wchoose(t.s.x), back = r.x_slice_get_image(i), sl = slice_of(t, 'x', i, s);
				for (int pass = 0; pass < 2; pass++) {
					SAYS(back.is_valid() && back->get_width() == s.x && back->get_height() == s.y, "an image of another size");
					back->lock();
					for (int y = 0; y < s.y; y++)
						for (int x = 0; x < s.x; x++) SAYS(std::fabs(back->get_pixel(x, y).r - sl[y * s.x + x]) < 0.005, pass ? "another colour goes into an image" : "another colour comes back");
					back->unlock();
					if (pass) break;
					std::vector<uint8_t> other;
					back = image_of(wflip(1, 2) ? s.x : 1 + (int)wchoose(3), wflip(1, 2) ? s.y : 1 + (int)wchoose(3), other);
					if (kind == 0) r.z_slice_get_into_image(back, i);
					if (kind == 1) r.y_slice_get_into_image(back, i);
					if (kind == 2) r.x_slice_get_into_image(back, i);
				}
				std::vector<uint8_t> npx;
				Ref<Image> in = image_of(s.x, s.y, npx);
				int c = (int)wchoose(4);
				if (kind == 0) r.z_slice_set_image(in, i, 1 << c);
				if (kind == 1) r.y_slice_set_image(in, i, 1 << c);
				if (kind == 2) r.x_slice_set_image(in, i, 1 << c);
				F n;
				for (int k = 0; k < s.x * s.y; k++) n.push_back(npx[k * 4 + c] / 255.0f);
				put_slice(t, kind == 0 ? 'z' : kind == 1 ? 'y' : 'x', i, n);
				for (size_t k = 0; k < t.d.size(); k++) {
					SAYS(near_f(r[(int)k], t.d[k], 1e-5), "another colour is taken over");
					t.d[k] = r[(int)k];
				}
			}
		}
	}
	t.check(on);
}

template <class T>
static Obj<T> fresh() {
	Obj<T> o;
	o.r.instance();
	if (wflip(4, 5)) {
		o.s = shape_for(Kind<T>::dims, true);
		o.d = some_n(Kind<T>::volume(o.s));
		Kind<T>::resize(*o.r.ptr(), o.s);
		o.write();
	}
	o.check("a new one");
	return o;
}
struct World {
	std::vector<V> v;
	std::vector<M> m;
	std::vector<T3> t;
	World() {
		for (int i = 0; i < 3; i++) {
			v.push_back(fresh<MLPPVector>());
			m.push_back(fresh<MLPPMatrix>());
			t.push_back(fresh<MLPPTensor3>());
		}
	}
	void tame() {
		for (auto &o : v) o.tame();
		for (auto &o : m) o.tame();
		for (auto &o : t) o.tame();
	}
	void check(const char *on) {
		for (auto &o : v) o.check(on);
		for (auto &o : m) o.check(on);
		for (auto &o : t) o.check(on);
	}
	void step(int focus) {
		int what = focus == 3 ? (int)wchoose(3) : focus;
		if (wflip(1, 8)) what = (int)wchoose(3);
		bool all = wflip(2, 5);
		if (what == 0) {
			if (all) common(v);
			else vectors(v, m);
		} else if (what == 1) {
			if (all) common(m);
			else if (wflip(1, 6)) matrix_views(m);
			else matrices(m, v);
		} else {
			if (all) common(t);
			else tensors(t, m, v);
		}
		check("what it was not about");
		tame();
	}
};
static void history(int focus) {
	set_garbage(bits(ST_CFG));
	uint64_t before = heap_live_since(0);
	int steps = 20 + (int)choose(ST_CFG, 60);
	{
		World w;
		for (int i = 0; i < steps; i++) w.step(focus);
		w.check("at the end");
	}
	SIM_CHECK(heap_live_since(0) <= before + 64, "lost", "%llu blocks of memory are left of the vectors, matrices and tensors", (unsigned long long)(heap_live_since(0) - before));
}
SCENARIO(L10, vectors, 2) { history(0); }
SCENARIO(L10, matrices, 3) { history(1); }
SCENARIO(L10, tensors, 2) { history(2); }
SCENARIO(L10, mixed, 1) { history(3); }

// Several threads compute from the same operands, each into objects of its own.
SCENARIO(L10, shared_operands, 2) {
	set_garbage(bits(ST_CFG));
	static World *w;
	World world;
	w = &world;
	int n = 2 + (int)choose(ST_CFG, 2);
	int steps = 4 + (int)choose(ST_CFG, 10);
	std::vector<int> tasks;
	for (int i = 0; i < n; i++) {
		tasks.push_back(spawn([steps]() {
			for (int k = 0; k < steps; k++) {
				switch (wchoose(6)) {
					case 0: {
						V own = fresh<MLPPVector>();
						V &a = w->v[wchoose(3)], &b = w->v[wchoose(3)];
						binary(own, a, b, (int)wchoose(6), 2);
						unary(own, a, (int)wchoose(12), 2);
						break;
					}
					case 1: {
						M own = fresh<MLPPMatrix>();
						M &a = w->m[wchoose(3)], &b = w->m[wchoose(3)];
						binary(own, a, b, (int)wchoose(6), 2);
						unary(own, a, (int)wchoose(12), 2);
						break;
					}
					case 2: {
						T3 own = fresh<MLPPTensor3>();
						T3 &a = w->t[wchoose(3)], &b = w->t[wchoose(3)];
						binary(own, a, b, (int)wchoose(5), 2);
						unary(own, a, (int)wchoose(5), 2);
						break;
					}
					case 3: {
						const char *on = "matrix product of shared operands";
						M &a = w->m[wchoose(3)], &b = w->m[wchoose(3)];
						Shape s;
						F e;
						bool fits = product(a, b, s, e);
						Ref<MLPPMatrix> ret = a.r->multn(b.r);
						if (fits) returned(on, ret, s, e);
						transposed(a, s, e);
						returned(on, a.r->transposen(), s, e);
						break;
					}
					case 4: {
						const char *on = "determinant of a shared operand";
						M &a = w->m[wchoose(3)];
						if (a.s.x != a.s.y || a.s.x < 1) break;
						double d = minor_det(rows_of(a));
						SAYS(near_f(a.r->det(), d, 1e-4), "it is another");
						if (std::fabs(d) > 0.5) close_to(on, a.r->inverse(), a.s, inverted(a, d), 1e-3);
						break;
					}
					default: {
						const char *on = "slices of a shared operand";
						T3 &a = w->t[wchoose(3)];
						if (a.d.empty()) break;
						Shape s;
						int i = (int)wchoose(a.s.z);
						F e = slice_of(a, 'z', i, s);
						returned(on, a.r->z_slice_get_mlpp_matrix(i), s, e);
						e = slice_of(a, 'x', 0, s);
						returned(on, a.r->x_slice_get(0), s, e);
						V &b = w->v[wchoose(3)];
						SAYS(same_f(b.r->dot(b.r), b.r->norm_sq()), "the square of a length is another");
						Ref<MLPPVector> fl = a.r->flatten();
						returned(on, fl, Shape{ (int)a.d.size() }, a.d);
					}
				}
			}
		}));
	}
	for (int t : tasks) join(t);
	w->check("shared operands");
}
} // namespace
