// C09: array and dictionary handles share one container; duplicates share none.
#include "common.h"
#include <cmath>
#include <set>
#include <algorithm>
using namespace sim;

namespace {
enum T { NIL, BOOL, INT, REAL, STR, NAME, TOK, ARR, DICT };
struct Box;
struct MV {
	T t = NIL;
	int64_t i = 0;
	double r = 0;
	std::string s;
	Box *c = nullptr;
};
struct Box {
	bool dict = false;
	std::vector<MV> a;
	std::vector<std::pair<MV, MV>> d;
	const void *id = nullptr;
};
static std::vector<Box *> boxes;
static Box *new_box(bool dict) {
	Quiet q;
	Box *b = new Box();
	b->dict = dict;
	boxes.push_back(b);
	return b;
}
struct TokRec {
	void *p = nullptr;
	int destroyed = 0;
};
static std::vector<TokRec> toks;
class Token : public Reference {
	SFW_OBJECT(Token, Reference);

public:
	int n = -1;
	~Token() {
		Quiet q;
		SIM_CHECK(n >= 0 && n < (int)toks.size() && toks[n].p == this, "corrupt", "an element is corrupt at its destruction");
		toks[n].destroyed++;
		SIM_CHECK(toks[n].destroyed == 1, "destroyed-twice", "an element of a container was destroyed twice");
	}
};
static bool same_scalar(const MV &a, const MV &b) {
	if (a.t != b.t) return false;
	switch (a.t) {
		case NIL: return true;
		case BOOL:
		case INT:
		case TOK: return a.i == b.i;
		case REAL: return a.r == b.r || (std::isnan(a.r) && std::isnan(b.r));
		case STR:
		case NAME: return a.s == b.s;
		default: return a.c == b.c;
	}
}
// Per-run bias: one operation of each sort is taken half the time (-1: none).
static int focus_top, focus_arr, focus_dict;
static uint32_t nesting = 3; // one value in so many is a container
static uint32_t biased(int focus, uint32_t n) {
	uint32_t v = wchoose(n);
	return focus >= 0 && wchoose(2) ? (uint32_t)focus : v;
}
static Variant scalar(MV &m, bool key) {
	switch (wchoose(key ? 6 : 7)) {
		case 0: m.t = INT; m.i = (int64_t)wchoose(6) - 1; return Variant((int64_t)m.i);
		case 1: {
			m.t = STR;
			m.s = scn::text(2, "ab");
			return Variant(String(m.s.c_str()));
		}
		case 2: {
			m.t = NAME;
			m.s = scn::text(2, "ab");
			return Variant(StringName(m.s.c_str()));
		}
		case 3: {
			static const double rs[] = { 0.0, 1.0, -0.0, 2.5, NAN, -1.0 };
			m.t = REAL;
			m.r = rs[wchoose(6)];
			return Variant(m.r);
		}
		case 4: m.t = BOOL; m.i = wchoose(2); return Variant((bool)m.i);
		case 5: m.t = NIL; return Variant();
		default: {
			Ref<Token> t;
			t.instance();
			Quiet q;
			t->n = (int)toks.size();
			toks.push_back({ t.ptr(), 0 });
			m.t = TOK;
			m.i = t->n;
			return Variant(t);
		}
	}
}
static bool plain_text(const MV &m) { return m.t == INT || m.t == STR; }
static bool comparable(const Box *b) { // elements for which equality is simple
	for (auto &e : b->a) {
		if (!plain_text(e)) return false;
	}
	return true;
}
static std::string show(const MV &m) {
	char b[64];
	switch (m.t) {
		case NIL: return "nil";
		case BOOL: return m.i ? "true" : "false";
		case INT: snprintf(b, sizeof b, "%d", (int)m.i); return b;
		case REAL: snprintf(b, sizeof b, "%.1f", m.r); return b;
		case STR: return "'" + m.s + "'";
		case NAME: return "@" + m.s;
		case TOK: snprintf(b, sizeof b, "object %d", (int)m.i); return b;
		default: snprintf(b, sizeof b, "%s of %zu", m.c->dict ? "dictionary" : "array", m.c->dict ? m.c->d.size() : m.c->a.size()); return b;
	}
}
static void cmp(const Variant &v, const MV &m, int depth);
static void cmp_arr(const Array &a, const Box *b, int depth) {
	SIM_CHECK(a.size() == (int)b->a.size() && a.empty() == b->a.empty(), "contents", "an array has %d elements, expected %zu", a.size(), b->a.size());
	if (b->id) SIM_CHECK(a.id() == b->id, "identity", "an array handle refers to another container");
	for (size_t i = 0; i < b->a.size(); i++) cmp(a.get(i), b->a[i], depth + 1);
}
static Variant key_variant(const MV &m) {
	switch (m.t) {
		case NIL: return Variant();
		case BOOL: return Variant((bool)m.i);
		case INT: return Variant((int64_t)m.i);
		case REAL: return Variant(m.r);
		case STR: return Variant(String(m.s.c_str()));
		default: return Variant(StringName(m.s.c_str()));
	}
}
static void cmp_dict(const Dictionary &d, const Box *b, int depth) {
	SIM_CHECK(d.size() == (int)b->d.size() && d.empty() == b->d.empty(), "contents", "a dictionary has %d entries, expected %zu", d.size(), b->d.size());
	if (b->id) SIM_CHECK(d.id() == b->id, "identity", "a dictionary handle refers to another container");
	const Variant *k = nullptr;
	for (size_t i = 0; i < b->d.size(); i++) {
		k = d.next(k);
		SIM_CHECK(k, "contents", "walking a dictionary of %zu entries ended after %zu", b->d.size(), i);
		cmp(*k, b->d[i].first, depth + 1);
		Variant kv = key_variant(b->d[i].first);
		SIM_CHECK(d.has(kv), "contents", "a dictionary does not find its key %s", show(b->d[i].first).c_str());
		const Variant *p = d.getptr(kv);
		SIM_CHECK(p, "contents", "a dictionary does not find its key %s", show(b->d[i].first).c_str());
		cmp(*p, b->d[i].second, depth + 1);
	}
	if (k) SIM_CHECK(!d.next(k), "contents", "walking a dictionary finds more entries than it has");
}
static void cmp(const Variant &v, const MV &m, int depth) {
	static const Variant::Type ty[] = { Variant::NIL, Variant::BOOL, Variant::INT, Variant::REAL, Variant::STRING, Variant::STRING_NAME, Variant::OBJECT, Variant::ARRAY, Variant::DICTIONARY };
	SIM_CHECK(v.get_type() == ty[m.t], "contents", "found a value of type %d, expected %s", (int)v.get_type(), show(m).c_str());
	switch (m.t) {
		case NIL: break;
		case BOOL: SIM_CHECK((bool)v == (bool)m.i, "contents", "found another truth value than %s", show(m).c_str()); break;
		case INT: SIM_CHECK((int64_t)v == m.i, "contents", "found %lld, expected %s", (long long)(int64_t)v, show(m).c_str()); break;
		case REAL: {
			double r = v;
			SIM_CHECK(r == m.r || (std::isnan(r) && std::isnan(m.r)), "contents", "found %f, expected %s", r, show(m).c_str());
		} break;
		case STR:
		case NAME: {
			String s = v;
			SIM_CHECK(s == String(m.s.c_str()), "contents", "found another text than %s", show(m).c_str());
		} break;
		case TOK: {
			Object *o = v;
			Quiet q;
			SIM_CHECK(o && o == (Object *)(Reference *)(Token *)toks[m.i].p && toks[m.i].destroyed == 0, "contents", "found another object than %s", show(m).c_str());
		} break;
		case ARR: cmp_arr(v, m.c, depth); break;
		case DICT: cmp_dict(v, m.c, depth); break;
	}
}
struct Slot {
	int kind = 0; // 0 Array, 1 Dictionary, 2 Variant
	Array a;
	Dictionary d;
	Variant v;
	MV m;
};
static Variant value_of(const Slot &s) {
	return s.kind == 0 ? Variant(s.a) : s.kind == 1 ? Variant(s.d) : s.v;
}
static bool is_arr(const Slot &s) { return s.m.t == ARR; }
static bool is_dict(const Slot &s) { return s.m.t == DICT; }
static Array arr(const Slot &s) { return s.kind == 0 ? s.a : (Array)s.v; }
static Dictionary dict(const Slot &s) { return s.kind == 1 ? s.d : (Dictionary)s.v; }
static void check_slot(const Slot &s) {
	if (s.kind == 0) {
		cmp_arr(s.a, s.m.c, 0);
	} else if (s.kind == 1) {
		cmp_dict(s.d, s.m.c, 0);
	} else {
		cmp(s.v, s.m, 0);
	}
}
static bool reaches(const Box *from, const Box *to) {
	if (from == to) return true;
	for (auto &e : from->a) {
		if (e.c && reaches(e.c, to)) return true;
	}
	for (auto &e : from->d) {
		if (e.second.c && reaches(e.second.c, to)) return true;
	}
	return false;
}
static bool has_nan(const MV &m) {
	if (m.t == REAL) return std::isnan(m.r);
	if (!m.c) return false;
	for (auto &e : m.c->a)
		if (has_nan(e)) return true;
	for (auto &e : m.c->d)
		if (has_nan(e.first) || has_nan(e.second)) return true;
	return false;
}
static MV dup(const MV &m, bool deep) { // model of duplicate()
	if (!m.c) return m;
	MV r = m;
	r.c = new_box(m.c->dict);
	for (auto &e : m.c->a) r.c->a.push_back(deep ? dup(e, true) : e);
	for (auto &e : m.c->d) r.c->d.push_back({ e.first, deep ? dup(e.second, true) : e.second });
	return r;
}
static void mark(const MV &m, std::set<int> &live) {
	if (m.t == TOK) live.insert(m.i);
	if (!m.c) return;
	for (auto &e : m.c->a) mark(e, live);
	for (auto &e : m.c->d) {
		mark(e.first, live);
		mark(e.second, live);
	}
}
static size_t weight(const MV &m) {
	size_t n = 1;
	if (m.c) {
		for (auto &e : m.c->a) n += weight(e);
		for (auto &e : m.c->d) n += weight(e.second);
	}
	return n;
}
static void settle_id(Slot &s) {
	if (s.m.t == ARR) s.m.c->id = arr(s).id();
	if (s.m.t == DICT) s.m.c->id = dict(s).id();
}
static void forget(Slot &s) {
	if (s.kind == 0) {
		s.a = Array();
		s.m.t = ARR;
		s.m.c = new_box(false);
	} else if (s.kind == 1) {
		s.d = Dictionary();
		s.m.t = DICT;
		s.m.c = new_box(true);
	} else {
		s.m = MV();
		s.v = scalar(s.m, false);
	}
	settle_id(s);
}
static void put(Slot &s, const Variant &v, const MV &m) { // v fits s
	if (s.kind == 0) {
		s.a = v;
	} else if (s.kind == 1) {
		s.d = v;
	} else {
		s.v = v;
	}
	s.m = m;
}
static bool fits(const Slot &s, const MV &m) { return s.kind == 2 || (s.kind == 0 && m.t == ARR) || (s.kind == 1 && m.t == DICT); }
// a value to store into container `into`: scalar or a container handle without a cycle
static Variant some_value(std::vector<Slot> &S, const Box *into, MV &m) {
	if (wchoose(nesting) == 0) {
		Slot &o = S[wchoose(S.size())];
		if (!o.m.c || (!reaches(o.m.c, into) && weight(o.m) < 40)) {
			m = o.m;
			return value_of(o);
		}
	}
	return scalar(m, false);
}
static int key_at(Box *b, const MV &k) {
	for (size_t i = 0; i < b->d.size(); i++) {
		if (same_scalar(b->d[i].first, k)) return (int)i;
	}
	return -1;
}
static void ids(const Variant &v, std::set<const void *> &out) {
	if (v.get_type() == Variant::ARRAY) {
		const Array a = v;
		out.insert(a.id());
		for (int i = 0; i < a.size(); i++) ids(a[i], out);
	} else if (v.get_type() == Variant::DICTIONARY) {
		const Dictionary d = v;
		out.insert(d.id());
		for (const Variant *k = d.next(nullptr); k; k = d.next(k)) ids(*d.getptr(*k), out);
	}
}
static void unshared(const Variant &a, const Variant &b) {
	std::set<const void *> x, y;
	ids(a, x);
	ids(b, y);
	for (const void *p : y) SIM_CHECK(!x.count(p), "identity", "a deep copy shares a container with its original");
}
static bool eq_plain(const MV &a, const MV &b) { return same_scalar(a, b); }

static void op_array(std::vector<Slot> &S, Slot &s) {
	Array a = arr(s); // another handle to the same container
	Box *b = s.m.c;
	MV m;
	uint32_t n = b->a.size();
	uint32_t op = biased(focus_arr, 22);
	ev("array op %u on %u", op, n);
	switch (op) {
		case 0: {
			Variant v = some_value(S, b, m);
			wchoose(2) ? a.push_back(v) : a.append(v);
			b->a.push_back(m);
		} break;
		case 1: {
			Variant v = some_value(S, b, m);
			a.push_front(v);
			b->a.insert(b->a.begin(), m);
		} break;
		case 2: {
			Variant v = some_value(S, b, m);
			uint32_t p = wchoose(n + 1);
			a.insert(p, v);
			b->a.insert(b->a.begin() + p, m);
		} break;
		case 3:
			if (n) {
				uint32_t p = wchoose(n);
				a.remove(p);
				b->a.erase(b->a.begin() + p);
			} else {
				a.remove(0);
			}
			break;
		case 4:
			if (n) {
				uint32_t p = wchoose(n);
				Variant v = some_value(S, b, m);
				if (wchoose(2)) {
					a[p] = v;
				} else {
					a.set(p, v);
				}
				b->a[p] = m;
			}
			break;
		case 5: {
			uint32_t k = wchoose(9);
			SIM_CHECK(a.resize(k) == OK, "resize", "resizing an array failed");
			b->a.resize(k);
		} break;
		case 6: {
			Variant v = some_value(S, b, m);
			a.fill(v);
			for (auto &e : b->a) e = m;
		} break;
		case 7: {
			if (!comparable(b)) break;
			Variant v = scalar(m, true);
			if (!plain_text(m)) break;
			a.erase(v);
			for (size_t i = 0; i < b->a.size(); i++) {
				if (eq_plain(b->a[i], m)) {
					b->a.erase(b->a.begin() + i);
					break;
				}
			}
		} break;
		case 8: {
			Variant v = a.pop_back();
			if (n) {
				m = b->a.back();
				b->a.pop_back();
			}
			cmp(v, m, 0);
		} break;
		case 9: {
			Variant v = a.pop_front();
			if (n) {
				m = b->a[0];
				b->a.erase(b->a.begin());
			}
			cmp(v, m, 0);
		} break;
		case 10: {
			int p = (int)wchoose(2 * n + 3) - (int)n - 1;
			Variant v = a.pop_at(p);
			int k = p < 0 ? (int)n + p : p;
			if (n && k >= 0 && k < (int)n) {
				m = b->a[k];
				b->a.erase(b->a.begin() + k);
			}
			cmp(v, m, 0);
		} break;
		case 11: {
			Slot &o = S[wchoose(S.size())];
			if (!is_arr(o) || n + o.m.c->a.size() > 24) break;
			bool cyc = false;
			for (auto &e : o.m.c->a) cyc |= e.c && reaches(e.c, b);
			if (cyc) break;
			a.append_array(arr(o));
			std::vector<MV> x = o.m.c->a;
			b->a.insert(b->a.end(), x.begin(), x.end());
		} break;
		case 12:
			a.invert();
			std::reverse(b->a.begin(), b->a.end());
			break;
		case 13: {
			int from = (int)wchoose(n + 3) - 1, to = (int)wchoose(n + 3) - 1;
			if (!n || from < 0 || to < 0 || from >= (int)n || to >= (int)n) break;
			int st = from <= to ? 1 + wchoose(2) : -1 - (int)wchoose(2);
			bool deep = wchoose(2);
			Array r = a.slice(from, to, st, deep);
			MV x;
			x.t = ARR;
			x.c = new_box(false);
			for (int i = from; st > 0 ? i <= to : i >= to; i += st) x.c->a.push_back(deep ? dup(b->a[i], true) : b->a[i]);
			cmp_arr(r, x.c, 0);
			if (deep) unshared(Variant(a), Variant(r));
			Slot &o = S[wchoose(S.size())];
			if (&o != &s && S.size() > 1 && fits(o, x) && weight(x) < 60) put(o, Variant(r), x);
		} break;
		case 14: {
			if (!comparable(b)) break;
			Variant v = scalar(m, true);
			if (!plain_text(m)) break;
			int first = -1, last = -1, cnt = 0;
			for (size_t i = 0; i < n; i++) {
				if (eq_plain(b->a[i], m)) {
					if (first < 0) first = i;
					last = i;
					cnt++;
				}
			}
			SIM_CHECK(a.find(v) == first && a.rfind(v) == last && a.find_last(v) == last && a.count(v) == cnt && a.has(v) == (cnt > 0), "search", "searching an array for %s gives another answer", show(m).c_str());
		} break;
		case 15:
			if (n) {
				cmp(a.front(), b->a[0], 0);
				cmp(a.back(), b->a[n - 1], 0);
			}
			break;
		case 16: {
			for (auto &e : b->a) {
				if (e.t != INT) return;
			}
			a.sort();
			std::stable_sort(b->a.begin(), b->a.end(), [](const MV &x, const MV &y) { return x.i < y.i; });
		} break;
		case 17:
			if (wchoose(3) == 0) {
				a.clear();
				b->a.clear();
			}
			break;
		default: {
			Variant v = some_value(S, b, m);
			a.push_back(v);
			b->a.push_back(m);
		}
	}
}
// A small tree of containers, at most three deep.
static Variant tree(MV &m, int depth) {
	bool is_dict = wchoose(2);
	m.t = is_dict ? DICT : ARR;
	m.c = new_box(is_dict);
	uint32_t n = wchoose(4);
	Array a;
	Dictionary d;
	for (uint32_t i = 0; i < n; i++) {
		MV e;
		Variant v = depth > 1 && wchoose(2) ? tree(e, depth - 1) : scalar(e, false);
		if (is_dict) {
			MV k;
			k.t = INT;
			k.i = (int64_t)i;
			d[Variant((int64_t)i)] = v;
			m.c->d.push_back(std::make_pair(k, e));
		} else {
			a.push_back(v);
			m.c->a.push_back(e);
		}
	}
	return is_dict ? Variant(d) : Variant(a);
}
static void op_dict(std::vector<Slot> &S, Slot &s) {
	Dictionary d = dict(s);
	Box *b = s.m.c;
	MV m, k;
	uint32_t op = biased(focus_dict, 16);
	ev("dictionary op %u on %zu", op, b->d.size());
	switch (op) {
		case 0:
		case 1:
		case 2:
		case 3: {
			Variant kv = scalar(k, true);
			Variant v = some_value(S, b, m);
			d[kv] = v;
			int i = key_at(b, k);
			if (i < 0) {
				b->d.push_back({ k, m });
			} else {
				b->d[i].second = m;
			}
		} break;
		case 4:
		case 5:
		case 6: {
			Variant kv = scalar(k, true);
			if (b->d.size() && wchoose(2)) {
				k = b->d[wchoose(b->d.size())].first;
				kv = key_variant(k);
			}
			int i = key_at(b, k);
			bool r = d.erase(kv);
			SIM_CHECK(r == (i >= 0), "search", "erasing key %s says %d", show(k).c_str(), r);
			if (i >= 0) b->d.erase(b->d.begin() + i);
			SIM_CHECK(!d.has(kv), "search", "an erased key is still there");
		} break;
		case 7: {
			Variant kv = scalar(k, true);
			int i = key_at(b, k);
			SIM_CHECK(d.has(kv) == (i >= 0) && (d.getptr(kv) != nullptr) == (i >= 0), "search", "looking up key %s says %d", show(k).c_str(), d.has(kv));
			cmp(d.get_valid(kv), i < 0 ? m : b->d[i].second, 0);
			MV f;
			Variant fv = scalar(f, false);
			cmp(d.get(kv, fv), i < 0 ? f : b->d[i].second, 0);
		} break;
		case 8: {
			Variant kv = scalar(k, true);
			Variant v = some_value(S, b, m);
			int i = key_at(b, k);
			Variant r = d.get_or_add(kv, v);
			if (i < 0) {
				b->d.push_back({ k, m });
				cmp(r, m, 0);
			} else {
				cmp(r, b->d[i].second, 0);
			}
		} break;
		case 9: {
			Array ks = d.keys(), vs = d.values();
			List<Variant> kl;
			d.get_key_list(&kl);
			SIM_CHECK(ks.size() == (int)b->d.size() && vs.size() == (int)b->d.size() && kl.size() == (int)b->d.size(), "search", "a dictionary of %zu entries lists %d keys and %d values", b->d.size(), ks.size(), vs.size());
			int i = 0;
			for (List<Variant>::Element *e = kl.front(); e; e = e->next(), i++) {
				cmp(e->get(), b->d[i].first, 0);
				cmp(ks[i], b->d[i].first, 0);
				cmp(vs[i], b->d[i].second, 0);
				cmp(d.get_key_at_index(i), b->d[i].first, 0);
				cmp(d.get_value_at_index(i), b->d[i].second, 0);
			}
			SIM_CHECK(d.has_all(ks), "search", "a dictionary does not have all its keys");
		} break;
		case 10: {
			Slot &o = S[wchoose(S.size())];
			if (!is_dict(o)) break;
			for (auto &e : o.m.c->d) {
				if (e.second.c && reaches(e.second.c, b)) return;
			}
			bool over = wchoose(2);
			d.merge(dict(o), over);
			auto x = o.m.c->d;
			for (auto &e : x) {
				int i = key_at(b, e.first);
				if (i < 0) {
					b->d.push_back(e);
				} else if (over) {
					b->d[i].second = e.second;
				}
			}
		} break;
		case 11:
			if (wchoose(3) == 0) {
				d.clear();
				b->d.clear();
			}
			break;
		default: {
			Variant kv = scalar(k, true);
			Variant v = some_value(S, b, m);
			Variant *p = d.getptr(kv);
			int i = key_at(b, k);
			SIM_CHECK((p != nullptr) == (i >= 0), "search", "looking up key %s says %d", show(k).c_str(), p != nullptr);
			if (p) {
				*p = v;
				b->d[i].second = m;
			} else {
				d[kv] = v;
				b->d.push_back({ k, m });
			}
		}
	}
}
static void all_tokens(const std::vector<Slot> &S, const char *when) {
	std::set<int> live;
	for (auto &s : S) mark(s.m, live);
	for (size_t i = 0; i < toks.size(); i++) {
		bool want = live.count((int)i);
		SIM_CHECK((toks[i].destroyed == 0) == want, want ? "destroyed-early" : "not-destroyed", "%s: an element %s", when, want ? "was destroyed while its container lives" : "still exists although no handle reaches it");
	}
}
static uint64_t blocks_before() {
	memnew(Reference);
	return heap_live_since(0);
}
static void clean_up() {
	for (Box *b : boxes) delete b;
	boxes = std::vector<Box *>();
	toks = std::vector<TokRec>();
}
static void history() {
	uint64_t before = blocks_before();
	boxes.clear();
	toks.clear();
	{
		std::vector<Slot> S(5);
		for (int i = 0; i < 5; i++) {
			S[i].kind = i < 2 ? i : (int)choose(ST_CFG, 3);
			forget(S[i]);
		}
		int steps = 5 + choose(ST_CFG, 40);
		focus_top = (int)choose(ST_CFG, 18) - 9;
		focus_arr = (int)choose(ST_CFG, 44) - 22;
		focus_dict = (int)choose(ST_CFG, 32) - 16;
		nesting = 3 - choose(ST_CFG, 3);
		if (choose(ST_CFG, 2)) {
			for (auto &s : S) {
				MV m;
				Variant v = tree(m, 3);
				if (fits(s, m)) put(s, v, m);
			}
		}
		for (int i = 0; i < steps; i++) {
			Slot &s = S[wchoose(S.size())];
			switch (biased(focus_top, 9)) {
				case 4: { // a value is replaced by an element it holds itself, perhaps as the last handle
					if (s.kind != 2 || !s.m.c) break;
					const Variant *el = nullptr;
					MV m;
					if (is_arr(s) && s.m.c->a.size()) {
						uint32_t k = wchoose(s.m.c->a.size());
						const Array a = s.v;
						el = &a[k];
						m = s.m.c->a[k];
					} else if (is_dict(s) && s.m.c->d.size()) {
						uint32_t k = wchoose(s.m.c->d.size());
						const Dictionary d = s.v;
						el = d.getptr(key_variant(s.m.c->d[k].first));
						m = s.m.c->d[k].second;
					}
					if (!el || m.t != s.m.t) break;
					ev("become own element");
					probe(3, "a value became the element of itself");
					s.v = *el;
					s.m = m;
				} break;
				case 0: { // handle copy
					Slot &o = S[wchoose(S.size())];
					if (fits(s, o.m)) {
						ev("copy handle");
						if (s.kind == o.kind) {
							s.kind == 0 ? (void)(s.a = o.a) : s.kind == 1 ? (void)(s.d = o.d)
																		   : (void)(s.v = o.v);
							s.m = o.m;
						} else {
							put(s, value_of(o), o.m);
						}
					}
				} break;
				case 1: { // duplicate
					Slot &o = S[wchoose(S.size())];
					if (!fits(s, o.m) || weight(o.m) > 60) break;
					bool deep = wchoose(2);
					ev("duplicate %d", deep);
					MV m = dup(o.m, deep);
					Variant v;
					if (is_arr(o) && wchoose(2)) {
						v = arr(o).duplicate(deep);
					} else if (is_dict(o) && wchoose(2)) {
						v = dict(o).duplicate(deep);
					} else {
						v = value_of(o).duplicate(deep);
					}
					if (m.c) {
						const void *id = m.t == ARR ? ((Array)v).id() : ((Dictionary)v).id();
						SIM_CHECK(id != o.m.c->id, "identity", "a duplicate is the same container");
					}
					if (deep) unshared(value_of(o), v);
					if (!has_nan(o.m)) SIM_CHECK(v.deep_equal(value_of(o)), "unequal", "a duplicate does not equal its original");
					SIM_CHECK(v.recursive_hash(0) == value_of(o).recursive_hash(0), "unequal", "a duplicate has another hash");
					if (m.c && !has_nan(o.m) && wchoose(3) == 0) { // and no longer equals it with one more element
						Variant x = value_of(o).duplicate(true);
						Array a = x;
						if (m.t == ARR) {
							a.push_back("more");
						} else {
							Dictionary d = x;
							d["more"] = 1;
						}
						SIM_CHECK(!x.deep_equal(value_of(o)), "unequal", "a duplicate equals its original with one more element");
					}
					put(s, v, m);
				} break;
				case 2:
					ev("forget");
					forget(s);
					if (wchoose(2)) {
						MV m;
						Variant v = tree(m, 3);
						if (fits(s, m)) put(s, v, m);
					}
					break;
				case 3: { // take an element out by handle
					if (is_arr(s) && s.m.c->a.size()) {
						uint32_t k = wchoose(s.m.c->a.size());
						MV m = s.m.c->a[k];
						Slot &o = S[wchoose(S.size())];
						if (fits(o, m)) {
							ev("take element");
							put(o, arr(s)[k], m);
						}
					} else if (is_dict(s) && s.m.c->d.size()) {
						uint32_t k = wchoose(s.m.c->d.size());
						MV m = s.m.c->d[k].second;
						Slot &o = S[wchoose(S.size())];
						if (fits(o, m)) {
							ev("take entry");
							put(o, dict(s)[key_variant(s.m.c->d[k].first)], m);
						}
					}
				} break;
				default:
					if (is_arr(s)) {
						op_array(S, s);
					} else if (is_dict(s)) {
						op_dict(S, s);
					}
			}
			for (auto &x : S) check_slot(x);
			all_tokens(S, "after a step");
		}
		S.clear();
		all_tokens(S, "at the end");
	}
	clean_up();
	uint64_t after = heap_live_since(0);
	SIM_CHECK(after == before, "leak", "%llu blocks in use before, %llu when all handles were gone", (unsigned long long)before, (unsigned long long)after);
}
static void threads() {
	int TN = 2 + choose(ST_CFG, 2);
	focus_arr = focus_dict = -1;
	nesting = 3;
	uint64_t before = blocks_before();
	boxes.clear();
	toks.clear();
	{
		std::vector<Slot> base(3);
		for (int i = 0; i < 3; i++) {
			base[i].kind = i;
			forget(base[i]);
		}
		int prep = 3 + choose(ST_CFG, 8);
		for (int i = 0; i < prep; i++) {
			Slot &s = base[wchoose(3)];
			is_arr(s) ? op_array(base, s) : is_dict(s) ? op_dict(base, s)
													   : (void)0;
			if (wchoose(5) == 0 && s.kind == 2) put(s, value_of(base[0]), base[0].m);
		}
		for (auto &x : base) check_slot(x);
		std::vector<std::vector<Slot>> S(TN);
		for (int t = 0; t < TN; t++) {
			for (int i = 0; i < 4; i++) {
				Slot s;
				s.kind = i < 3 ? i : 2;
				s.m = base[s.kind].m;
				put(s, value_of(base[s.kind]), base[s.kind].m);
				S[t].push_back(s);
			}
		}
		bool early = choose(ST_CFG, 2);
		if (early) base.clear();
		int steps = 2 + choose(ST_CFG, 7);
		std::vector<int> ts;
		for (int t = 0; t < TN; t++) {
			ts.push_back(spawn([&, t] {
				std::vector<Slot> &M = S[t];
				for (int i = 0; i < steps; i++) {
					uint32_t si = wchoose(M.size());
					Slot &s = M[si];
					switch (wchoose(7)) {
						case 0:
						case 1: {
							Slot &o = M[wchoose(M.size())];
							if (fits(s, o.m)) {
								ev("copy handle");
								put(s, value_of(o), o.m);
							}
						} break;
						case 2:
							ev("forget");
							forget(s);
							break;
						case 3:
							ev("check");
							check_slot(s);
							break;
						case 4: {
							if (weight(s.m) > 30) break;
							ev("duplicate and change");
							MV m = dup(s.m, true);
							Slot own;
							own.kind = 2;
							put(own, value_of(s).duplicate(true), m);
							std::vector<Slot> one;
							one.push_back(own);
							for (int k = 0; k < 2; k++) is_arr(one[0]) ? op_array(one, one[0]) : is_dict(one[0]) ? op_dict(one, one[0])
																											  : (void)0;
							check_slot(one[0]);
						} break;
						case 5: {
							ev("handle in a container");
							Array tmp;
							tmp.push_back(value_of(s));
							tmp.push_back(tmp[0]);
							Variant v = tmp;
							tmp = Array();
							cmp(((Array)v)[1], s.m, 0);
						} break;
						default:
							if (is_arr(s) && s.m.c->a.size()) {
								uint32_t k = wchoose(s.m.c->a.size());
								MV m = s.m.c->a[k];
								Slot &o = M[wchoose(M.size())];
								if (fits(o, m)) {
									ev("take element");
									const Array a = arr(s);
									put(o, a[k], m);
								}
							}
					}
				}
				if (wchoose(2)) {
					ev("drop all");
					M.clear();
				}
			}));
		}
		if (!early && wchoose(2)) base.clear();
		for (int t : ts) join(t);
		for (auto &M : S) {
			for (auto &x : M) check_slot(x);
		}
		for (auto &x : base) check_slot(x);
		std::vector<Slot> all;
		for (auto &M : S) {
			for (auto &x : M) all.push_back(x);
		}
		for (auto &x : base) all.push_back(x);
		S.clear();
		base.clear();
		all_tokens(all, "when the threads ended");
		all.clear();
		all_tokens(all, "at the end");
	}
	clean_up();
	uint64_t after = heap_live_since(0);
	SIM_CHECK(after == before, "leak", "%llu blocks in use before, %llu when all handles were gone", (unsigned long long)before, (unsigned long long)after);
}
} // namespace

SCENARIO(C09, histories, 3) { history(); }
SCENARIO(C09, shared_by_threads, 3) { threads(); }
