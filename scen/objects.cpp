// C14: an object answers as its class, keeps its properties and metadata, and hears every notification.
#include "common.h"
#include <map>
using namespace sim;

namespace {
struct Rec { // what one object is expected to be; owned by the thread that made it
	int cls = 0;
	std::map<int, int> props; // name -> value
	std::map<int, int> meta;
	std::vector<int> heard; // level * 100 + notification, since last looked
	bool listening = true; // false while heard is not to be written (none)
	int refuse = 0; // how many more deletions it refuses
	int gone = 0;
};
// The classes: Alpha - Beta - Gamma, and Alpha - Plain - Delta (Plain declares nothing).
enum { ALPHA, BETA, GAMMA, PLAIN, DELTA, CLASSES };
static const char *const cls_name[] = { "Alpha", "Beta", "Gamma", "Plain", "Delta" };
static const int parent[] = { -1, ALPHA, BETA, ALPHA, PLAIN };
static bool is_a(int c, int what) {
	for (; c >= 0; c = parent[c]) {
		if (c == what) return true;
	}
	return false;
}
// names: one that each declaring class keeps, one that is derived from it (read only) by several
static const char *const prop_name[] = { "speed", "weight of it", "x", "delta", "nobody keeps it", "free" };
static const int keeper[] = { ALPHA, BETA, GAMMA, DELTA, -1, -1 };
static const int NPROP = 6;
static const char *const meta_name[] = { "note", "another note", "speed", "" };
static const int NMETA = 4;
static Variant value_of(int k) {
	switch (k % 6) {
		case 1: return Variant(String("text ") + String::num(k));
		case 2: return Variant(Vector3(k, 2, 3));
		case 3: {
			Array a;
			a.push_back(k);
			a.push_back("x");
			return Variant(a);
		}
		case 4: return Variant(k * 0.5);
		case 5: return Variant(StringName("name"));
		default: return Variant(k);
	}
}
static void is_value(const Variant &v, int k, const char *what, const char *name) {
	Variant w = value_of(k);
	SIM_CHECK(v.get_type() == w.get_type() && v == w, "value", "%s %s is another than what was put there", what, name);
}

static void gone(Rec *r) {
	if (r) r->gone++;
}
#define KEEPS(CLS, LEVEL)                                                   \
public:                                                                     \
	Variant kept_##CLS;                                                     \
                                                                            \
protected:                                                                  \
	bool _set(const StringName &n, const Variant &v) {                      \
		if (n != StringName(prop_name[name_of(LEVEL)])) return false;       \
		kept_##CLS = v;                                                     \
		return true;                                                        \
	}                                                                       \
	bool _get(const StringName &n, Variant &v) const {                      \
		if (n == StringName("class level")) {                               \
			v = LEVEL;                                                      \
			return true;                                                    \
		}                                                                   \
		if (n != StringName(prop_name[name_of(LEVEL)])) return false;       \
		v = kept_##CLS;                                                     \
		return true;                                                        \
	}                                                                       \
	void _notification(int what) { hear(LEVEL, what); }

static int name_of(int level) {
	for (int i = 0; i < NPROP; i++) {
		if (keeper[i] == level) return i;
	}
	return -1;
}
class Alpha : public Object {
	SFW_OBJECT(Alpha, Object);
	KEEPS(Alpha, ALPHA)
	void hear(int level, int what) {
		Quiet q;
		if (!rec) {
			early.push_back(level * 100 + what);
			return;
		}
		rec->heard.push_back(level * 100 + what);
		if (level == ALPHA && what == NOTIFICATION_PREDELETE && rec->refuse) {
			rec->refuse--;
			cancel_free();
		}
	}

public:
	Rec *rec = nullptr;
	std::vector<int> early; // what it heard before it was known
	~Alpha() {
		gone(rec);
		Quiet q;
		early = std::vector<int>();
	}
};
class Beta : public Alpha {
	SFW_OBJECT(Beta, Alpha);
	KEEPS(Beta, BETA)
};
class Gamma : public Beta {
	SFW_OBJECT(Gamma, Beta);
	KEEPS(Gamma, GAMMA)
};
class Plain : public Alpha {
	SFW_OBJECT(Plain, Alpha);
};
class Delta : public Plain {
	SFW_OBJECT(Delta, Plain);
	KEEPS(Delta, DELTA)
};
class Other : public Object {
	SFW_OBJECT(Other, Object);
};

static std::vector<int> levels(int c, bool reversed) { // who hears, in order
	std::vector<int> l;
	for (int x = c; x >= 0; x = parent[x]) {
		if (x != PLAIN) l.push_back(x);
	}
	if (!reversed) l = std::vector<int>(l.rbegin(), l.rend());
	return l;
}
static void heard(std::vector<int> &got, int c, int what, bool reversed, const char *when) {
	Quiet q;
	std::vector<int> l = levels(c, reversed);
	bool ok = got.size() == l.size();
	for (size_t i = 0; ok && i < l.size(); i++) ok = got[i] == l[i] * 100 + what;
	std::string s;
	for (int x : got) s += " " + std::to_string(x);
	SIM_CHECK(ok, "notification", "%s, an object of class %s heard%s", when, cls_name[c], s.c_str());
	got.clear();
}

struct Thing {
	Alpha *p = nullptr;
	Rec *r = nullptr;
};
static Alpha *make(int c) {
	switch (c) {
		case ALPHA: return memnew(Alpha);
		case BETA: return memnew(Beta);
		case GAMMA: return memnew(Gamma);
		case PLAIN: return memnew(Plain);
		default: return memnew(Delta);
	}
}
static Thing construct(int c) {
	Thing t;
	{
		Quiet q;
		t.r = new Rec();
	}
	t.r->cls = c;
	t.p = make(c);
	ev("an object of class %s", cls_name[c]);
	heard(t.p->early, c, Object::NOTIFICATION_POSTINITIALIZE, false, "when made");
	t.p->rec = t.r;
	return t;
}
static void destroy(Thing &t) {
	bool refused = t.r->refuse > 0;
	ev("delete an object of class %s%s", cls_name[t.r->cls], refused ? " that refuses" : "");
	ObjectID id = t.p->get_instance_id();
	memdelete(t.p);
	heard(t.r->heard, t.r->cls, Object::NOTIFICATION_PREDELETE, true, "when deleted");
	SIM_CHECK(t.r->gone == (refused ? 0 : 1), "deleted", "an object that %s its deletion %s", refused ? "refused" : "did not refuse", t.r->gone ? "is gone" : "still exists");
	SIM_CHECK(ObjectDB::get_instance(id) == (refused ? (Object *)t.p : nullptr), "deleted", "an object is%s found after its deletion", refused ? " not" : "");
	if (refused) {
		probe(1, "an object refused its deletion");
		return;
	}
	Quiet q;
	delete t.r;
	t = Thing();
}

template <class T> static void cast(Object *o, int c, int what) {
	T *x = Object::cast_to<T>(o);
	SIM_CHECK(x == (is_a(c, what) ? (T *)(void *)o : nullptr), "class", "an object of class %s is%s taken for a %s", cls_name[c], x ? "" : " not", cls_name[what]);
	const T *y = Object::cast_to<T>((const Object *)o);
	SIM_CHECK(y == x, "class", "an object and the same object as a constant are taken for different classes");
}
static void classes(Object *o, int c) { // only reads
	SIM_CHECK(o->get_class() == cls_name[c], "class", "an object of class %s says another class", cls_name[c]);
	SIM_CHECK(o->get_class_name() == StringName(cls_name[c]), "class", "an object of class %s names another class", cls_name[c]);
	int w = wchoose(CLASSES);
	SIM_CHECK(o->is_class(cls_name[w]) == is_a(c, w), "class", "an object of class %s says wrongly whether it is a %s", cls_name[c], cls_name[w]);
	SIM_CHECK(o->is_class("Object") && !o->is_class("Other") && !o->is_class("Reference"), "class", "an object of class %s says wrongly whether it is an Object", cls_name[c]);
	switch (w) {
		case ALPHA: cast<Alpha>(o, c, w); break;
		case BETA: cast<Beta>(o, c, w); break;
		case GAMMA: cast<Gamma>(o, c, w); break;
		case PLAIN: cast<Plain>(o, c, w); break;
		default: cast<Delta>(o, c, w); break;
	}
	SIM_CHECK(!Object::cast_to<Other>(o) && Object::cast_to<Object>(o) == o && !Object::cast_to<Alpha>((Object *)nullptr), "class", "an object of class %s is taken for what it is not", cls_name[c]);
}
static void statics() {
	Vector<String> l;
	Delta::get_inheritance_list_static(&l);
	SIM_CHECK(l.size() == 4 && l[0] == "Object" && l[1] == "Alpha" && l[2] == "Plain" && l[3] == "Delta", "class", "the classes that Delta descends from are others");
	SIM_CHECK(Gamma::get_parent_class_static() == "Beta" && Gamma::inherits_static() == "Beta" && Gamma::get_class_static() == "Gamma", "class", "the class that Gamma descends from is another");
}

static void op(std::vector<Thing> &T) {
	Thing &t = T[wchoose(T.size())];
	if (!t.p) {
		t = construct(wchoose(CLASSES));
		return;
	}
	Alpha *o = t.p;
	Rec &r = *t.r;
	switch (wchoose(11)) {
		default: classes(o, r.cls); break;
		case 1:
		case 2: { // set a property
			int n = wchoose(NPROP), k = wchoose(30);
			bool want = keeper[n] >= 0 && is_a(r.cls, keeper[n]), ok = !want;
			ev("set property %s of an object of class %s", prop_name[n], cls_name[r.cls]);
			switch (wchoose(3)) {
				case 0: o->set(prop_name[n], value_of(k), &ok); break;
				case 1: {
					Variant v((Object *)o);
					v.set(StringName(prop_name[n]), value_of(k), &ok);
					break;
				}
				default: {
					Variant v((Object *)o);
					v.set_named(prop_name[n], value_of(k), &ok);
					break;
				}
			}
			SIM_CHECK(ok == want, "property", "setting property %s of an object of class %s says it %s", prop_name[n], cls_name[r.cls], ok ? "worked" : "did not work");
			Quiet q;
			if (ok) r.props[n] = k;
		} break;
		case 3:
		case 4: { // get a property
			int n = wchoose(NPROP);
			bool want = keeper[n] >= 0 && is_a(r.cls, keeper[n]), ok = !want;
			Variant x;
			switch (wchoose(3)) {
				case 0: x = o->get(prop_name[n], &ok); break;
				case 1: x = Variant((Object *)o).get(StringName(prop_name[n]), &ok); break;
				default: x = Variant((Object *)o).get_named(prop_name[n], &ok); break;
			}
			SIM_CHECK(ok == want, "property", "getting property %s of an object of class %s says it %s", prop_name[n], cls_name[r.cls], ok ? "worked" : "did not work");
			auto it = r.props.find(n);
			if (it == r.props.end()) {
				SIM_CHECK(x.get_type() == Variant::NIL, "property", "property %s of an object of class %s has a value before it was set", prop_name[n], cls_name[r.cls]);
			} else {
				is_value(x, it->second, "property", prop_name[n]);
				probe(2, "a property was read back");
			}
			x = o->get("class level", &ok);
			int c = r.cls == PLAIN ? (int)ALPHA : r.cls;
			SIM_CHECK(ok && x.get_type() == Variant::INT && (int)x == c, "property", "what every class answers is answered by another class than the object's own");
		} break;
		case 5: { // set metadata
			int n = wchoose(NMETA), k = wchoose(30);
			bool none = wchoose(4) == 0;
			ev("set metadata %s", meta_name[n]);
			o->set_meta(meta_name[n], none ? Variant() : value_of(k));
			Quiet q;
			if (none) {
				r.meta.erase(n);
			} else {
				r.meta[n] = k;
			}
		} break;
		case 6: { // get metadata
			int n = wchoose(NMETA);
			auto it = r.meta.find(n);
			bool has = it != r.meta.end();
			SIM_CHECK(o->has_meta(meta_name[n]) == has, "metadata", "metadata \"%s\" is%s said to exist", meta_name[n], has ? " not" : "");
			Variant x = o->get_meta(meta_name[n], "nothing");
			if (has) {
				is_value(x, it->second, "metadata", meta_name[n]);
			} else {
				SIM_CHECK(x == Variant("nothing"), "metadata", "metadata \"%s\" that was never set is something else than the default", meta_name[n]);
			}
			SIM_CHECK(o->has_meta(meta_name[n]) == has, "metadata", "reading metadata \"%s\" changed whether it exists", meta_name[n]);
		} break;
		case 7: {
			int n = wchoose(NMETA);
			o->remove_meta(meta_name[n]);
			Quiet q;
			r.meta.erase(n);
		} break;
		case 8: { // all metadata, to another object
			bool ok = false;
			Dictionary d = o->get("__meta__", &ok);
			SIM_CHECK(ok && d.size() == (int)r.meta.size(), "metadata", "an object has %d metadata entries, expected %zu", d.size(), r.meta.size());
			for (auto &m : r.meta) {
				const Variant *x = d.getptr(meta_name[m.first]);
				SIM_CHECK(x, "metadata", "metadata \"%s\" is missing among all metadata", meta_name[m.first]);
				is_value(*x, m.second, "metadata", meta_name[m.first]);
			}
			Thing &u = T[wchoose(T.size())];
			if (!u.p || u.p == o) break;
			ok = false;
			u.p->set("__meta__", d, &ok);
			SIM_CHECK(ok, "metadata", "metadata of another object cannot be taken over");
			probe(3, "metadata was taken over from another object");
			Quiet q;
			u.r->meta = r.meta;
		} break;
		case 9: { // notification
			int what = 2 + wchoose(3);
			bool reversed = wchoose(2);
			o->notification(what, reversed);
			heard(r.heard, r.cls, what, reversed, "notified");
			SIM_CHECK(o->to_string() == String("[") + cls_name[r.cls] + ":" + itos(o->get_instance_id()) + "]", "class", "an object of class %s is printed as another", cls_name[r.cls]);
		} break;
		case 10: {
			if (wchoose(3) == 0) r.refuse = 1;
			destroy(t);
		} break;
	}
}
static void finish(std::vector<Thing> &T) {
	for (auto &t : T) {
		if (!t.p) continue;
		t.r->refuse = 0;
		destroy(t);
	}
}
static void warm() { // what is made once for each class and never returned
	for (int c = 0; c < CLASSES; c++) {
		Alpha *p = make(c);
		Variant v((Object *)p);
		memdelete(p);
	}
}
static void lost(uint64_t mark) {
	uint64_t by = 0, n = heap_live_since(mark, &by);
	SIM_CHECK(n == 0, "lost", "%llu blocks of %llu bytes are left after the last object is gone", (unsigned long long)n, (unsigned long long)by);
}
static void history() {
	warm();
	uint64_t mark = heap_mark();
	{
		statics();
		std::vector<Thing> T(1 + choose(ST_CFG, 3));
		int n = 4 + choose(ST_CFG, 40);
		for (int i = 0; i < n; i++) op(T);
		finish(T);
	}
	lost(mark);
}
// Objects of their own in several threads, and objects that all threads only read.
static void threads() {
	warm();
	uint64_t mark = heap_mark();
	{
		std::vector<Thing> shared;
		int ns = 1 + choose(ST_CFG, 2);
		for (int i = 0; i < ns; i++) {
			shared.push_back(construct(choose(ST_CFG, CLASSES)));
			Thing &t = shared.back();
			int n = choose(ST_CFG, NMETA), k = choose(ST_CFG, 30);
			t.p->set_meta(meta_name[n], value_of(k));
			t.p->set(prop_name[ALPHA], value_of(k));
			t.r->meta[n] = k;
			t.r->props[ALPHA] = k;
		}
		int nt = 2 + choose(ST_CFG, 2);
		std::vector<int> ts;
		std::vector<Thing> *S = &shared;
		for (int t = 0; t < nt; t++) {
			ts.push_back(spawn([S] {
				std::vector<Thing> *T;
				{
					Quiet q;
					T = new std::vector<Thing>(2);
				}
				int n = 2 + (int)wchoose(12);
				for (int i = 0; i < n; i++) {
					if (wchoose(3)) {
						op(*T);
						continue;
					}
					Thing &s = (*S)[wchoose(S->size())];
					classes(s.p, s.r->cls);
					bool ok = false;
					is_value(s.p->get(prop_name[ALPHA], &ok), s.r->props.begin()->second, "property", prop_name[ALPHA]);
					SIM_CHECK(ok, "property", "a property of an object that several threads read is not found");
					int m = s.r->meta.begin()->first;
					SIM_CHECK(s.p->has_meta(meta_name[m]), "metadata", "metadata of an object that several threads read is not found");
					SIM_CHECK(ObjectDB::get_instance(s.p->get_instance_id()) == s.p, "class", "an object that several threads read is not found by its id");
					probe(4, "an object was read by several threads");
				}
				finish(*T);
				Quiet q;
				delete T;
			}));
		}
		for (int t : ts) join(t);
		finish(shared);
	}
	lost(mark);
}
} // namespace
SCENARIO(C14, histories, 3) { history(); }
SCENARIO(C14, threads, 2) { threads(); }
