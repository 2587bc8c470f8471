// C04: a counted object is destroyed exactly once, right after its last owner.
// C05: an object id finds its object while it lives and nothing afterwards.
#include "common.h"
#include <set>
using namespace sim;

namespace {
// ---- C04 --------------------------------------------------------------------------------------
// Every handle is counted twice: `sure` (completely taken, release not begun) and `maybe` (release not finished).
// An object may be destroyed only while sure == 0 and must be destroyed once maybe == 0.
struct Rec {
	int sure = 0, maybe = 0, destroyed = 0;
	void *p = nullptr;
	bool leaf = false;
};
enum { MAXO = 96 };
static Rec *census;
static int made;
static bool alone; // one thread: counts are compared after every step

static void take_begin(int id) {
	Quiet q;
	if (id >= 0) census[id].maybe++;
}
static void take_end(int id) {
	Quiet q;
	if (id < 0) return;
	SIM_CHECK(!census[id].destroyed, "destroyed-while-held", "object %d was destroyed although a handle to it was being taken from another handle", id);
	census[id].sure++;
}
static void drop_begin(int id) {
	Quiet q;
	if (id < 0) return;
	SIM_CHECK(!census[id].destroyed, "destroyed-while-held", "object %d was destroyed although a handle still holds it", id);
	census[id].sure--;
}
static void drop_end(int id) {
	Quiet q;
	if (id < 0) return;
	census[id].maybe--;
	if (census[id].maybe == 0) SIM_CHECK(census[id].destroyed == 1, "not-destroyed", "object %d still exists after its last handle was dropped", id);
}

class CBase : public Reference {
	SFW_OBJECT(CBase, Reference);

public:
	int id;
	int links[2]; // objects held by the members of the derived class
	uint64_t canary;
	CBase() {
		Quiet q;
		if (made >= MAXO) end_run();
		id = made++;
		census[id].p = this;
		links[0] = links[1] = -1;
		canary = 0xfeedbeef00 + id;
	}
	~CBase() {
		Quiet q;
		SIM_CHECK(canary == 0xfeedbeef00ULL + id, "corrupt", "object %d is corrupt at its destruction", id);
		Rec &r = census[id];
		SIM_CHECK(r.destroyed == 0, "destroyed-twice", "object %d was destroyed twice", id);
		SIM_CHECK(r.sure == 0, "destroyed-while-held", "object %d is destroyed while %d handles hold it", id, r.sure);
		r.destroyed++;
		ev("destroyed %d", id);
		for (int l : links) drop_end(l);
	}
};
class Node : public CBase {
	SFW_OBJECT(Node, CBase);

public:
	Ref<Node> next;
	Variant box;
	~Node() {
		for (int l : links) drop_begin(l);
	}
};
class Leaf : public Node {
	SFW_OBJECT(Leaf, Node);

public:
	int more = 5;
};
class Stranger : public Reference {
	SFW_OBJECT(Stranger, Reference);
};

// A holder: one variable of some handle-bearing type together with the objects it holds according to the model.
struct Holder {
	enum Kind { REF_NODE, REF_LEAF, REF_BASE, REFPTR, VARIANT, ARRAY, VECTOR, KINDS } kind;
	Ref<Node> n;
	Ref<Leaf> l;
	Ref<Reference> b;
	RefPtr p;
	Variant v;
	Array a;
	Vector<Ref<Node>> vec;
	std::vector<int> ids; // -1: holds nothing
};

static int id_of(Reference *r) {
	return r ? static_cast<CBase *>(r)->id : -1;
}
static Reference *peek(const Variant &v) { return Object::cast_to<Reference>((Object *)v); }

// The single object a simple holder holds, as the library says.
static int says(Holder &h) {
	switch (h.kind) {
		case Holder::REF_NODE: return id_of(h.n.ptr());
		case Holder::REF_LEAF: return id_of(h.l.ptr());
		case Holder::REF_BASE: return id_of(h.b.ptr());
		case Holder::REFPTR: return h.p.is_null() ? -1 : id_of(reinterpret_cast<Ref<Reference> *>(h.p.get_data())->ptr());
		case Holder::VARIANT: return id_of(peek(h.v));
		default: return -1;
	}
}
static void verify(Holder &h, const char *who) {
	std::vector<int> got;
	switch (h.kind) {
		case Holder::ARRAY:
			for (int i = 0; i < h.a.size(); i++) got.push_back(id_of(peek(h.a[i])));
			break;
		case Holder::VECTOR:
			for (int i = 0; i < h.vec.size(); i++) got.push_back(id_of(const_cast<Node *>(h.vec[i].ptr())));
			break;
		default:
			got.push_back(says(h));
	}
	Quiet q;
	SIM_CHECK(got.size() == h.ids.size(), "wrong-object", "%s: a container holds %zu handles, expected %zu", who, got.size(), h.ids.size());
	for (size_t i = 0; i < got.size(); i++) {
		SIM_CHECK(got[i] == h.ids[i], "wrong-object", "%s: a handle of kind %d holds object %d, expected %d", who, (int)h.kind, got[i], h.ids[i]);
		if (got[i] < 0) continue;
		Rec &r = census[got[i]];
		SIM_CHECK(!r.destroyed, "destroyed-while-held", "%s: object %d was destroyed while held", who, got[i]);
		SIM_CHECK(static_cast<CBase *>(r.p)->canary == 0xfeedbeef00ULL + got[i], "corrupt", "object %d is corrupt", got[i]);
	}
}
static void count_check() {
	Quiet q;
	for (int i = 0; i < made; i++) {
		Rec &r = census[i];
		if (r.destroyed) continue;
		if (r.maybe != r.sure) continue;
		int c = static_cast<CBase *>(r.p)->reference_get_count();
		SIM_CHECK(c == r.maybe, "owner-count", "object %d reports %d owners, %d handles hold it", i, c, r.maybe);
	}
}
// set a simple holder from a raw node pointer / other handle; the model of h.ids[0] is replaced by id.
static void assign_from(Holder &h, Holder &src, int id) {
	// the value arriving depends on the type of the destination: a Ref<Leaf> refuses other nodes
	int nid = id;
	if (h.kind == Holder::REF_LEAF && id >= 0 && !census[id].leaf) nid = -1;
	int old = h.ids[0];
	take_begin(nid);
	drop_begin(old);
	switch (h.kind) {
		case Holder::REF_NODE:
			switch (src.kind) {
				case Holder::REF_NODE: h.n = src.n; break;
				case Holder::REF_LEAF: h.n = src.l; break;
				case Holder::REF_BASE: h.n = src.b; break;
				case Holder::REFPTR: h.n = src.p; break;
				default: h.n = src.v; break;
			}
			break;
		case Holder::REF_LEAF:
			switch (src.kind) {
				case Holder::REF_NODE: h.l = src.n; break;
				case Holder::REF_LEAF: h.l = src.l; break;
				case Holder::REF_BASE: h.l = src.b; break;
				case Holder::REFPTR: h.l = src.p; break;
				default: h.l = src.v; break;
			}
			break;
		case Holder::REF_BASE:
			switch (src.kind) {
				case Holder::REF_NODE: h.b = src.n; break;
				case Holder::REF_LEAF: h.b = src.l; break;
				case Holder::REF_BASE: h.b = src.b; break;
				case Holder::REFPTR: h.b = src.p; break;
				default: h.b = src.v; break;
			}
			break;
		case Holder::REFPTR:
			switch (src.kind) {
				case Holder::REF_NODE: h.p = src.n.get_ref_ptr(); break;
				case Holder::REF_LEAF: h.p = src.l.get_ref_ptr(); break;
				case Holder::REF_BASE: h.p = src.b.get_ref_ptr(); break;
				case Holder::REFPTR: h.p = src.p; break;
				default: h.p = (RefPtr)src.v; break;
			}
			break;
		default:
			switch (src.kind) {
				case Holder::REF_NODE: h.v = wchoose(2) ? Variant(src.n) : Variant((const Object *)src.n.ptr()); break;
				case Holder::REF_LEAF: h.v = src.l; break;
				case Holder::REF_BASE: h.v = src.b; break;
				case Holder::REFPTR: h.v = src.p; break;
				default: h.v = src.v; break;
			}
	}
	h.ids[0] = nid;
	take_end(nid);
	drop_end(old);
}
static bool simple(const Holder &h) { return h.kind <= Holder::VARIANT; }
static void reset(Holder &h) {
	std::vector<int> old = h.ids;
	for (int i : old) drop_begin(i);
	switch (h.kind) {
		case Holder::REF_NODE: wchoose(2) ? h.n.unref() : (void)(h.n = Ref<Node>()); break;
		case Holder::REF_LEAF: wchoose(2) ? h.l.unref() : (void)(h.l = Ref<Leaf>()); break;
		case Holder::REF_BASE: wchoose(2) ? h.b.unref() : (void)(h.b = Ref<Reference>()); break;
		case Holder::REFPTR: wchoose(2) ? h.p.unref() : (void)(h.p = RefPtr()); break;
		case Holder::VARIANT: h.v = wchoose(2) ? Variant() : Variant(17); break;
		case Holder::ARRAY: wchoose(2) ? h.a.clear() : (void)(h.a = Array()); break;
		default: wchoose(2) ? h.vec.clear() : (void)(h.vec = Vector<Ref<Node>>()); break;
	}
	if (simple(h)) h.ids.assign(1, -1); else h.ids.clear();
	for (int i : old) drop_end(i);
}
static void create(Holder &h) {
	bool leaf = h.kind == Holder::REF_LEAF || wchoose(3) == 0;
	int old = h.ids[0];
	drop_begin(old);
	int id;
	{
		switch (h.kind) {
			case Holder::REF_NODE:
				if (leaf) {
					h.n = Ref<Node>(memnew(Leaf));
				} else if (wchoose(2)) {
					h.n.instance();
				} else {
					h.n.reference_ptr(memnew(Node));
				}
				break;
			case Holder::REF_LEAF: wchoose(2) ? h.l.instance() : (void)(h.l = Ref<Leaf>(memnew(Leaf))); break;
			case Holder::REF_BASE: h.b = leaf ? Ref<Reference>(memnew(Leaf)) : Ref<Reference>(memnew(Node)); break;
			case Holder::REFPTR: h.p = leaf ? Ref<Leaf>(memnew(Leaf)).get_ref_ptr() : Ref<Node>(memnew(Node)).get_ref_ptr(); break;
			default: h.v = leaf ? Variant(memnew(Leaf)) : Variant(memnew(Node)); break;
		}
		id = says(h);
	}
	SIM_CHECK(id >= 0, "wrong-object", "a handle is empty after a new object was put into it");
	{
		Quiet q;
		census[id].leaf = leaf;
	}
	h.ids[0] = id;
	take_begin(id);
	take_end(id);
	drop_end(old);
	ev("create %d in kind %d", id, (int)h.kind);
}
struct Local {
	std::vector<Holder *> hs;
	std::set<int> own; // objects only this thread can reach: may be linked
	Mutex *m;
	Holder *mail;
	const char *who;
};
// Per-run bias: two operations taken half the time (-1: none).
static int favour[2];
static void step(Local &L) {
	Holder &h = *L.hs[wchoose(L.hs.size())];
	Holder &o = *L.hs[wchoose(L.hs.size())];
	uint32_t what = wchoose(14);
	if (favour[0] >= 0 && wchoose(2)) what = favour[wchoose(2)];
	switch (what) {
		case 0:
			if (simple(h)) {
				create(h);
				if (h.ids[0] >= 0) L.own.insert(h.ids[0]);
			}
			break;
		case 1:
		case 2:
			if (simple(h) && simple(o)) {
				ev("copy kind %d -> kind %d", (int)o.kind, (int)h.kind);
				assign_from(h, o, o.ids[0]);
			}
			break;
		case 3: ev("reset kind %d", (int)h.kind); reset(h); break;
		case 4: // put into / take out of a container
			if (h.kind == Holder::ARRAY && simple(o)) {
				int id = o.ids[0];
				if (id < 0) break;
				ev("array add %d", id);
				take_begin(id);
				switch (o.kind) {
					case Holder::REF_NODE: h.a.push_back(o.n); break;
					case Holder::REF_LEAF: h.a.push_back(o.l); break;
					case Holder::REF_BASE: h.a.push_back(o.b); break;
					case Holder::REFPTR: h.a.push_back(o.p); break;
					default: h.a.push_back(o.v); break;
				}
				h.ids.push_back(id);
				take_end(id);
			} else if (h.kind == Holder::VECTOR && o.kind == Holder::REF_NODE && o.ids[0] >= 0) {
				ev("vector add %d", o.ids[0]);
				take_begin(o.ids[0]);
				h.vec.push_back(o.n);
				h.ids.push_back(o.ids[0]);
				take_end(o.ids[0]);
			}
			break;
		case 5:
			if (simple(h)) break;
			if (h.ids.empty()) break;
			{
				uint32_t k = wchoose(h.ids.size());
				int id = h.ids[k];
				ev("remove %u", k);
				drop_begin(id);
				if (h.kind == Holder::ARRAY) {
					h.a.remove(k);
				} else {
					h.vec.remove(k);
				}
				h.ids.erase(h.ids.begin() + k);
				drop_end(id);
			}
			break;
		case 6: // replace inside a container
			if (h.kind == Holder::VECTOR && o.kind == Holder::REF_NODE && h.ids.size()) {
				uint32_t k = wchoose(h.ids.size());
				int old = h.ids[k], id = o.ids[0];
				ev("vector set %u = %d", k, id);
				take_begin(id);
				drop_begin(old);
				h.vec.write[k] = o.n;
				h.ids[k] = id;
				take_end(id);
				drop_end(old);
			} else if (h.kind == Holder::ARRAY && o.kind == Holder::VARIANT && h.ids.size()) {
				uint32_t k = wchoose(h.ids.size());
				int old = h.ids[k], id = o.ids[0];
				ev("array set %u = %d", k, id);
				take_begin(id);
				drop_begin(old);
				h.a[k] = o.v;
				h.ids[k] = id;
				take_end(id);
				drop_end(old);
			}
			break;
		case 7: // link: node -> other object of the same thread that was made later (no cycles)
			if (h.kind == Holder::REF_NODE && h.ids[0] >= 0 && L.own.count(h.ids[0]) && o.kind == Holder::REF_NODE && o.ids[0] > h.ids[0]) {
				Node *n = h.n.ptr();
				int id = o.ids[0], old = n->links[0];
				ev("link %d -> %d", h.ids[0], id);
				take_begin(id);
				drop_begin(old);
				{
					Quiet q;
					n->links[0] = id;
				}
				n->next = o.n;
				take_end(id);
				drop_end(old);
				if (wchoose(3) == 0) reset(o); // the link may be all that holds it
			}
			break;
		case 8: // box inside a node
			if (h.kind == Holder::REF_NODE && h.ids[0] >= 0 && L.own.count(h.ids[0]) && o.kind == Holder::VARIANT && o.ids[0] > h.ids[0]) {
				Node *n = h.n.ptr();
				int id = o.ids[0], old = n->links[1];
				ev("box %d -> %d", h.ids[0], id);
				take_begin(id);
				drop_begin(old);
				{
					Quiet q;
					n->links[1] = id;
				}
				n->box = o.v;
				take_end(id);
				drop_end(old);
				if (wchoose(3) == 0) reset(o);
			}
			break;
		case 9: // walk: the handle moves to the object its own object holds
			if (h.kind == Holder::REF_NODE && h.ids[0] >= 0 && L.own.count(h.ids[0])) {
				Node *n = h.n.ptr();
				bool boxed = wchoose(2);
				int id = n->links[boxed], old = h.ids[0];
				ev("walk %d -> %d", old, id);
				probe(20, "walked along a chain");
				take_begin(id);
				drop_begin(old);
				if (boxed) {
					h.n = n->box;
				} else if (wchoose(2)) {
					h.n.reference_ptr(n->next.ptr());
				} else {
					h.n = n->next;
				}
				h.ids[0] = id;
				take_end(id);
				drop_end(old);
			} else if (h.kind == Holder::VARIANT && h.ids[0] >= 0 && L.own.count(h.ids[0])) {
				Node *n = Object::cast_to<Node>((Object *)h.v);
				if (!n || n->links[1] < 0) break;
				int id = n->links[1], old = h.ids[0];
				ev("walk boxed %d -> %d", old, id);
				take_begin(id);
				drop_begin(old);
				h.v = n->box;
				h.ids[0] = id;
				take_end(id);
				drop_end(old);
			}
			break;
		case 12: // a list that nothing but its head holds, walked to its end or half way
			if (h.kind == Holder::REF_NODE && made + 4 < MAXO) {
				ev("list");
				create(h);
				if (h.ids[0] < 0) break;
				L.own.insert(h.ids[0]);
				Node *tail = h.n.ptr();
				int n = 1 + wchoose(3);
				for (int i = 0; i < n && tail; i++) {
					Holder t;
					t.kind = Holder::REF_NODE;
					t.ids.assign(1, -1);
					create(t);
					int id = t.ids[0];
					if (id < 0 || id < h.ids[0]) {
						reset(t);
						break;
					}
					L.own.insert(id);
					take_begin(id);
					{
						Quiet q;
						tail->links[0] = id;
					}
					tail->next = t.n;
					take_end(id);
					tail = t.n.ptr();
					reset(t);
				}
				int far = wchoose(n + 2);
				for (int i = 0; i < far && h.ids[0] >= 0; i++) {
					Node *x = h.n.ptr();
					int id = x->links[0], old = h.ids[0];
					take_begin(id);
					drop_begin(old);
					switch (wchoose(3)) {
						case 0: h.n = x->next; break;
						case 1: h.n.reference_ptr(x->next.ptr()); break;
						default: h.n = Ref<Node>(x->next.ptr()); break;
					}
					h.ids[0] = id;
					take_end(id);
					drop_end(old);
					probe(21, "walked along a list that nothing else held");
				}
			}
			break;
		case 10: // raw pointer to the same or another object
			if (h.kind == Holder::REF_NODE && o.kind == Holder::REF_NODE && o.ids[0] >= 0) {
				int id = o.ids[0], old = h.ids[0];
				ev("raw %d", id);
				take_begin(id);
				drop_begin(old);
				if (wchoose(2)) {
					h.n.reference_ptr(o.n.ptr());
				} else {
					h.n = Ref<Node>(o.n.ptr());
				}
				h.ids[0] = id;
				take_end(id);
				drop_end(old);
			}
			break;
		case 11: // temporary handles
			if (simple(h) && h.kind == Holder::REF_NODE && h.ids[0] >= 0) {
				Ref<Node> t = h.n;
				Ref<Leaf> u = t;
				Variant v = t;
				RefPtr p = v;
				Ref<Node> w(p);
				Ref<Stranger> none = h.n;
				SIM_CHECK(none.is_null(), "wrong-object", "a handle of an unrelated type took the object");
				SIM_CHECK(u.is_valid() == census[h.ids[0]].leaf, "wrong-object", "a handle of derived type is %s", u.is_valid() ? "set" : "empty");
				SIM_CHECK(w == t && v.is_ref() && v.get_object_instance_id() == h.n->get_instance_id(), "wrong-object", "a boxed handle holds another object");
				if (wchoose(2)) t = u;
			}
			break;
		default: // mailbox shared by the threads
			if (L.mail && simple(h)) {
				MutexLock l(*L.m);
				if (wchoose(2)) {
					ev("post");
					if (h.ids[0] >= 0) L.own.clear(); // reachable by others from here on, through links too
					assign_from(*L.mail, h, h.ids[0]);
				} else {
					ev("fetch");
					assign_from(h, *L.mail, L.mail->ids[0]);
				}
			}
	}
	if (alone) count_check();
}
// blocks in use before a run: the tables of the registry exist already, so that they count the same before and after
static uint64_t blocks_before() {
	memnew(Stranger);
	memnew(Object);
	return heap_live_since(0);
}
static void c04(int TN) {
	uint64_t before = blocks_before();
	std::vector<Rec> recs(MAXO);
	census = recs.data();
	made = 0;
	alone = TN == 1;
	favour[0] = (int)choose(ST_CFG, 28) - 14;
	favour[1] = favour[0] < 0 ? -1 : choose(ST_CFG, 3) ? (int)choose(ST_CFG, 14) : favour[0] == 9 ? 7 : 9;
	Mutex m;
	Holder *mail = TN > 1 ? new Holder() : nullptr;
	if (mail) {
		mail->kind = (Holder::Kind)choose(ST_CFG, 5);
		if (mail->kind == Holder::REF_LEAF) mail->kind = Holder::VARIANT;
		mail->ids.assign(1, -1);
	}
	std::vector<Local> L(TN);
	std::vector<Holder *> first;
	for (int t = 0; t < TN; t++) {
		L[t].m = &m;
		L[t].mail = mail;
		for (int i = 0; i < 5; i++) {
			Holder *h = new Holder();
			h->kind = i == 0 ? Holder::REF_NODE : (Holder::Kind)choose(ST_CFG, Holder::KINDS);
			if (i == 1 && choose(ST_CFG, 2)) h->kind = Holder::REF_NODE;
			if (simple(*h)) h->ids.assign(1, -1);
			L[t].hs.push_back(h);
		}
	}
	// shared objects: every thread starts with a handle to each
	int shared = 1 + choose(ST_CFG, 2);
	for (int s = 0; s < shared; s++) {
		Holder src;
		src.kind = Holder::REF_NODE;
		src.ids.assign(1, -1);
		create(src);
		int put = 0;
		for (int t = 0; t < TN; t++) {
			Holder &h = *L[t].hs[s];
			if (!simple(h)) continue;
			assign_from(h, src, src.ids[0]);
			put++;
		}
		if (TN == 1 && src.ids[0] >= 0) L[0].own.insert(src.ids[0]);
		reset(src);
	}
	count_check();
	int steps = 3 + choose(ST_CFG, TN == 1 ? 24 : 8);
	if (TN == 1) {
		for (int i = 0; i < steps; i++) step(L[0]);
	} else {
		std::vector<int> ts;
		for (int t = 0; t < TN; t++) {
			ts.push_back(spawn([&, t] {
				for (int i = 0; i < steps; i++) step(L[t]);
				for (Holder *h : L[t].hs) verify(*h, "end of thread");
				if (wchoose(2)) {
					for (Holder *h : L[t].hs) reset(*h);
				}
			}));
		}
		for (int t : ts) join(t);
	}
	count_check();
	for (auto &l : L) {
		for (Holder *h : l.hs) {
			verify(*h, "end");
			std::vector<int> ids = h->ids;
			for (int i : ids) drop_begin(i);
			delete h;
			for (int i : ids) drop_end(i);
		}
	}
	if (mail) {
		int id = mail->ids[0];
		drop_begin(id);
		delete mail;
		drop_end(id);
	}
	for (int i = 0; i < made; i++) {
		SIM_CHECK(recs[i].destroyed == 1, recs[i].destroyed ? "destroyed-twice" : "not-destroyed", "object %d was destroyed %d times when all handles were gone", i, recs[i].destroyed);
	}
	uint64_t after = heap_live_since(0);
	SIM_CHECK(after == before, "leak", "%llu blocks in use before, %llu when all handles were gone", (unsigned long long)before, (unsigned long long)after);
}

// ---- C05 --------------------------------------------------------------------------------------
struct Life {
	uint64_t id = 0, born = 0, begins = 0, ended = 0; // logical times; 0 = not yet
	Object *p = nullptr;
};
static std::vector<Life> *lives;
class Thing : public Object {
	SFW_OBJECT(Thing, Object);

public:
	size_t n;
	Thing() {
		Object *me = ObjectDB::get_instance(get_instance_id());
		SIM_CHECK(me == this, "lookup", "an object does not find itself by its id while it is being constructed");
		Quiet q;
		n = lives->size();
		Life l;
		l.id = get_instance_id();
		l.p = this;
		SIM_CHECK(l.id != 0, "id", "an object has no id");
		for (auto &o : *lives) SIM_CHECK(o.id != l.id, "id", "id %llu was given out twice", (unsigned long long)l.id);
		l.born = stamp();
		lives->push_back(l);
	}
	Thing(int) {}
	~Thing() {
		Quiet q;
		if (!(*lives)[n].begins) (*lives)[n].begins = stamp();
	}
};
class Counted : public Reference {
	SFW_OBJECT(Counted, Reference);

public:
	size_t n;
	Counted() {
		Quiet q;
		n = lives->size();
		Life l;
		l.id = get_instance_id();
		l.p = this;
		for (auto &o : *lives) SIM_CHECK(o.id != l.id, "id", "id %llu was given out twice", (unsigned long long)l.id);
		l.born = stamp();
		lives->push_back(l);
	}
	~Counted() {
		Quiet q;
		if (!(*lives)[n].begins) (*lives)[n].begins = stamp();
	}
};
static void begin(size_t n) {
	Quiet q;
	(*lives)[n].begins = stamp();
}
static void ended(size_t n) {
	Quiet q;
	(*lives)[n].ended = stamp();
}
static void lookup(size_t n, const char *who) {
	uint64_t t0, id;
	{
		Quiet q;
		id = (*lives)[n].id;
		t0 = stamp();
	}
	Object *o = ObjectDB::get_instance(id);
	Quiet q;
	uint64_t t1 = stamp();
	Life &l = (*lives)[n];
	ev("%s looks up %zu: %s", who, n, o ? "found" : "nothing");
	if (o) {
		SIM_CHECK(o == l.p, "lookup", "id %llu found another object", (unsigned long long)id);
		SIM_CHECK(!(l.ended && l.ended < t0), "lookup-dead", "id %llu still finds its object after the object was destroyed", (unsigned long long)id);
	} else {
		SIM_CHECK(l.begins && l.begins < t1, "lookup-live", "id %llu finds nothing although its object lives", (unsigned long long)id);
	}
}
static std::set<Object *> *listed;
static void listing(Object *o) {
	Quiet q;
	SIM_CHECK(listed->insert(o).second, "registry", "an object is listed twice");
}
static void registry(int base, std::set<Object *> &before) {
	std::set<Object *> now;
	listed = &now;
	ObjectDB::debug_objects(listing);
	int count = ObjectDB::get_object_count();
	std::set<Object *> want = before;
	for (auto &l : *lives) {
		if (!l.ended) want.insert(l.p);
	}
	SIM_CHECK(count == (int)want.size(), "registry", "%d objects are registered, %zu live", count, want.size());
	SIM_CHECK(now == want, "registry", "the registry does not list exactly the live objects");
	for (auto &l : *lives) {
		if (!l.ended) SIM_CHECK(ObjectDB::instance_validate(l.p), "registry", "a live object is not valid");
	}
}
static void c05(int TN, bool boxing) {
	uint64_t blocks = blocks_before();
	std::vector<Life> ls;
	ls.reserve(256);
	lives = &ls;
	std::set<Object *> before;
	listed = &before;
	ObjectDB::debug_objects(listing);
	int base = ObjectDB::get_object_count();
	Variant shared_box; // boxed before the threads start in some runs
	Thing *common = boxing ? memnew(Thing) : nullptr; // boxed and unboxed by all threads, destroyed by one of them
	uint64_t common_id = common ? common->get_instance_id() : 0;
	bool prebox = boxing && choose(ST_CFG, 2);
	if (prebox) shared_box = Variant(common);
	SafeFlag go_away;
	SafeNumeric<uint32_t> done_boxing(0);
	int steps = 3 + choose(ST_CFG, 7);
	auto body = [&](int t) {
		char who[8];
		snprintf(who, sizeof who, "t%d", t);
		std::vector<Thing *> mine;
		std::vector<Ref<Counted>> refs;
		std::vector<Variant> boxes;
		std::vector<Thing *> boxed_of;
		Variant mybox;
		bool have = false;
		if (boxing) {
			// every thread takes its first box concurrently
			mybox = (prebox && wchoose(2)) ? shared_box : Variant(common);
			have = true;
			Object *o = mybox;
			SIM_CHECK(o == common && !mybox.is_invalid_object(), "box", "a boxed object is not the object");
			done_boxing.increment();
		}
		for (int i = 0; i < steps; i++) {
			switch (wchoose(8)) {
				case 0:
				case 1:
					mine.push_back(memnew(Thing));
					ev("%s makes %zu", who, mine.back()->n);
					break;
				case 2:
					if (mine.size()) {
						uint32_t k = wchoose(mine.size());
						Thing *p = mine[k];
						size_t n = p->n;
						uint64_t id = p->get_instance_id();
						mine.erase(mine.begin() + k);
						ev("%s destroys %zu", who, n);
						begin(n);
						memdelete(p);
						ended(n);
						lookup(n, who);
						for (size_t b = 0; b < boxes.size(); b++) {
							if (boxed_of[b] != p) continue;
							SIM_CHECK((Object *)boxes[b] == nullptr && boxes[b].is_invalid_object(), "box-dead", "a boxed object is still handed out after it was destroyed");
							SIM_CHECK(boxes[b].get_object_instance_id() == id, "box", "a box forgot the id of its object");
						}
					}
					break;
				case 3:
					if (mine.size()) {
						Thing *p = mine[wchoose(mine.size())];
						ev("%s boxes %zu", who, p->n);
						boxes.push_back(Variant(p));
						boxed_of.push_back(p);
						SIM_CHECK((Object *)boxes.back() == p && boxes.back().get_object_instance_id() == p->get_instance_id(), "box", "a boxed object is not the object");
					}
					break;
				case 4:
					if (boxes.size()) {
						uint32_t k = wchoose(boxes.size());
						if (wchoose(2)) {
							boxes.push_back(boxes[k]);
							Thing *b = boxed_of[k];
							boxed_of.push_back(b);
						} else {
							boxes.erase(boxes.begin() + k);
							boxed_of.erase(boxed_of.begin() + k);
						}
					}
					break;
				case 5: {
					Ref<Counted> r;
					r.instance();
					refs.push_back(r);
				} break;
				case 6:
					if (refs.size()) {
						size_t n = refs.back()->n;
						begin(n);
						refs.pop_back();
						ended(n);
						lookup(n, who);
					}
					break;
				default: {
					size_t n;
					{
						Quiet q;
						if (ls.empty()) break;
						n = wchoose(ls.size());
					}
					lookup(n, who);
				}
			}
			if (boxing && have && wchoose(3) == 0) {
				have = false;
				mybox = Variant();
			}
			if (boxing && t == 0 && common && done_boxing.get() == (uint32_t)TN && wchoose(3) == 0) {
				Thing *p = common;
				common = nullptr;
				size_t n = p->n;
				begin(n);
				memdelete(p);
				ended(n);
				if (have) SIM_CHECK((Object *)mybox == nullptr, "box-dead", "a boxed object is still handed out after it was destroyed");
			}
		}
		for (Thing *p : mine) {
			size_t n = p->n;
			lookup(n, who);
			begin(n);
			memdelete(p);
			ended(n);
		}
		for (auto &b : boxes) SIM_CHECK((Object *)b == nullptr, "box-dead", "a boxed object is still handed out after it was destroyed");
		boxes.clear();
		while (refs.size()) {
			size_t n = refs.back()->n;
			begin(n);
			refs.pop_back();
			ended(n);
		}
		if (boxing) mybox = Variant();
	};
	if (TN == 1) {
		body(0);
	} else {
		std::vector<int> ts;
		for (int t = 0; t < TN; t++) ts.push_back(spawn([&, t] { body(t); }));
		for (int t : ts) join(t);
	}
	registry(base, before);
	shared_box = shared_box; // self-assignment of a box
	if (prebox) {
		Object *o = shared_box;
		SIM_CHECK(o == common, "box-dead", "a box does not follow the life of its object");
		SIM_CHECK(shared_box.get_object_instance_id() == common_id, "box", "a box forgot the id of its object");
	}
	if (common) {
		size_t n = common->n;
		memdelete(common);
		ended(n);
		SIM_CHECK(!prebox || (Object *)shared_box == nullptr, "box-dead", "a boxed object is still handed out after it was destroyed");
	}
	shared_box = Variant();
	for (size_t i = 0; i < ls.size(); i++) {
		if (ls[i].ended) lookup(i, "end");
	}
	registry(base, before);
	uint64_t after = heap_live_since(0);
	SIM_CHECK(after == blocks, "leak", "%llu blocks in use before, %llu when all objects and boxes were gone", (unsigned long long)blocks, (unsigned long long)after);
}
} // namespace

SCENARIO(C04, one_thread, 4) { c04(1); }
SCENARIO(C04, two_threads, 4) { c04(2); }
SCENARIO(C04, threads, 3) { c04(3); }
SCENARIO(C05, one_thread, 1) { c05(1, false); }
SCENARIO(C05, registry, 3) { c05(2 + choose(ST_CFG, 2), false); }
SCENARIO(C05, boxes_one_thread, 1) { c05(1, true); }
SCENARIO(C05, boxes, 3) { c05(2 + choose(ST_CFG, 2), true); }
