// C03: interned names.
#include "common.h"
using namespace sim;

namespace {
// Texts as Latin-1; "ab" and "bA" have the same hash, the last two share a bucket with "ab" but not its hash.
static std::vector<const char *> texts = { "ab", "bA", "A", "name", "a name that is longer than the rest of them", "caf\xe9", "\xff\xfe", "%unique" };
static void prepare() {
	if (texts.size() != 8) {
		return;
	}
	Quiet q;
	auto h = [](const char *s) { uint32_t v = 5381; while (*s) v = v * 33 + (uint8_t)*s++; return v; };
	static char mem[2][8];
	uint32_t want = h("ab");
	int found = 0;
	for (int i = 0; found < 2 && i < 26 * 26 * 26 * 26; i++) {
		char b[8] = { char('a' + i % 26), char('a' + i / 26 % 26), char('a' + i / 676 % 26), char('a' + i / 17576 % 26), 0 };
		if (((h(b) ^ want) & 16383) == 0 && h(b) != want) {
			memcpy(mem[found], b, 8);
			texts.push_back(mem[found++]);
		}
	}
}
static String decoded(const char *t) {
	String s;
	for (; *t; t++) s += (CharType)(uint8_t)*t;
	return s;
}
struct NC {
	StringName n;
	int t = -1; // index into texts, -1 for the empty name
};
static uint32_t permanent; // texts a static name is held of throughout the run
static StringName make(int t, const char *own) {
	const char *s = own ? own : texts[t];
	bool perm = !own && permanent & (1u << t) && wchoose(2); // a static name: its entry outlives every copy
	switch (wchoose(own ? 2 : 4)) {
		case 0: return StringName(s, perm);
		case 1: return StringName(decoded(s), perm);
		case 2: return StringName(StaticCString::create(s), perm);
		default: return _scs_create(s, perm);
	}
}
static StringName look(int t) {
	switch (wchoose(3)) {
		case 0: return StringName::search(texts[t]);
		case 1: return StringName::search(decoded(texts[t]));
		default: return StringName::search(decoded(texts[t]).get_data());
	}
}
static void check(const NC &c, const char *who) {
	if (c.t < 0) {
		SIM_CHECK(c.n == StringName(), "empty", "%s: an empty name is not the empty name", who);
		SIM_CHECK(String(c.n).length() == 0, "text", "%s: an empty name has a text", who);
		return;
	}
	String s = c.n;
	const char *t = texts[c.t];
	size_t l = strlen(t);
	SIM_CHECK((size_t)s.length() == l, "text", "%s: name %d has a text of %d characters, expected %zu", who, c.t, s.length(), l);
	for (size_t i = 0; i < l; i++) SIM_CHECK(s.ptr()[i] == (CharType)(uint8_t)t[i], "text", "%s: the text of name %d changed", who, c.t);
	SIM_CHECK(c.n == decoded(t) && !(c.n != decoded(t)), "text", "%s: name %d does not equal its text", who, c.t);
	SIM_CHECK((const void *)c.n != nullptr, "empty", "%s: name %d says it is empty", who, c.t);
	SIM_CHECK(c.n.hash() == decoded(t).hash(), "hash", "%s: the hash of name %d is not that of its text", who, c.t);
}
static void compare(const NC &a, const NC &b, const char *who) {
	bool same = a.t == b.t;
	SIM_CHECK((a.n == b.n) == same && (a.n != b.n) == !same, same ? "not-equal" : "equal", "%s: names %d and %d compare %s", who, a.t, b.t, same ? "different" : "equal");
	SIM_CHECK((a.n.data_unique_pointer() == b.n.data_unique_pointer()) == same, same ? "not-equal" : "equal", "%s: names %d and %d share an entry or not, wrongly", who, a.t, b.t);
	if (same) {
		SIM_CHECK(!(a.n < b.n) && !(b.n < a.n), "order", "%s: equal names are ordered", who);
	} else {
		SIM_CHECK((a.n < b.n) != (b.n < a.n), "order", "%s: different names are not ordered", who);
	}
}

static void run(int TN) {
	prepare();
	uint64_t mark = heap_mark();
	{
		const int S = 3;
		// Few texts per run: many threads meet at the same entry.
		std::vector<int> sel;
		int k = 1 + choose(ST_CFG, 4);
		for (int i = 0; i < k; i++) sel.push_back(choose(ST_CFG, texts.size()));
		permanent = 0;
		std::vector<NC> stat;
		if (choose(ST_CFG, 2)) {
			for (int x : sel) {
				if ((permanent & (1u << x)) || !choose(ST_CFG, 2)) continue;
				permanent |= 1u << x;
				NC c;
				c.t = x;
				c.n = choose(ST_CFG, 2) ? StringName(texts[x], true) : StringName(StaticCString::create(texts[x]), true);
				stat.push_back(c);
			}
		}
		NC held; // copied by everyone at any time
		held.t = sel[0];
		bool have = choose(ST_CFG, 2);
		if (have) {
			held.n = make(held.t, nullptr);
		} else {
			held.t = -1;
		}
		NC box;
		Mutex box_lock;
		int steps = 4 + choose(ST_CFG, 12);
		std::vector<std::vector<NC>> sl(TN, std::vector<NC>(S));
		std::vector<int> tids;
		for (int t = 0; t < TN; t++) {
			tids.push_back(spawn([&, t]() {
				std::vector<NC> &me = sl[t];
				char priv[16]; // a text nobody else uses
				snprintf(priv, sizeof priv, "own%d\xe9", t);
				StringName mine;
				bool mine_held = false;
				for (int s = 0; s < steps; s++) {
					NC &c = me[wchoose(S)];
					switch (weighted(ST_W0 + self(), { 8, 3, 3, 5, 3, 3, 4, 3, 2 })) {
						case 0: {
							int x = sel[wchoose(k)];
							ev("make %d", x);
							c.n = make(x, nullptr);
							c.t = x;
						} break;
						case 1: {
							NC &o = me[wchoose(S)];
							ev("copy");
							c.n = o.n;
							c.t = o.t;
						} break;
						case 2: {
							NC &from = stat.size() && wflip(1, 2) ? stat[wchoose(stat.size())] : held;
							ev("copy held");
							c.n = from.n;
							c.t = from.t;
						} break;
						case 3:
							ev("drop");
							c.n = StringName();
							c.t = -1;
							break;
						case 4: {
							ev("put");
							MutexLock l(box_lock);
							box.n = c.n;
							box.t = c.t;
						} break;
						case 5: {
							ev("take");
							MutexLock l(box_lock);
							compare(c, box, "box");
							c.n = box.n;
							c.t = box.t;
						} break;
						case 6: { // search
							int x = sel[wchoose(k)];
							ev("search %d", x);
							bool own = held.t == x || (permanent & (1u << x));
							for (NC &o : me) own = own || o.t == x;
							StringName f = look(x);
							NC fc;
							fc.n = f;
							fc.t = f == StringName() ? -1 : x;
							SIM_CHECK(!own || fc.t == x, "not-found", "a search for a name that is held found nothing");
							check(fc, "search result");
							for (NC &o : me) {
								if (o.t == x) {
									compare(fc, o, "search result");
								}
							}
						} break;
						case 7: { // a name only this thread uses: found exactly while held
							if (wflip(1, 2)) {
								mine = mine_held ? StringName() : make(0, priv);
								mine_held = !mine_held;
							}
							ev("own %d", mine_held);
							StringName f = wflip(1, 2) ? StringName::search(priv) : StringName::search(decoded(priv));
							SIM_CHECK((f != StringName()) == mine_held, mine_held ? "not-found" : "found-unheld", "a search for a name that is %sheld found %s", mine_held ? "" : "not ", mine_held ? "nothing" : "something");
							SIM_CHECK(f == mine, "not-equal", "a search found another entry than the one held");
						} break;
						case 8: { // copies made and dropped as temporaries
							StringName a(c.n), b(a);
							NC x;
							x.n = b;
							x.t = c.t;
							check(x, "temporary");
						} break;
					}
					check(c, "after a step");
					for (NC &o : me) compare(c, o, "own names");
					compare(c, held, "held name");
				}
				if (wflip(1, 2)) {
					for (NC &o : me) {
						o.n = StringName();
						o.t = -1;
					}
				}
			}));
		}
		for (int t : tids) join(t);
		std::vector<NC *> all = { &held, &box };
		for (auto &v : sl) {
			for (NC &c : v) all.push_back(&c);
		}
		for (NC &c : stat) all.push_back(&c);
		for (NC *a : all) {
			check(*a, "at the end");
			for (NC *b : all) compare(*a, *b, "at the end");
		}
		for (int x : sel) {
			bool any = false;
			for (NC *a : all) any = any || a->t == x;
			SIM_CHECK((look(x) != StringName()) == any, any ? "not-found" : "found-unheld", "a search for name %d, which is %sheld, found %s", x, any ? "" : "not ", any ? "nothing" : "something");
		}
	}
	for (size_t x = 0; x < texts.size(); x++) SIM_CHECK(look(x) == StringName(), "found-unheld", "a name is found although nobody holds it");
	uint64_t n = heap_live_since(mark);
	SIM_CHECK(n == 0, "leak", "%llu blocks are still allocated after the last name was dropped", (unsigned long long)n);
}
} // namespace

SCENARIO(C03, one_thread, 1) { run(1); }
SCENARIO(C03, two_threads, 3) { run(2); }
SCENARIO(C03, threads, 3) { run(3 + choose(ST_CFG, 2)); }
