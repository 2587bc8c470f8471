// C10: cell allocators (paged, handle-based) hand out live cells once and keep their contents.
#include "common.h"
#include <set>
using namespace sim;

namespace {
static std::set<void *> cells; // constructed cells
struct Cell {
	uint64_t w[3];
	Cell() {
		Quiet q;
		SIM_CHECK(cells.insert(this).second, "overlap", "the same cell was handed out twice");
		for (auto &x : w) x = 0x5a5a;
	}
	~Cell() {
		Quiet q;
		SIM_CHECK(cells.erase(this) == 1, "destroyed-twice", "a cell was destroyed twice");
	}
};
template <bool SAFE>
static void paged(int tn, bool thr) {
	cells.clear();
	int ps = 1 + choose(ST_CFG, 9);
	int steps = 4 + choose(ST_CFG, thr ? 14 : 50);
	int maxlive = 1 + choose(ST_CFG, 12);
	static const int up[] = { 1, 1, 2, 4, 4, 8, 8, 8, 8, 16 };
	uint64_t before = heap_live_since(0);
	{
		PagedAllocator<Cell, SAFE> pa(ps);
		int rounds = 1 + choose(ST_CFG, 2);
		for (int round = 0; round < rounds; round++) {
			std::vector<std::vector<std::pair<Cell *, uint64_t>>> own(tn);
			auto check = [&](int t) {
				for (auto &c : own[t]) {
					for (auto x : c.first->w) SIM_CHECK(x == c.second, "contents", "a cell no longer holds what its owner wrote");
				}
			};
			auto work = [&](int t) {
				auto &o = own[t];
				uint64_t n = 0;
				for (int i = 0; i < steps; i++) {
					if ((int)o.size() < maxlive && (o.empty() || wchoose(5) < 3)) {
						ev("alloc");
						Cell *c = pa.alloc();
						SIM_CHECK(c && ((uintptr_t)c % alignof(Cell)) == 0, "cell", "no usable cell was handed out");
						for (auto x : c->w) SIM_CHECK(x == 0x5a5a, "contents", "a new cell is not freshly constructed");
						uint64_t v = (uint64_t)(t + 1) << 32 | ++n;
						for (auto &x : c->w) x = v;
						o.push_back({ c, v });
					} else if (o.size()) {
						uint32_t k = wchoose(o.size());
						ev("free");
						for (auto x : o[k].first->w) SIM_CHECK(x == o[k].second, "contents", "a cell no longer holds what its owner wrote");
						pa.free(o[k].first);
						o.erase(o.begin() + k);
					}
					if (!thr || wflip(1, 3)) check(t);
				}
			};
			if (!thr) {
				work(0);
				if (own[0].size() && wflip(1, 4)) {
					uint64_t e = lib_errors();
					pa.reset();
					SIM_CHECK(lib_errors() > e, "reset", "a pool with cells in use was reset");
				}
			} else {
				std::vector<int> ts;
				for (int t = 0; t < tn; t++) ts.push_back(spawn([&, t] { work(t); }));
				for (int t : ts) join(t);
			}
			uint64_t e = lib_errors();
			size_t live = 0;
			for (int t = 0; t < tn; t++) {
				check(t);
				live += own[t].size();
			}
			SIM_CHECK(cells.size() == live, "lost", "%zu cells are constructed, %zu in use", cells.size(), live);
			// memory stays within what the largest number of cells in use needs
			uint64_t bound = ((uint64_t)tn * maxlive + up[ps] - 1) / up[ps];
			std::vector<Cell *> fill;
			while (fill.size() + live < bound * up[ps]) fill.push_back(pa.alloc());
			SIM_CHECK(heap_live_since(0) <= before + 2 + 2 * bound, "lost", "the pool keeps %llu blocks of memory for at most %llu pages of cells", (unsigned long long)(heap_live_since(0) - before), (unsigned long long)bound);
			for (Cell *c : fill) pa.free(c);
			for (int t = 0; t < tn; t++) {
				check(t);
				while (own[t].size()) {
					uint32_t k = wchoose(own[t].size());
					pa.free(own[t][k].first);
					own[t].erase(own[t].begin() + k);
				}
			}
			SIM_CHECK(cells.empty(), "lost", "%zu cells are constructed, none in use", cells.size());
			pa.reset();
			SIM_CHECK(lib_errors() == e, "reset", "a pool of which all cells were returned cannot be reset");
		}
		cells = std::set<void *>();
	}
	uint64_t after = heap_live_since(0);
	SIM_CHECK(after == before, "leak", "%llu blocks before the pool was made, %llu after it was reset", (unsigned long long)before, (unsigned long long)after);
}

// ---- handle-based pool ---------------------------------------------------------------------------
class LockedPool : public PoolAllocator {
	Mutex m;
	bool use;

protected:
	void mt_lock() const override {
		if (use) m.lock();
	}
	void mt_unlock() const override {
		if (use) m.unlock();
	}

public:
	LockedPool(int size, bool nl, int me, bool u) : PoolAllocator(size, nl, me), use(u) {}
	LockedPool(int align, int size, bool nl, int me, bool u) : PoolAllocator(align, size, nl, me), use(u) {}
	LockedPool(void *mem, int size, int align, bool nl, int me, bool u) : PoolAllocator(mem, size, align, nl, me), use(u) {}
};
struct Blk {
	PoolAllocator::ID id;
	std::vector<uint8_t> data;
	int locks = 0;
	void *at = nullptr; // while locked
};
struct PM {
	LockedPool *p;
	int align, size, max;
	bool nl;
	std::set<std::pair<uint8_t *, uint8_t *>> held; // locked areas (threads)
};
static int al(int n, int a) { return (n + a - 1) / a * a; }
static void write_blk(PM &m, Blk &b) { // b locked or single-threaded
	uint8_t *d = (uint8_t *)m.p->get(b.id);
	SIM_CHECK(d, "get", "the memory of a live block is not available");
	SIM_CHECK((uintptr_t)d % m.align == 0, "alignment", "a block is not aligned to %d", m.align);
	if (b.at) SIM_CHECK(d == b.at, "moved", "a locked block moved");
	uint8_t seed = (uint8_t)wchoose(256);
	for (size_t i = 0; i < b.data.size(); i++) d[i] = b.data[i] = (uint8_t)(seed + i * 7);
}
static void read_blk(PM &m, Blk &b) {
	const uint8_t *d = (const uint8_t *)((const PoolAllocator *)m.p)->get(b.id);
	SIM_CHECK(d, "get", "the memory of a live block is not available");
	SIM_CHECK((uintptr_t)d % m.align == 0, "alignment", "a block is not aligned to %d", m.align);
	if (b.at) SIM_CHECK(d == b.at, "moved", "a locked block moved");
	for (size_t i = 0; i < b.data.size(); i++) SIM_CHECK(d[i] == b.data[i], "contents", "byte %zu of a block of %zu is not what its owner wrote", i, b.data.size());
}
static void lock_blk(PM &m, Blk &b) {
	SIM_CHECK(m.p->lock(b.id) == OK, "lock", "a live block cannot be locked");
	if (m.nl) {
		b.locks++;
		b.at = m.p->get(b.id);
		SIM_CHECK(b.at, "get", "the memory of a locked block is not available");
	}
}
static void unlock_blk(PM &m, Blk &b) {
	m.p->unlock(b.id);
	if (m.nl && --b.locks == 0) b.at = nullptr;
}
static LockedPool *make(PM &m, bool thr, std::vector<uint8_t> &outside) {
	static const int as[] = { 1, 4, 8, 16 };
	m.nl = thr || choose(ST_CFG, 2);
	m.size = 32 + choose(ST_CFG, 120);
	m.max = choose(ST_CFG, 3) ? 1 + choose(ST_CFG, 12) : 64;
	switch (choose(ST_CFG, 3)) {
		case 0:
			m.align = 1;
			return memnew(LockedPool(m.size, m.nl, m.max, thr));
		case 1:
			m.align = as[choose(ST_CFG, 4)];
			return memnew(LockedPool(m.align, m.size, m.nl, m.max, thr));
		default: {
			m.align = as[choose(ST_CFG, 4)];
			outside.assign(m.size + 16, 0xee);
			uint32_t off = choose(ST_CFG, 9);
			uint8_t *at = outside.data() + off;
			LockedPool *p = memnew(LockedPool(at, m.size, m.align, m.nl, m.max, thr));
			if ((uintptr_t)at % m.align) m.size -= m.align - (uintptr_t)at % m.align;
			return p;
		}
	}
}
static void handles() {
	uint64_t before = heap_live_since(0);
	{
		std::vector<uint8_t> outside;
		PM m;
		m.p = make(m, false, outside);
		std::vector<Blk> bs;
		std::vector<PoolAllocator::ID> stale;
		int used = 0, peak = m.size, total = 0;
		auto locked_any = [&] {
			for (auto &b : bs) {
				if (b.locks) return true;
			}
			return false;
		};
		int steps = 5 + choose(ST_CFG, 70);
		for (int i = 0; i < steps; i++) {
			uint32_t op = wchoose(12);
			Blk *b = bs.size() ? &bs[wchoose(bs.size())] : nullptr;
			if (op < 4) {
				int n = wchoose(4) ? (int)wchoose(m.size / 3 + 2) : (int)wchoose(m.size + 4);
				int fr = m.size - used;
				ev("alloc %d, %d free", n, fr);
				if (total > 200) break;
				PoolAllocator::ID id = m.p->alloc(n);
				bool must = n >= 1 && al(n, m.align) <= fr && n <= fr && (int)bs.size() < m.max && !locked_any();
				bool may = n >= 1 && al(n, m.align) <= fr && (int)bs.size() < m.max;
				SIM_CHECK(may || id == POOL_ALLOCATOR_INVALID_ID, "overcommit", "a block of %d was handed out with %d free and %zu of %d blocks in use", n, fr, bs.size(), m.max);
				SIM_CHECK(!must || id != POOL_ALLOCATOR_INVALID_ID, "refused", "a block of %d was refused with %d free, %zu of %d blocks in use and none locked", n, fr, bs.size(), m.max);
				if (id == POOL_ALLOCATOR_INVALID_ID) {
					probe(0, "allocation refused");
					continue;
				}
				total++;
				for (auto &x : bs) SIM_CHECK(x.id != id, "overlap", "two live blocks have one handle");
				used += al(n, m.align);
				Blk nb;
				nb.id = id;
				nb.data.resize(n);
				bs.push_back(nb);
				if (m.nl) lock_blk(m, bs.back());
				write_blk(m, bs.back());
				if (m.nl) unlock_blk(m, bs.back());
			} else if (op < 6 && b) {
				ev("free %d locks", b->locks);
				m.p->free(b->id);
				if (b->locks) continue; // refused
				used -= al((int)b->data.size(), m.align);
				stale.push_back(b->id);
				bs.erase(bs.begin() + (b - bs.data()));
			} else if (op < 9 && b) {
				int n = (int)wchoose(3) ? (int)wchoose(m.size / 2 + 2) : (int)wchoose(m.size + 4) - 1;
				int o = (int)b->data.size(), fr = m.size - used;
				ev("resize %d to %d, %d free, %d locks", o, n, fr, b->locks);
				Error e = m.p->resize(b->id, n);
				bool legal = n >= 1 && !b->locks;
				bool may = legal && al(n, m.align) <= fr + al(o, m.align);
				bool must = legal && (n <= o || (!locked_any() && al(n, m.align) < m.size / m.align * m.align - used + al(o, m.align)));
				SIM_CHECK(e != OK || may, "overcommit", "a block was resized from %d to %d with %d free", o, n, fr);
				SIM_CHECK(e == OK || !must, "refused", "resizing a block from %d to %d with %d free was refused", o, n, fr);
				if (e == OK) {
					used += al(n, m.align) - al(o, m.align);
					b->data.resize(n);
					if (m.nl) lock_blk(m, *b);
					uint8_t *d = (uint8_t *)m.p->get(b->id);
					SIM_CHECK(d, "get", "the memory of a live block is not available");
					for (int k = 0; k < o && k < n; k++) SIM_CHECK(d[k] == b->data[k], "contents", "byte %d changed when a block was resized from %d to %d", k, o, n);
					for (int k = o; k < n; k++) d[k] = b->data[k] = (uint8_t)(k * 3 + i);
					if (m.nl) unlock_blk(m, *b);
				} else {
					probe(1, "resize refused");
				}
			} else if (op == 9 && b) {
				ev("lock");
				lock_blk(m, *b);
				SIM_CHECK(m.p->is_locked(b->id) == m.nl, "lock", "a locked block says it is not");
				if (m.nl) write_blk(m, *b);
			} else if (op == 10 && b && b->locks) {
				ev("unlock");
				unlock_blk(m, *b);
				SIM_CHECK(m.p->is_locked(b->id) == (b->locks > 0), "lock", "a block has another lock state");
			} else if (op == 11 && stale.size()) {
				ev("use of a returned handle");
				PoolAllocator::ID id = stale[wchoose(stale.size())];
				SIM_CHECK(m.p->get_size(id) == 0 && m.p->resize(id, 1) != OK && !m.p->is_locked(id), "stale", "a returned handle is still accepted");
				m.p->free(id);
			}
			if (m.size - used < peak) peak = m.size - used;
			SIM_CHECK(m.p->get_used_mem() == used && m.p->get_free_mem() == m.size - used, "books", "%d bytes are said to be used and %d free, expected %d and %d", m.p->get_used_mem(), m.p->get_free_mem(), used, m.size - used);
			SIM_CHECK(m.p->get_free_peak() == peak, "books", "the least free space is said to be %d, expected %d", m.p->get_free_peak(), peak);
			for (auto &x : bs) {
				SIM_CHECK(m.p->get_size(x.id) == (int)x.data.size(), "size", "a block of %zu says it has %d", x.data.size(), m.p->get_size(x.id));
				if (m.nl) lock_blk(m, x);
				read_blk(m, x);
				if (m.nl) unlock_blk(m, x);
			}
		}
		for (auto &b : bs) {
			while (b.locks) unlock_blk(m, b);
			m.p->free(b.id);
		}
		SIM_CHECK(m.p->get_used_mem() == 0, "books", "%d bytes are said to be used when all blocks are free", m.p->get_used_mem());
		PoolAllocator::ID id = m.p->alloc(m.size / m.align * m.align);
		SIM_CHECK(id != POOL_ALLOCATOR_INVALID_ID, "refused", "the whole pool cannot be allocated although all is free");
		m.p->free(id);
		memdelete(m.p);
	}
	uint64_t after = heap_live_since(0);
	SIM_CHECK(after == before, "leak", "%llu blocks before the pool was made, %llu after", (unsigned long long)before, (unsigned long long)after);
}
static void handles_threads() {
	uint64_t before = heap_live_since(0);
	int tn = 2 + choose(ST_CFG, 2);
	{
		std::vector<uint8_t> outside;
		PM m;
		m.p = make(m, true, outside);
		std::vector<std::vector<Blk>> own(tn);
		int steps = 4 + choose(ST_CFG, 14);
		std::vector<int> ts;
		for (int t = 0; t < tn; t++) {
			ts.push_back(spawn([&, t] {
				std::vector<Blk> &bs = own[t];
				for (int i = 0; i < steps; i++) {
					uint32_t op = bs.empty() ? 0 : wchoose(9);
					Blk *b = bs.size() ? &bs[wchoose(bs.size())] : nullptr;
					if (op < 3) {
						int n = 1 + (int)wchoose(m.size / 3 + 1);
						ev("alloc %d", n);
						PoolAllocator::ID id = m.p->alloc(n);
						if (id == POOL_ALLOCATOR_INVALID_ID) continue;
						Blk nb;
						nb.id = id;
						nb.data.resize(n);
						lock_blk(m, nb);
						write_blk(m, nb);
						read_blk(m, nb);
						unlock_blk(m, nb);
						bs.push_back(nb);
					} else if (op < 4) {
						ev("free");
						lock_blk(m, *b);
						read_blk(m, *b);
						while (b->locks) unlock_blk(m, *b);
						m.p->free(b->id);
						bs.erase(bs.begin() + (b - bs.data()));
					} else if (op < 6) {
						int n = 1 + (int)wchoose(m.size / 2 + 1), o = (int)b->data.size();
						ev("resize %d to %d", o, n);
						Error e = m.p->resize(b->id, n);
						SIM_CHECK(e != OK || !b->locks, "lock", "a locked block was resized");
						SIM_CHECK(e == OK || b->locks || n > o, "refused", "shrinking a block was refused");
						if (e == OK) {
							b->data.resize(n);
							lock_blk(m, *b);
							uint8_t *d = (uint8_t *)m.p->get(b->id);
							for (int k = o; k < n; k++) d[k] = b->data[k] = (uint8_t)k;
							read_blk(m, *b);
							unlock_blk(m, *b);
						}
					} else if (op < 8) {
						if (b->locks) {
							ev("use of a locked block");
							wchoose(2) ? write_blk(m, *b) : read_blk(m, *b);
							if (wchoose(2)) unlock_blk(m, *b);
						} else {
							ev("lock");
							lock_blk(m, *b);
							read_blk(m, *b);
						}
					} else {
						SIM_CHECK(m.p->get_size(b->id) == (int)b->data.size(), "size", "a block of %zu says it has %d", b->data.size(), m.p->get_size(b->id));
						int f = m.p->get_free_mem();
						SIM_CHECK(f >= 0 && f <= m.size - al((int)b->data.size(), m.align), "books", "%d bytes are said to be free", f);
					}
				}
			}));
		}
		for (int t : ts) join(t);
		int used = 0;
		for (auto &o : own) {
			for (auto &b : o) {
				used += al((int)b.data.size(), m.align);
				lock_blk(m, b);
				read_blk(m, b);
				unlock_blk(m, b);
			}
		}
		SIM_CHECK(m.p->get_used_mem() == used && m.p->get_free_peak() <= m.size - used, "books", "%d bytes are said to be used, expected %d", m.p->get_used_mem(), used);
		for (auto &o : own) {
			for (auto &b : o) {
				while (b.locks) unlock_blk(m, b);
				m.p->free(b.id);
			}
		}
		SIM_CHECK(m.p->get_used_mem() == 0, "books", "%d bytes are said to be used when all blocks are free", m.p->get_used_mem());
		PoolAllocator::ID id = m.p->alloc(m.size / m.align * m.align);
		SIM_CHECK(id != POOL_ALLOCATOR_INVALID_ID, "refused", "the whole pool cannot be allocated although all is free");
		memdelete(m.p);
	}
	uint64_t after = heap_live_since(0);
	SIM_CHECK(after == before, "leak", "%llu blocks before the pool was made, %llu after", (unsigned long long)before, (unsigned long long)after);
}
} // namespace

SCENARIO(C10, paged_one_thread, 1) { paged<false>(1, false); }
SCENARIO(C10, paged_threads, 2) { paged<true>(2 + choose(ST_CFG, 2), true); }
SCENARIO(C10, handles, 2) { handles(); }
SCENARIO(C10, handles_threads, 3) { handles_threads(); }
