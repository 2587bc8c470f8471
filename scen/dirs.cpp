// F06-F08: directories.
#include "common.h"
#include <algorithm>
#include <set>
using namespace sim;

namespace {
typedef DirAccess DA;
typedef FileAccess FA;
typedef std::map<std::string, std::string> Snap;
static String S(const std::string &s) { return String::utf8(s.c_str(), (int)s.size()); }
static std::string B(const String &s) {
	CharString c = s.utf8();
	return std::string(c.get_data() ? c.get_data() : "", c.length());
}
static std::string blob(uint32_t maxn) {
	std::string s(wchoose(maxn + 1), 0);
	uint64_t x = bits(ST_W0 + self());
	for (auto &c : s) {
		x = x * 6364136223846793005ULL + 1442695040888963407ULL;
		c = (char)(x >> 56);
	}
	return s;
}
static bool below(const std::string &p, const std::string &dir) { return p.size() > dir.size() && p.compare(0, dir.size(), dir) == 0 && p[dir.size()] == '/'; }
static std::string norm(const std::string &p) { // lexically
	std::vector<std::string> o;
	size_t i = 0;
	while (i < p.size()) {
		size_t j = p.find('/', i);
		if (j == std::string::npos) j = p.size();
		std::string c = p.substr(i, j - i);
		if (c == "..") {
			if (o.size()) o.pop_back();
		} else if (c.size() && c != ".") {
			o.push_back(c);
		}
		i = j + 1;
	}
	std::string r;
	for (auto &c : o) r += "/" + c;
	return r.empty() ? "/" : r;
}
static std::string parent(const std::string &p) {
	size_t k = p.rfind('/');
	return k == 0 ? "/" : p.substr(0, k);
}
static std::string leaf(const std::string &p) { return p.substr(p.rfind('/') + 1); }
static bool utf8_ok(const std::string &s) {
	for (size_t i = 0; i < s.size(); i++) {
		uint8_t c = s[i];
		int n = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : -1;
		if (n < 0) return false;
		while (n--) {
			if (++i >= s.size() || ((uint8_t)s[i] & 0xc0) != 0x80) return false;
		}
	}
	return true;
}
static void arm(std::initializer_list<FaultKind> ks) {
	switch (choose(ST_CFG, 3)) {
		case 0: break;
		case 1: fs::faults.fail_nth_syscall = fs::syscalls() + 1 + choose(ST_CFG, 60); break;
		default:
			for (FaultKind k : ks) {
				if (choose(ST_CFG, 3) == 1) fs::faults.rate[k] = 10 + choose(ST_CFG, 120);
			}
	}
}
// ---- trees -------------------------------------------------------------------------------------------
static const char *const tree_names[] = { "a", "b", "c.txt", ".hidden", "ü漢", "a b", "-rf", "...", "d:", "x\ny", "..x", "a\\b", "..\\..\\keep", "bad\xff\xfe", "\xff", "~", "*" };
struct Tree {
	bool odd = false; // has a name that cannot be expressed as text, or that the file layer takes for a path
	bool dangling = false;
	int dirs = 0, files = 0, links = 0;
};
static void gen(const std::string &at, int depth, Tree &t, bool odd, bool cyc, bool with_links = true) {
	uint32_t n = wchoose(depth ? 5 : 4);
	for (uint32_t i = 0; i < n; i++) {
		uint32_t k = wchoose(odd ? 17 : 11);
		std::string name = tree_names[k];
		std::string p = at + "/" + name;
		if (fs::exists(p)) continue;
		if (k >= 11 && k < 15) t.odd = true;
		switch (wchoose(depth ? 6 : 4)) {
			case 0:
			case 1:
				fs::put(p, blob(wchoose(6) ? 60 : 5000));
				t.files++;
				break;
			case 2: {
				if (!with_links) break;
				static const char *const to[] = { "/w/keep", "/w/keep/file", "/w/keep/sub", "nothing", "/", "..", "." };
				uint32_t l = wchoose(cyc ? 7 : 4);
				fs::symlink(to[l], p);
				if (l == 3) t.dangling = true;
				t.links++;
			} break;
			case 3: fs::put(p, ""); break;
			default:
				fs::mkdirs(p);
				t.dirs++;
				gen(p, depth - 1, t, odd, cyc, with_links);
		}
	}
}
static void keep_dir() {
	fs::put("/w/keep/file", "precious");
	fs::put("/w/keep/sub/deep", "more");
	fs::mkdirs("/w/keep/empty");
}
// ---- F07 ---------------------------------------------------------------------------------------------
static void f07_erase() {
	keep_dir();
	std::string base = choose(ST_CFG, 3) ? "/w/victim" : "/w/v/é";
	fs::mkdirs(base);
	Tree t;
	bool odd = choose(ST_CFG, 3) == 0;
	gen(base, 1 + choose(ST_CFG, 4), t, odd, true);
	bool via = choose(ST_CFG, 4) == 0;
	if (via) fs::symlink(base, "/w/via");
	std::string cwd = choose(ST_CFG, 4) ? "/w" : base;
	fs::set_cwd(cwd);
	Snap before = fs::snapshot();
	static Snap *bp;
	static std::string bs;
	bp = &before;
	bs = base;
	fs::on_mutate = [](const char *op, const std::string &p) {
		SIM_CHECK(below(p, bs), "outside", "erasing the contents of %s did %s on %s", bs.c_str(), op, p.c_str());
	};
	arm({ F_STAT, F_OPENDIR, F_READDIR, F_CHDIR, F_GETCWD, F_UNLINK, F_RMDIR, F_ACCESS });
	DA *d = DA::create();
	std::string open_as = via ? "/w/via" : base;
	int tries = 1 + choose(ST_CFG, 3);
	Error e = OK;
	for (int i = 0; i < tries; i++) {
		uint64_t f0 = fs::fired();
		if (d->open(S(open_as)) != OK) {
			SIM_CHECK(fs::fired() > 0, "error", "opening an existing directory failed although nothing failed");
			continue;
		}
		ev("erase");
		String cd = d->get_current_dir();
		f0 = fs::fired();
		e = d->erase_contents_recursive();
		Snap now = fs::snapshot();
		bool empty = true;
		for (auto &x : now) {
			if (below(x.first, base)) empty = false;
			SIM_CHECK(before.count(x.first) && before[x.first] == x.second, "outside", "after erasing, %s is new or other than before", x.first.c_str());
		}
		for (auto &x : before) SIM_CHECK(below(x.first, base) || now.count(x.first), "outside", "erasing the contents of %s removed %s", base.c_str(), x.first.c_str());
		SIM_CHECK(d->get_current_dir() == cd, "moved", "the accessor was at %s and is now at %s", B(cd).c_str(), B(d->get_current_dir()).c_str());
		if (e == OK) {
			SIM_CHECK(empty, "incomplete", "erasing reported success and left entries in the directory");
			if (t.links) probe(8, "links were erased");
		} else {
			SIM_CHECK(fs::fired() > f0 || t.odd, "error", "erasing failed although nothing failed");
			if (fs::fired() > f0) probe(9, "an erase failed half-way and was reported");
		}
		SIM_CHECK(fs::open_handles() == 0, "handles", "open after erasing: %s", fs::open_desc().c_str());
		SIM_CHECK(fs::cwd() == cwd, "process-moved", "the process moved to %s", fs::cwd().c_str());
		if (e != OK && wchoose(2)) { // whatever failed no longer does: erasing again completes
			fs::faults_off();
		}
	}
	memdelete(d);
	fs::on_mutate = nullptr;
}
// ---- F06 ---------------------------------------------------------------------------------------------
static void f06_file() {
	fs::faults.short_io = choose(ST_CFG, 2);
	if (choose(ST_CFG, 2)) fs::stream_buffer = 1 + choose(ST_CFG, 200);
	FA::set_backup_save(choose(ST_CFG, 4) == 0);
	fs::mkdirs("/w/d");
	std::string src = choose(ST_CFG, 2) ? blob(100) : choose(ST_CFG, 4) ? blob(3000) : blob(140000);
	fs::put("/w/src", src);
	if (choose(ST_CFG, 2)) fs::put("/w/d/dst", blob(300));
	if (choose(ST_CFG, 4) == 0) fs::faults.capacity = choose(ST_CFG, (uint32_t)src.size() * 2 + 400);
	arm({ F_OPEN, F_STAT, F_READ_EIO, F_READ_EINTR, F_WRITE_EIO, F_WRITE_ENOSPC, F_FLUSH, F_CLOSE, F_SEEK, F_RENAME, F_CHMOD });
	bool cap = fs::faults.capacity < 1u << 30;
	DA *d = DA::create();
	int n = 1 + choose(ST_CFG, 3);
	for (int i = 0; i < n; i++) {
		if (wchoose(8) == 0) { // onto itself: whatever it says, the file is still there
			static const char *const self[] = { "/w/src", "src", "d/../src", "/w/d/lnk" };
			uint32_t k = wchoose(4);
			if (k == 3 && !fs::exists("/w/d/lnk")) fs::symlink("../src", "/w/d/lnk");
			uint64_t f1 = fs::fired();
			ev("copy onto itself");
			d->copy("/w/src", self[k]);
			std::string a;
			fs::get("/w/src", &a);
			if (fs::fired() == f1) SIM_CHECK(a == src, "source", "copying a file onto itself left %zu of %zu bytes", a.size(), src.size());
			if (a != src) break;
			continue;
		}
		uint64_t f0 = fs::fired();
		int chm = choose(ST_CFG, 3) == 0 ? 0600 + 044 * (int)choose(ST_CFG, 2) : -1;
		bool rel = choose(ST_CFG, 3) == 0;
		Error e = d->copy(rel ? "src" : "/w/src", rel ? "d/dst" : "/w/d/dst", chm);
		std::string a, b;
		fs::get("/w/src", &a);
		bool there = fs::get("/w/d/dst", &b);
		ev("copy %zu gives %d", src.size(), (int)e);
		SIM_CHECK(a == src, "source", "copying a file changed it");
		if (e == OK) {
			SIM_CHECK(there && b == src, "incomplete", "copying a file of %zu bytes reported success and left %zu bytes or others", src.size(), b.size());
			SIM_CHECK(chm == -1 || fs::mode("/w/d/dst") == chm, "mode", "a copy that reported success has mode %o, asked for %o", fs::mode("/w/d/dst"), chm);
		} else {
			SIM_CHECK(fs::fired() > f0 || cap, "error", "copying failed although nothing failed");
			probe(10, "a file copy failed and was reported");
		}
		SIM_CHECK(fs::open_handles() == 0, "handles", "open after copying: %s", fs::open_desc().c_str());
	}
	memdelete(d);
}
// what must be at `to` after copying `from`
static void expect(const std::string &from, const std::string &to, bool links, Snap &want) {
	Snap s = fs::snapshot();
	std::string rf = fs::real(from + "/.");
	for (auto &x : s) {
		if (parent(x.first) != rf) continue;
		std::string n = leaf(x.first), q = to + "/" + n;
		if (x.second[0] == 'l' && links) {
			want[q] = x.second;
		} else if (fs::is_dir(x.first)) {
			want[q] = "d";
			expect(x.first, q, links, want);
		} else {
			std::string b;
			if (fs::get(x.first, &b)) want[q] = "f" + b;
			else want[q] = "?";
		}
	}
}
static void f06_tree() {
	set_step_limit(4000000, 40000000);
	keep_dir();
	fs::faults.short_io = choose(ST_CFG, 2);
	if (choose(ST_CFG, 2)) fs::stream_buffer = 16 + choose(ST_CFG, 200);
	FA::set_backup_save(choose(ST_CFG, 6) == 0);
	fs::mkdirs("/w/src");
	Tree t;
	bool odd = choose(ST_CFG, 6) == 0;
	gen("/w/src", 1 + choose(ST_CFG, 3), t, odd, false);
	bool links = choose(ST_CFG, 2);
	std::string to = choose(ST_CFG, 2) ? "/w/dst" : "/w/new/p/dst";
	bool clash = false;
	if (choose(ST_CFG, 3) == 0) { // something is there already
		fs::mkdirs(to);
		Tree u;
		gen(to, 1, u, false, false, false);
		clash = true;
	}
	Snap want;
	expect("/w/src", to, links, want);
	bool impossible = false;
	for (auto &x : want) impossible = impossible || x.second == "?";
	Snap before = fs::snapshot();
	bool in_the_way = false; // an entry of the target is of another kind than the copy of it
	for (auto &x : want) {
		auto at = before.find(x.first);
		if (at != before.end() && (at->second[0] != x.second[0] || x.second[0] == 'l')) in_the_way = true;
	}
	if (clash && !in_the_way) probe(13, "a tree was copied into one that is there");
	arm({ F_OPEN, F_STAT, F_READ_EIO, F_WRITE_EIO, F_WRITE_ENOSPC, F_FLUSH, F_CLOSE, F_SEEK, F_MKDIR, F_OPENDIR, F_READDIR, F_CHDIR, F_GETCWD, F_SYMLINK, F_ACCESS, F_RENAME });
	if (choose(ST_CFG, 6) == 0) fs::faults.capacity = choose(ST_CFG, 4000);
	bool cap = fs::faults.capacity < 1u << 30;
	DA *d = DA::create();
	uint64_t f0 = fs::fired();
	String cd = d->get_current_dir();
	bool from_rel = choose(ST_CFG, 3) == 0, to_rel = choose(ST_CFG, 3) == 0;
	if (f0) from_rel = to_rel = false; // the accessor does not know where it is
	std::string tos = to_rel ? to.substr(3) : to;
	if (choose(ST_CFG, 3) == 0) tos += "/";
	Error e = d->copy_dir(from_rel ? "src" : "/w/src", S(tos), -1, links);
	ev("copy tree gives %d", (int)e);
	Snap now = fs::snapshot();
	SIM_CHECK(d->get_current_dir() == cd, "moved", "the accessor was at %s and is now at %s", B(cd).c_str(), B(d->get_current_dir()).c_str());
	SIM_CHECK(fs::cwd() == "/w", "process-moved", "the process moved to %s", fs::cwd().c_str());
	SIM_CHECK(fs::open_handles() == 0, "handles", "open after copying: %s", fs::open_desc().c_str());
	for (auto &x : before) {
		if (clash && (below(x.first, to) || below(x.first, "/w/keep"))) continue; // may be written to, directly or through a link in the target
		SIM_CHECK(now.count(x.first) && now[x.first] == x.second, "source", "copying a tree changed or removed %s", x.first.c_str());
	}
	for (auto &x : now) {
		if (before.count(x.first) || below(x.first, to) || x.first == to || below(to, x.first)) continue;
		if (clash && below(x.first, "/w/keep")) continue;
		SIM_CHECK(false, "outside", "copying a tree made %s", x.first.c_str());
	}
	if (e == OK) {
		SIM_CHECK(fs::is_dir(to), "incomplete", "copying a tree reported success and there is no target directory");
		for (auto &x : want) {
			if (x.second == "d") {
				SIM_CHECK(fs::is_dir(x.first), "incomplete", "copying a tree reported success without the directory %s", x.first.c_str());
			} else if (x.second[0] == 'l') {
				SIM_CHECK(now.count(x.first) && now[x.first] == x.second, "incomplete", "copying a tree reported success without the link %s", x.first.c_str());
			} else {
				std::string b;
				SIM_CHECK(x.second[0] == 'f' && fs::get(x.first, &b) && "f" + b == x.second, "incomplete", "copying a tree reported success and %s has %zu bytes instead of %zu, or others", x.first.c_str(), b.size(), x.second.size() - 1);
			}
		}
		if (want.size() > 6) probe(11, "a tree of more than six entries was copied");
	} else {
		SIM_CHECK(fs::fired() > 0 || cap || t.odd || impossible || in_the_way, "error", "copying a tree failed although nothing failed");
		probe(12, "a tree copy failed and was reported");
	}
	memdelete(d);
}
// ---- F08 ---------------------------------------------------------------------------------------------
static const char *const comps[] = { "a", "b", "sub", ".h", "ü漢", "f", "ln", "a b" };
struct H { // one accessor with its model
	DA *d = nullptr;
	std::string cd, root;
	bool listing = false;
};
static std::string some_path(H &h, bool dots) {
	std::string p;
	bool abs = wchoose(3) == 0;
	if (abs) p = h.root + "/";
	int n = 1 + wchoose(3);
	for (int i = 0; i < n; i++) {
		if (i) p += "/";
		uint32_t k = wchoose(dots ? 11 : 8);
		p += k < 8 ? comps[k] : k == 8 ? ".." : k == 9 ? "." : "..";
	}
	return p;
}
static std::string full(H &h, const std::string &p) { return p[0] == '/' ? p : (h.cd == "/" ? "" : h.cd) + "/" + p; }
static void diff(const Snap &a, const Snap &b, Snap &add, Snap &rem) {
	for (auto &x : b) {
		auto it = a.find(x.first);
		if (it == a.end() || it->second != x.second) add[x.first] = x.second;
	}
	for (auto &x : a) {
		auto it = b.find(x.first);
		if (it == b.end() || it->second != x.second) rem[x.first] = x.second;
	}
}
static Snap snap_of(H &h) {
	Snap s = fs::snapshot(), o;
	for (auto &x : s) {
		if (below(x.first, h.root)) o.insert(x);
	}
	return o;
}
static void list_op(H &h) {
	bool skip = wchoose(2);
	uint64_t f0 = fs::fired();
	bool dir = fs::is_dir(h.cd);
	Error e = h.d->list_dir_begin(skip);
	ev("list gives %d", (int)e);
	if (e != OK) {
		SIM_CHECK(fs::fired() > f0 || !dir, "error", "listing a directory failed although nothing failed");
		h.listing = false;
		SIM_CHECK(h.d->get_next() == "", "list", "a listing that did not begin has entries");
		return;
	}
	SIM_CHECK(dir, "list", "a listing of something that is no directory began");
	std::multiset<std::string> got;
	bool stop = false;
	for (;;) {
		if (wchoose(24) == 0) {
			stop = true;
			break;
		}
		uint64_t f1 = fs::fired();
		String n = h.d->get_next();
		if (n.empty()) break;
		std::string b = B(n);
		got.insert(b);
		SIM_CHECK(got.size() < 100, "list", "a listing does not end");
		if (fs::fired() == f1) {
			bool isd = fs::is_dir(full(h, b));
			SIM_CHECK(h.d->current_is_dir() == isd && h.d->current_is_file() == !isd, "kind", "%s is listed with the wrong kind", b.c_str());
		}
		bool special = b == "." || b == "..";
		SIM_CHECK(h.d->current_is_special_dir() == special, "kind", "%s is%s listed as special", b.c_str(), special ? " not" : "");
		SIM_CHECK(h.d->current_is_hidden() == (b[0] == '.' && !special), "kind", "%s is listed with the wrong visibility", b.c_str());
	}
	Snap s = fs::snapshot();
	std::multiset<std::string> want;
	std::string rd = fs::real(h.cd + "/.");
	for (auto &x : s) {
		if (parent(x.first) == rd) want.insert(leaf(x.first));
	}
	if (!skip) {
		want.insert(".");
		want.insert("..");
	}
	for (auto &x : got) SIM_CHECK(want.count(x) == 1 && got.count(x) == 1, "list", "%s is listed %zu times, expected %zu", x.c_str(), got.count(x), want.count(x));
	if (!stop && h.d->get_list_error() == OK) SIM_CHECK(got == want, "list", "a complete listing has %zu of %zu entries", got.size(), want.size());
	if (h.d->get_list_error() != OK) {
		SIM_CHECK(fs::fired() > f0, "error", "a listing error is reported although nothing failed");
		probe(13, "a listing was cut short and said so");
	}
	if (stop && wchoose(2)) {
		h.d->list_dir_end();
		h.listing = false;
	} else {
		h.listing = stop;
	}
}
static void dir_op(H &h, bool faults_possible) {
	DA *d = h.d;
	uint64_t f0 = fs::fired();
	Snap a = snap_of(h), add, rem;
	bool calm = true;
	auto done = [&](const char *what) {
		Snap b = snap_of(h);
		diff(a, b, add, rem);
		calm = fs::fired() == f0;
		ev("%s", what);
	};
	switch (wchoose(17)) {
		case 13: {
			uint64_t r = d->get_space_left();
			done("space");
			if (h.root == "/w" && fs::is_dir(h.cd)) { // alone on the disk
				uint64_t x = fs::free_bytes() / 512 * 512;
				SIM_CHECK(r == x || (!calm && r == 0), "space", "%llu bytes are said to be left of %llu", (unsigned long long)r, (unsigned long long)x);
			}
		} break;
		case 0:
		case 1: {
			std::string p = some_path(h, false), fp = full(h, p);
			bool ex = fs::exists(fp), can = !ex && fs::is_dir(parent(fp));
			Error e = d->make_dir(S(p));
			done("make");
			if (e == OK) {
				SIM_CHECK(add.size() == 1 && rem.empty() && add.begin()->second == "d" && fs::is_dir(fp), "make", "making %s reported success and changed %zu entries", fp.c_str(), add.size() + rem.size());
			} else {
				SIM_CHECK(add.empty() && rem.empty(), "make", "making %s failed and changed something", fp.c_str());
			}
			if (calm) SIM_CHECK(e == (can ? OK : ex ? ERR_ALREADY_EXISTS : ERR_CANT_CREATE), "make", "making %s gives %d", fp.c_str(), (int)e);
		} break;
		case 2:
		case 3: {
			std::string p = some_path(h, true), fp = norm(full(h, p));
			bool can = true;
			for (size_t i = 1; i <= fp.size(); i++) {
				if (i < fp.size() && fp[i] != '/') continue;
				std::string q = fp.substr(0, i);
				if (fs::exists(q) && !fs::is_dir(q)) can = false;
			}
			if (fp != h.root && !below(fp, h.root)) break;
			Error e = d->make_dir_recursive(S(p));
			done("make recursively");
			for (auto &x : add) SIM_CHECK(x.second == "d", "make", "making %s recursively made %s, no directory", fp.c_str(), x.first.c_str());
			SIM_CHECK(rem.empty(), "make", "making %s recursively removed something", fp.c_str());
			if (e == OK) SIM_CHECK(fs::is_dir(fp), "make", "making %s recursively reported success and it is no directory", fp.c_str());
			if (calm) SIM_CHECK((e == OK) == can, "make", "making %s recursively gives %d", fp.c_str(), (int)e);
		} break;
		case 4: {
			std::string p = some_path(h, false), fp = full(h, p);
			std::string r = fs::real(fp);
			bool ex = fs::exists(fp), isd = ex && !fs::is_link(fp) && fs::is_dir(fp), kids = false;
			for (auto &x : a) kids = kids || below(x.first, r);
			Error e = d->remove(S(p));
			done("remove");
			if (e == OK) {
				SIM_CHECK(rem.size() == 1 && rem.begin()->first == r && add.empty() && !fs::exists(fp), "remove", "removing %s reported success and changed %zu entries", fp.c_str(), add.size() + rem.size());
			} else {
				SIM_CHECK(add.empty() && rem.empty(), "remove", "removing %s failed and changed something", fp.c_str());
			}
			if (calm) SIM_CHECK((e == OK) == (ex && !(isd && kids)), "remove", "removing %s gives %d", fp.c_str(), (int)e);
		} break;
		case 5: {
			std::string p = some_path(h, false), q = some_path(h, false), fp = full(h, p), fq = full(h, q);
			std::string rp = fs::real(fp), rq = fs::real(fq);
			bool plain = fs::exists(fp) && !fs::exists(fq) && fs::is_dir(parent(fq)) && !below(rq, rp);
			bool never = !fs::exists(fp) || !fs::is_dir(parent(fq)) || below(rq, rp);
			Snap want = a;
			if (!never && rp != rq) {
				want.erase(rq);
				for (auto &x : a) {
					if (x.first == rp || below(x.first, rp)) {
						want.erase(x.first);
						want[rq + x.first.substr(rp.size())] = x.second;
					}
				}
			}
			Error e = d->rename(S(p), S(q));
			done("rename");
			if (e == OK) {
				SIM_CHECK(!never && snap_of(h) == want, "rename", "renaming %s to %s reported success with another effect", fp.c_str(), fq.c_str());
			} else {
				SIM_CHECK(add.empty() && rem.empty(), "rename", "renaming %s failed and changed something", fp.c_str());
			}
			if (calm && plain) SIM_CHECK(e == OK, "rename", "renaming %s to %s gives %d", fp.c_str(), fq.c_str(), (int)e);
		} break;
		case 6: {
			std::string p = some_path(h, false), fp = full(h, p);
			static const char *const to[] = { "a", "sub/f", "../b", "/w/keep", "/w/keep/file", "nothing", "ü漢" };
			std::string t = to[wchoose(7)];
			if (wchoose(6) == 0) t = std::string(150 + wchoose(150), 'l') + "/x";
			bool can = !fs::exists(fp) && fs::is_dir(parent(fp));
			Error e = d->create_link(S(t), S(p));
			done("link");
			if (e == OK) {
				SIM_CHECK(add.size() == 1 && rem.empty() && add.begin()->second == "l" + t && fs::is_link(fp), "link", "making the link %s reported success with another effect", fp.c_str());
			} else {
				SIM_CHECK(add.empty() && rem.empty(), "link", "making the link %s failed and changed something", fp.c_str());
			}
			if (calm) SIM_CHECK((e == OK) == can, "link", "making the link %s gives %d", fp.c_str(), (int)e);
		} break;
		case 7:
		case 8: {
			std::string p = some_path(h, true), fp = full(h, p);
			std::string to = p[0] == '/' ? p : norm(fp);
			if (norm(fp) != h.root && !below(norm(fp), h.root)) break;
			Error e = wchoose(4) ? d->change_dir(S(p)) : d->open(S(p));
			done("change");
			if (calm) SIM_CHECK((e == OK) == fs::is_dir(to), "change", "changing to %s gives %d", to.c_str(), (int)e);
			if (e == OK) {
				SIM_CHECK(fs::is_dir(to), "change", "changing to %s, no directory, reported success", to.c_str());
				h.cd = to;
			}
		} break;
		case 9: {
			list_op(h);
			done("listed");
			SIM_CHECK(add.empty() && rem.empty(), "list", "listing changed something");
		} break;
		case 10: {
			if (h.root != "/w") break;
			std::string p = some_path(h, false), fp = full(h, p);
			bool x = fs::is_dir(fp);
			bool r = p[0] == '/' || h.cd == fs::cwd() ? DA::exists(S(p)) : x;
			done("exists");
			if (calm) SIM_CHECK(r == x, "exists", "%s is%s said to exist", fp.c_str(), r ? "" : " not");
		} break;
		case 11: {
			std::string p = some_path(h, false), fp = full(h, p), b;
			bool r = d->file_exists(S(p)), r2 = d->is_link(S(p));
			bool x = fs::get(fp, &b), x2 = fs::is_link(fp);
			std::string l = B(d->read_link(S(p)));
			bool r3 = FA::exists(S(fp));
			FA *fa = FA::create();
			bool r4 = fa->file_exists(S(fp));
			memdelete(fa);
			done("file exists");
			if (calm) {
				SIM_CHECK(r == x, "exists", "the file %s is%s said to exist", fp.c_str(), r ? "" : " not");
				SIM_CHECK(r3 == x && r4 == x, "exists", "the file %s is%s said to exist", fp.c_str(), r3 && r4 ? "" : " not");
				SIM_CHECK(r2 == x2, "exists", "%s is%s said to be a link", fp.c_str(), r2 ? "" : " not");
				SIM_CHECK(l == (x2 ? a[fs::real(fp)].substr(1) : ""), "read-link", "the link %s reads as %s", fp.c_str(), l.c_str());
			}
		} break;
		case 12: {
			std::string p = some_path(h, true), fp = full(h, p);
			bool r = d->dir_exists(S(p));
			bool x = fs::is_dir(fp);
			done("dir exists");
			if (calm) SIM_CHECK(r == x, "exists", "the directory %s is%s said to exist", fp.c_str(), r ? "" : " not");
		} break;
		case 16: {
			std::string p = some_path(h, false), fp = full(h, p);
			uint64_t at = 1000000000ULL + wchoose(7) * 600000000ULL; // before and after 2038
			std::string b;
			bool there = fs::get(fp, &b) || fs::is_dir(fp);
			fs::set_mtime(fp, at);
			uint64_t f = FA::get_modified_time(S(fp)), g = d->get_modified_time(S(p));
			done("modified time");
			if (!there) at = 0;
			SIM_CHECK((f == at || f == 0) && (g == at || g == 0), "time", "the time of %s reads as %llu and %llu", fp.c_str(), (unsigned long long)f, (unsigned long long)g);
			if (calm) SIM_CHECK(f == at && g == at, "time", "the time of %s reads as %llu and %llu", fp.c_str(), (unsigned long long)f, (unsigned long long)g);
		} break;
		case 15: {
			std::string p = some_path(h, false), fp = full(h, p);
			static const int modes[] = { 0600, 0644, 0755, 0700 };
			int m = modes[wchoose(4)];
			std::string b;
			bool there = fs::get(fp, &b) || fs::is_dir(fp);
			Error e = FA::set_unix_permissions(S(fp), m);
			bool has = e == OK && there && fs::mode(fp) == m;
			uint32_t g = FA::get_unix_permissions(S(fp));
			done("permissions");
			SIM_CHECK(e != OK || has, "permissions", "setting the permissions of %s reported success", fp.c_str());
			if (calm) {
				SIM_CHECK((e == OK) == there, "permissions", "setting the permissions of %s gives error %d", fp.c_str(), e);
				if (there) SIM_CHECK((g & 0777) == (uint32_t)m, "permissions", "the permissions of %s read as %o", fp.c_str(), g);
			}
		} break;
		default: { // files come and go through the file layer
			std::string fp = full(h, some_path(h, false));
			if (fs::exists(fp) || !fs::is_dir(parent(fp))) break;
			Error e;
			FA::write_file(S(fp), "text", &e);
		}
	}
	if (h.root == "/w") {
		SIM_CHECK(fs::open_handles() == (h.listing ? 1 : 0), "handles", "open between operations: %s", fs::open_desc().c_str());
		SIM_CHECK(fs::cwd() == "/w", "process-moved", "the process moved to %s", fs::cwd().c_str());
	}
	SIM_CHECK(B(d->get_current_dir()) == h.cd, "moved", "the accessor is at %s, expected %s", B(d->get_current_dir()).c_str(), h.cd.c_str());
	(void)faults_possible;
}
static void f08_history() {
	keep_dir();
	fs::mkdirs("/w/sub");
	fs::put("/w/sub/f", "x");
	H h;
	h.root = "/w";
	h.d = DA::create();
	h.cd = "/w";
	SIM_CHECK(B(h.d->get_current_dir()) == "/w", "moved", "a new accessor is not at the working directory");
	arm({ F_STAT, F_OPENDIR, F_READDIR, F_CHDIR, F_GETCWD, F_UNLINK, F_RMDIR, F_ACCESS, F_MKDIR, F_RENAME, F_SYMLINK });
	if (choose(ST_CFG, 2)) fs::faults.capacity = choose(ST_CFG, 2) ? 3000 + choose(ST_CFG, 100000) : (1ULL << 32) + choose(ST_CFG, 1 << 20) * 77777ULL;
	int n = 5 + choose(ST_CFG, 50);
	for (int i = 0; i < n; i++) dir_op(h, true);
	memdelete(h.d);
	SIM_CHECK(fs::open_handles() == 0, "handles", "open after everything was closed: %s", fs::open_desc().c_str());
}
static void f08_threads() {
	keep_dir();
	arm({ F_STAT, F_OPENDIR, F_READDIR, F_CHDIR, F_UNLINK, F_RMDIR, F_ACCESS, F_MKDIR });
	int nt = 2 + choose(ST_CFG, 2);
	std::vector<int> ts;
	for (int t = 0; t < nt; t++) {
		fs::mkdirs("/w/t" + std::to_string(t) + "/sub");
	}
	fs::on_mutate = nullptr;
	for (int t = 0; t < nt; t++) {
		ts.push_back(spawn([t] {
			H h;
			int n;
			{
				Quiet q;
				h.root = "/w/t" + std::to_string(t);
				n = 2 + wchoose(8);
			}
			for (int i = 0; i < n; i++) {
				uint32_t k;
				{
					Quiet q;
					k = wchoose(5);
				}
				if (!h.d) {
					h.d = DA::create();
					if (fs::fired() && h.d->get_current_dir().empty()) { // the system did not say where the process is
						memdelete(h.d);
						h.d = nullptr;
						continue;
					}
					SIM_CHECK(B(h.d->get_current_dir()) == "/w", "moved", "a new accessor is at %s, the process is at /w", B(h.d->get_current_dir()).c_str());
					h.cd = "/w";
					if (h.d->change_dir(S("t" + std::to_string(t))) == OK) h.cd = h.root;
				} else if (k == 0) {
					memdelete(h.d);
					h.d = nullptr;
					h.listing = false;
				} else if (k == 1) { // relative names belong to the process directory
					std::string p = "file" + std::to_string(t);
					Error e = FAILED;
					FA::write_file(S(p), "mine", &e);
					std::string b;
					SIM_CHECK(e != OK || (fs::get("/w/" + p, &b) && b == "mine"), "process-moved", "a file written by a relative name is not in the process's working directory");
				} else if (k == 2 && h.cd == h.root) {
					Error e = h.d->change_dir(wchoose(2) ? "sub" : ".");
					std::string c = B(h.d->get_current_dir());
					SIM_CHECK(c == h.root || (e == OK && c == h.root + "/sub"), "moved", "the accessor is at %s", c.c_str());
					h.cd = c;
				} else if (h.cd != "/w") {
					std::string p = "n" + std::to_string(wchoose(3));
					bool ex = fs::is_dir(h.cd + "/" + p);
					Error e = ex ? h.d->remove(S(p)) : h.d->make_dir(S(p));
					SIM_CHECK((e == OK ? !ex : ex) == fs::is_dir(h.cd + "/" + p), "make", "a directory operation on one thread had another effect");
				}
			}
			if (h.d) memdelete(h.d);
		}));
	}
	for (int t : ts) join(t);
	SIM_CHECK(fs::cwd() == "/w", "process-moved", "the process moved to %s", fs::cwd().c_str());
	Snap s = fs::snapshot();
	for (auto &x : s) {
		if (below(x.first, "/w/keep") || x.first == "/w/keep" || x.first == "/w") continue;
		SIM_CHECK(x.first.compare(0, 4, "/w/t") == 0 || x.first.compare(0, 7, "/w/file") == 0 || !below(x.first, "/w"), "outside", "%s was made outside the accessors' directories", x.first.c_str());
	}
	SIM_CHECK(fs::open_handles() == 0, "handles", "open after everything was closed: %s", fs::open_desc().c_str());
}
static void nothing_left(void (*f)()) {
	uint64_t mark = heap_mark(), by = 0;
	f();
	uint64_t n = heap_live_since(mark, &by);
	SIM_CHECK(n == 0, "lost", "%llu blocks of %llu bytes are left", (unsigned long long)n, (unsigned long long)by);
}
} // namespace
SCENARIO(F06, files, 2) { nothing_left(f06_file); }
SCENARIO(F06, trees, 3) { nothing_left(f06_tree); }
SCENARIO(F07, erase, 1) { nothing_left(f07_erase); }
SCENARIO(F08, histories, 3) { nothing_left(f08_history); }
SCENARIO(F08, threads, 1) { nothing_left(f08_threads); }
