// Simulated file system and C stdio.  Nothing here touches the real file system.
#include "rt.h"

#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/uio.h>
#include <unistd.h>
#include <algorithm>
#include <memory>
#include <set>

#define EXPORT extern "C" __attribute__((used, visibility("default")))

namespace sim {
void console(const char *s, size_t n);
namespace proc {
// pipe end of a popen child: returns bytes, 0 at end, -1 error
ssize_t pipe_read(int h, void *buf, size_t n);
int pclose_child(int h);
} // namespace proc
namespace net {
bool is_sock(int fd);
ssize_t sock_read(int fd, void *b, size_t n);
ssize_t sock_write(int fd, const void *b, size_t n);
int sock_close(int fd);
std::string open_desc();
} // namespace net

namespace fs {
struct Node {
	enum T { FILE_, DIR_, LINK_ } type;
	std::string data; // contents or link target
	std::map<std::string, std::shared_ptr<Node>> kids;
	int mode = 0644;
	uint64_t mtime = 0;
	uint64_t ino = 0;
};
typedef std::shared_ptr<Node> NP;

struct Fd {
	NP n;
	uint64_t off = 0;
	int flags = 0;
};
static NP root;
static std::string cwd_;
static std::map<int, Fd> fds;
static int next_fd = 1000;
size_t stream_buffer = 4096;
static uint64_t next_ino = 1, nsys = 0, nfired = 0, lost_bytes = 0, last_forced = 0;
Faults faults;
static uint64_t used_bytes = 0;

struct SFile {
	int fd = -1;
	int pipe = -1;
	bool rd = false, wr = false;
	std::string rbuf;
	size_t rpos = 0;
	std::string wbuf;
	bool eof = false, err = false;
	bool closed = false;
	std::string path;
	int unget = -1;
	size_t bufsz = stream_buffer;
};
struct SDir {
	std::vector<std::pair<std::string, int>> ents;
	size_t pos = 0;
	bool closed = false;
	struct dirent64 ent;
	std::string path;
};
static std::set<SFile *> files;
static std::set<SDir *> dirs;

std::function<void(const char *, const std::string &)> on_mutate;

// crash support
static jmp_buf crash_jb;
static bool crash_armed = false;
static uint32_t crash_at = 0;
static uint64_t crash_base = 0;

void faults_off() {
	memset(faults.rate, 0, sizeof(faults.rate));
	faults.capacity = ~0ULL;
	faults.short_io = false;
	faults.fail_nth_syscall = 0;
	stream_buffer = 4096;
}
static void init() {
	if (!root) {
		root = std::make_shared<Node>();
		root->type = Node::DIR_;
		root->mode = 0755;
		root->ino = next_ino++;
		cwd_ = "/w";
		faults_off();
		mkdirs("/w");
		mkdirs("/home/sim");
		mkdirs("/tmp");
	}
}
void reset() {
	root.reset();
	fds.clear();
	used_bytes = 0;
	init();
}
static std::vector<std::string> split(const std::string &p) {
	std::vector<std::string> v;
	size_t i = 0;
	while (i < p.size()) {
		size_t j = p.find('/', i);
		if (j == std::string::npos) {
			j = p.size();
		}
		if (j > i) {
			v.push_back(p.substr(i, j - i));
		}
		i = j + 1;
	}
	return v;
}
struct Res {
	int err = 0; // 0 or errno
	NP node; // may be null with err ENOENT
	NP parent;
	std::string leaf, real; // real absolute path of the entry
};
static Res resolve(const std::string &path, bool follow_last, int depth = 0) {
	Res r;
	init();
	if (path.empty()) {
		r.err = ENOENT;
		return r;
	}
	if (depth > 20) {
		r.err = ELOOP;
		return r;
	}
	std::string full = path[0] == '/' ? path : cwd_ + "/" + path;
	std::vector<std::string> parts = split(full);
	std::vector<std::pair<NP, std::string>> st; // (node, name)
	st.push_back({ root, "" });
	bool trailing = !path.empty() && path.back() == '/';
	for (size_t i = 0; i < parts.size(); i++) {
		const std::string &c = parts[i];
		bool last = i + 1 == parts.size();
		NP d = st.back().first;
		if (d->type != Node::DIR_) {
			r.err = ENOTDIR;
			return r;
		}
		if (c == ".") {
			continue;
		}
		if (c == "..") {
			if (st.size() > 1) {
				st.pop_back();
			}
			continue;
		}
		if (c.size() > 255) {
			r.err = ENAMETOOLONG;
			return r;
		}
		auto it = d->kids.find(c);
		if (it == d->kids.end()) {
			std::string real;
			for (size_t k = 1; k < st.size(); k++) {
				real += "/" + st[k].second;
			}
			if (last) {
				r.err = ENOENT;
				r.parent = d;
				r.leaf = c;
				r.real = real + "/" + c;
			} else {
				r.err = ENOENT;
			}
			return r;
		}
		NP n = it->second;
		if (n->type == Node::LINK_ && (!last || follow_last || trailing)) {
			std::string base;
			for (size_t k = 1; k < st.size(); k++) {
				base += "/" + st[k].second;
			}
			std::string t = n->data;
			std::string np = (!t.empty() && t[0] == '/') ? t : base + "/" + t;
			for (size_t k = i + 1; k < parts.size(); k++) {
				np += "/" + parts[k];
			}
			return resolve(np, follow_last, depth + 1);
		}
		st.push_back({ n, c });
	}
	r.node = st.back().first;
	r.parent = st.size() > 1 ? st[st.size() - 2].first : nullptr;
	r.leaf = st.back().second;
	for (size_t k = 1; k < st.size(); k++) {
		r.real += "/" + st[k].second;
	}
	if (r.real.empty()) {
		r.real = "/";
	}
	return r;
}
// ---- scenario side ----
void mkdirs(const std::string &p) {
	init();
	NP d = root;
	for (auto &c : split(p)) {
		NP &k = d->kids[c];
		if (!k) {
			k = std::make_shared<Node>();
			k->type = Node::DIR_;
			k->mode = 0755;
			k->ino = next_ino++;
		}
		d = k;
	}
}
void put(const std::string &path, const std::string &bytes, int mode) {
	init();
	size_t k = path.rfind('/');
	mkdirs(path.substr(0, k));
	Res r = resolve(path, true);
	if (!r.node) {
		NP n = std::make_shared<Node>();
		n->type = Node::FILE_;
		n->ino = next_ino++;
		r.parent->kids[r.leaf] = n;
		r.node = n;
	}
	used_bytes += bytes.size() - r.node->data.size();
	r.node->data = bytes;
	r.node->mode = mode;
}
bool get(const std::string &path, std::string *b) {
	Res r = resolve(path, true);
	if (!r.node || r.node->type != Node::FILE_) {
		return false;
	}
	if (b) {
		*b = r.node->data;
	}
	return true;
}
std::string real(const std::string &p) {
	Res r = resolve(p, false);
	return r.real;
}
int mode(const std::string &p) {
	Res r = resolve(p, true);
	return r.node ? r.node->mode : -1;
}
void set_mtime(const std::string &p, uint64_t seconds) {
	Res r = resolve(p, true);
	if (r.node) r.node->mtime = seconds * 1000000000ULL;
}
bool exists(const std::string &p) { return (bool)resolve(p, false).node; }
bool is_dir(const std::string &p) {
	Res r = resolve(p, true);
	return r.node && r.node->type == Node::DIR_;
}
bool is_link(const std::string &p) {
	Res r = resolve(p, false);
	return r.node && r.node->type == Node::LINK_;
}
void symlink(const std::string &t, const std::string &p) {
	Res r = resolve(p, false);
	if (r.node || !r.parent) {
		return;
	}
	NP n = std::make_shared<Node>();
	n->type = Node::LINK_;
	n->data = t;
	n->ino = next_ino++;
	r.parent->kids[r.leaf] = n;
}
static void walk(const NP &n, const std::string &p, std::map<std::string, std::string> &o) {
	for (auto &k : n->kids) {
		std::string q = p + "/" + k.first;
		if (k.second->type == Node::DIR_) {
			o[q] = "d";
			walk(k.second, q, o);
		} else {
			o[q] = (k.second->type == Node::FILE_ ? "f" : "l") + k.second->data;
		}
	}
}
std::map<std::string, std::string> snapshot() {
	init();
	std::map<std::string, std::string> o;
	walk(root, "", o);
	return o;
}
void set_cwd(const std::string &p) {
	init();
	cwd_ = p;
}
std::string cwd() {
	init();
	return cwd_;
}
int open_handles() {
	int n = fds.size();
	for (SFile *f : files) {
		if (!f->closed && f->pipe >= 0) {
			n++;
		}
	}
	for (SDir *d : dirs) {
		if (!d->closed) {
			n++;
		}
	}
	return n + net::open_sockets();
}
std::string open_desc() {
	std::string s;
	for (SFile *f : files) {
		if (!f->closed) {
			s += " stream(" + f->path + ")";
		}
	}
	for (SDir *d : dirs) {
		if (!d->closed) {
			s += " dir(" + d->path + ")";
		}
	}
	for (auto &f : fds) {
		s += " fd" + std::to_string(f.first);
	}
	return s + net::open_desc();
}
uint64_t syscalls() { return nsys; }
uint64_t fired() { return nfired; }
uint64_t free_bytes() { return faults.capacity > used_bytes ? faults.capacity - used_bytes : 0; }
uint64_t writes_failed() { return lost_bytes; }
void new_process() {
	fds.clear();
	for (SFile *f : files) {
		f->closed = true;
	}
	for (SDir *d : dirs) {
		d->closed = true;
	}
	files.clear();
	dirs.clear();
	reset_locks();
}
bool run_crashable(std::function<void()> fn, uint32_t at) {
	static std::function<void()> f;
	f = fn;
	crash_at = at;
	crash_base = nsys;
	if (setjmp(crash_jb) == 0) {
		crash_armed = true;
		f();
		crash_armed = false;
		return false;
	}
	crash_armed = false;
	fault_fired(F_CRASH);
	new_process();
	return true;
}
static void die() {
	if (sim::self() != 0) {
		harness_error("simulated crash outside the main thread");
	}
	longjmp(crash_jb, 1);
}
static bool crash_now() { return crash_armed && crash_at && nsys - crash_base == crash_at; }
static void sys(const char *name) {
	init();
	nsys++;
	syscall_point(name);
}
static void mutated(const char *op, const std::string &p) {
	if (on_mutate) {
		on_mutate(op, p);
	}
}
static bool flt(FaultKind k) {
	bool f = fault(k, faults.rate[k]);
	if (faults.fail_nth_syscall && nsys == faults.fail_nth_syscall && last_forced != nsys) {
		last_forced = nsys; // one failure at exactly this call
		if (!f) {
			fault_fired(k);
			ev("FAULT %s at call %llu", fault_names[k], (unsigned long long)nsys);
		}
		f = true;
	}
	if (f) {
		nfired++;
	}
	return f;
}
static int fail(int e) {
	errno = e;
	return -1;
}
// ---- kernel ----
static int k_open(const char *path, int flags, int mode) {
	sys("open");
	if (crash_now() && (flags & (O_CREAT | O_TRUNC)) == 0) {
		die();
	}
	if (crash_now() && choose(ST_CRASH, 2) == 0) {
		die();
	}
	if (flt(F_OPEN)) {
		static const int es[] = { EMFILE, EACCES, ENFILE, EIO };
		return fail(es[choose(ST_FAULT, 4)]);
	}
	Res r = resolve(path, true);
	bool wr = (flags & O_ACCMODE) != O_RDONLY;
	if (!r.node) {
		if (r.err != ENOENT || !(flags & O_CREAT) || !r.parent) {
			return fail(r.err ? r.err : ENOENT);
		}
		NP n = std::make_shared<Node>();
		n->type = Node::FILE_;
		n->mode = mode & 0777 & ~022;
		n->ino = next_ino++;
		n->mtime = now_ns();
		r.parent->kids[r.leaf] = n;
		r.node = n;
		mutated("create", r.real);
	} else if ((flags & O_CREAT) && (flags & O_EXCL)) {
		return fail(EEXIST);
	}
	if (r.node->type == Node::DIR_ && wr) {
		return fail(EISDIR);
	}
	if (r.node->type == Node::FILE_ && wr && !(r.node->mode & 0222)) {
		return fail(EACCES);
	}
	if (r.node->type == Node::FILE_ && !(r.node->mode & 0444)) {
		return fail(EACCES);
	}
	if ((flags & O_TRUNC) && wr) {
		used_bytes -= r.node->data.size();
		r.node->data.clear();
		mutated("truncate", r.real);
	}
	int fd = next_fd++;
	Fd f;
	f.n = r.node;
	f.flags = flags;
	fds[fd] = f;
	if (crash_now()) {
		die();
	}
	return fd;
}
static ssize_t k_read(int fd, void *buf, size_t n) {
	sys("read");
	if (crash_now()) {
		die();
	}
	auto it = fds.find(fd);
	if (it == fds.end()) {
		violation("bad-descriptor", "read from a descriptor that is not open");
	}
	Fd &f = it->second;
	if (f.n->type == Node::DIR_) {
		return fail(EISDIR);
	}
	if (flt(F_READ_EIO)) {
		return fail(EIO);
	}
	if (flt(F_READ_EINTR)) {
		return fail(EINTR);
	}
	size_t have = f.off < f.n->data.size() ? f.n->data.size() - f.off : 0;
	size_t k = std::min(n, have);
	if (faults.short_io && k > 1 && flip(ST_IO, 1, 2)) {
		k = 1 + choose(ST_IO, k);
		if (k > std::min(n, have)) {
			k = std::min(n, have);
		}
		fault_fired(F_SHORT_READ);
	}
	memcpy(buf, f.n->data.data() + f.off, k);
	f.off += k;
	return k;
}
static ssize_t k_write(int fd, const void *buf, size_t n) {
	sys("write");
	auto it = fds.find(fd);
	if (it == fds.end()) {
		violation("bad-descriptor", "write to a descriptor that is not open");
	}
	Fd &f = it->second;
	if ((f.flags & O_ACCMODE) == O_RDONLY) {
		return fail(EBADF);
	}
	bool crash = crash_now();
	if (!crash) {
		if (flt(F_WRITE_EIO)) {
			lost_bytes += n;
			return fail(EIO);
		}
		if (flt(F_WRITE_EINTR)) {
			lost_bytes += n;
			return fail(EINTR);
		}
		if (flt(F_WRITE_ENOSPC)) {
			lost_bytes += n;
			return fail(ENOSPC);
		}
	}
	size_t k = n;
	if (faults.short_io && k > 1 && flip(ST_IO, 1, 2)) {
		k = 1 + choose(ST_IO, k);
		k = std::min(k, n);
		fault_fired(F_SHORT_WRITE);
	}
	if (crash) {
		k = choose(ST_CRASH, n + 1); // a torn write
	}
	uint64_t off = (f.flags & O_APPEND) ? f.n->data.size() : f.off;
	uint64_t grow = off + k > f.n->data.size() ? off + k - f.n->data.size() : 0;
	if (used_bytes + grow > faults.capacity) {
		uint64_t room = faults.capacity > used_bytes ? faults.capacity - used_bytes : 0;
		uint64_t over = grow - room;
		if (over >= k) {
			lost_bytes += n;
			fault_fired(F_WRITE_ENOSPC);
			nfired++;
			return fail(ENOSPC);
		}
		k -= over;
		grow = room;
	}
	if (off + k > f.n->data.size()) {
		f.n->data.resize(off + k, 0);
		used_bytes += grow;
	}
	memcpy(&f.n->data[off], buf, k);
	f.off = off + k;
	f.n->mtime = now_ns();
	mutated("write", "");
	if (crash) {
		die();
	}
	return k;
}
static int64_t k_lseek(int fd, int64_t off, int wh) {
	sys("lseek");
	if (crash_now()) {
		die();
	}
	auto it = fds.find(fd);
	if (it == fds.end()) {
		violation("bad-descriptor", "seek on a descriptor that is not open");
	}
	if (flt(F_SEEK)) {
		return fail(EIO);
	}
	Fd &f = it->second;
	int64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)f.off : (int64_t)f.n->data.size();
	if (b + off < 0) {
		return fail(EINVAL);
	}
	f.off = b + off;
	return f.off;
}
static int k_close(int fd) {
	sys("close");
	auto it = fds.find(fd);
	if (it == fds.end()) {
		violation("double-close", "close of descriptor %d which is not open", fd);
	}
	fds.erase(it);
	if (crash_now()) {
		die();
	}
	if (flt(F_CLOSE)) {
		return fail(EIO);
	}
	return 0;
}
static void fill_stat(const NP &n, struct stat *st) {
	memset(st, 0, sizeof(*st));
	st->st_mode = (n->type == Node::FILE_ ? S_IFREG : n->type == Node::DIR_ ? S_IFDIR : S_IFLNK) | (n->mode & 07777);
	st->st_size = n->data.size();
	st->st_mtime = n->mtime / 1000000000ULL;
	st->st_ino = n->ino;
	st->st_nlink = 1;
	st->st_blksize = 4096;
}
// ---- stdio ----
static SFile *F(FILE *f, const char *op) {
	SFile *s = (SFile *)f;
	if (!files.count(s)) {
		violation("bad-stream", "%s on a stream that is not open", op);
	}
	return s;
}
static SFile *sf_open(const char *path, const char *mode) {
	int fl = 0;
	bool plus = strchr(mode, '+') != nullptr;
	SFile t;
	switch (mode[0]) {
		case 'r':
			fl = plus ? O_RDWR : O_RDONLY;
			t.rd = true;
			t.wr = plus;
			break;
		case 'w':
			fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
			t.wr = true;
			t.rd = plus;
			break;
		case 'a':
			fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
			t.wr = true;
			t.rd = plus;
			break;
		default:
			errno = EINVAL;
			return nullptr;
	}
	if (strchr(mode, 'x')) {
		fl |= O_EXCL;
	}
	int fd = k_open(path, fl, 0666);
	if (fd < 0) {
		return nullptr;
	}
	SFile *f = new SFile(t);
	f->fd = fd;
	f->path = path;
	files.insert(f);
	return f;
}
// drop read-ahead so that the kernel offset equals the logical position
static int sf_sync_read(SFile *f) {
	if (f->rpos < f->rbuf.size()) {
		int64_t back = f->rbuf.size() - f->rpos;
		f->rbuf.clear();
		f->rpos = 0;
		f->unget = -1;
		if (k_lseek(f->fd, -back, SEEK_CUR) < 0) {
			return -1;
		}
	}
	f->rbuf.clear();
	f->rpos = 0;
	return 0;
}
static int sf_flush(SFile *f) {
	size_t off = 0;
	int rc = 0;
	std::string b;
	b.swap(f->wbuf); // after a failed flush the rest is gone, as in glibc
	while (off < b.size()) {
		ssize_t k = k_write(f->fd, b.data() + off, b.size() - off);
		if (k < 0) {
			f->err = true;
			rc = -1;
			break;
		}
		off += k;
	}
	return rc;
}
static size_t sf_read(SFile *f, void *out, size_t n) {
	char *o = (char *)out;
	size_t got = 0;
	if (!f->rd) {
		f->err = true;
		errno = EBADF;
		return 0;
	}
	if (!f->wbuf.empty() && sf_flush(f) < 0) {
		return 0;
	}
	if (f->unget >= 0 && n) {
		o[got++] = (char)f->unget;
		f->unget = -1;
	}
	while (got < n) {
		if (f->rpos < f->rbuf.size()) {
			size_t k = std::min(n - got, f->rbuf.size() - f->rpos);
			memcpy(o + got, f->rbuf.data() + f->rpos, k);
			f->rpos += k;
			got += k;
			continue;
		}
		f->rbuf.assign(f->bufsz, 0);
		f->rpos = 0;
		ssize_t k = f->pipe >= 0 ? proc::pipe_read(f->pipe, &f->rbuf[0], f->bufsz) : k_read(f->fd, &f->rbuf[0], f->bufsz);
		if (k <= 0) {
			f->rbuf.clear();
			if (k == 0) {
				f->eof = true;
			} else {
				f->err = true;
			}
			break;
		}
		f->rbuf.resize(k);
	}
	return got;
}
static size_t sf_write(SFile *f, const void *in, size_t n) {
	if (!f->wr) {
		f->err = true;
		errno = EBADF;
		return 0;
	}
	if (sf_sync_read(f) < 0) {
		f->err = true;
		return 0;
	}
	const char *p = (const char *)in;
	size_t done = 0;
	while (done < n) {
		size_t k = std::min(n - done, f->bufsz - f->wbuf.size());
		f->wbuf.append(p + done, k);
		done += k;
		if (f->wbuf.size() >= f->bufsz && done < n) {
			if (sf_flush(f) < 0) {
				return done - k; // the chunk that failed is not counted
			}
		}
	}
	return done;
}
static int sf_close(SFile *f) {
	if (f->closed) {
		violation("double-close", "a stream is closed twice");
	}
	int rc = 0;
	if (f->pipe >= 0) {
		rc = proc::pclose_child(f->pipe);
	} else {
		if (!f->wbuf.empty()) {
			if (flt(F_FLUSH)) {
				lost_bytes += f->wbuf.size();
				f->wbuf.clear();
				errno = EIO;
				rc = EOF;
			} else if (sf_flush(f) < 0) {
				rc = EOF;
			}
		} else if (f->wr == false && f->rpos < f->rbuf.size()) {
			// read streams: nothing to write back
		}
		if (k_close(f->fd) < 0) {
			rc = EOF;
		}
	}
	f->closed = true;
	files.erase(f);
	// the object stays allocated: a later use is detected by the set
	return rc;
}
bool is_stream(void *f) { return files.count((SFile *)f) != 0; }
FILE *open_pipe_stream(int h, const char *cmd) {
	SFile *f = new SFile();
	f->rd = true;
	f->pipe = h;
	f->path = cmd;
	files.insert(f);
	return (FILE *)f;
}
int close_stream(FILE *f) { return sf_close(F(f, "pclose")); }
int stream_pipe(FILE *f) { return F(f, "pclose")->pipe; }
} // namespace fs
} // namespace sim
using namespace sim;
using namespace sim::fs;

static bool is_std(FILE *f) { return f == stdout || f == stderr || f == stdin; }
#define PCV __builtin_return_address(0)

EXPORT FILE *sim_fopen(const char *p, const char *m) { return (FILE *)sf_open(p, m); }
EXPORT FILE *sim_fdopen(int fd, const char *m) {
	SFile *f = new SFile();
	f->fd = fd;
	f->rd = strchr(m, 'r') || strchr(m, '+');
	f->wr = strchr(m, 'w') || strchr(m, 'a') || strchr(m, '+');
	files.insert(f);
	return (FILE *)f;
}
EXPORT int sim_fclose(FILE *f) { return is_std(f) ? 0 : sf_close(F(f, "fclose")); }
EXPORT size_t sim_fread(void *b, size_t s, size_t n, FILE *f) {
	SFile *x = F(f, "fread");
	if (s * n == 0) {
		return 0;
	}
	// the library must not read past its own buffer: checked for the bytes actually delivered
	std::string tmp(s * n, 0);
	size_t k = sf_read(x, &tmp[0], s * n);
	range_access(b, k, true, PCV);
	memcpy(b, tmp.data(), k);
	return k / s;
}
EXPORT size_t sim_fwrite(const void *b, size_t s, size_t n, FILE *f) {
	if (is_std(f)) {
		console((const char *)b, s * n);
		return n;
	}
	SFile *x = F(f, "fwrite");
	if (s * n == 0) {
		return 0;
	}
	range_access(b, s * n, false, PCV);
	size_t k = sf_write(x, b, s * n);
	return k / s;
}
EXPORT int sim_fgetc(FILE *f) {
	unsigned char c;
	return sf_read(F(f, "fgetc"), &c, 1) == 1 ? c : EOF;
}
EXPORT int sim_ungetc(int c, FILE *f) {
	F(f, "ungetc")->unget = c;
	F(f, "ungetc")->eof = false;
	return c;
}
EXPORT int sim_fputc(int c, FILE *f) {
	char ch = c;
	if (is_std(f)) {
		console(&ch, 1);
		return c;
	}
	return sf_write(F(f, "fputc"), &ch, 1) == 1 ? (unsigned char)c : EOF;
}
EXPORT char *sim_fgets(char *b, int n, FILE *f) {
	SFile *x = F(f, "fgets");
	int i = 0;
	std::string t;
	bool had_err = x->err;
	while (i < n - 1) {
		char c;
		if (sf_read(x, &c, 1) != 1) {
			break;
		}
		t += c;
		i++;
		if (c == '\n') {
			break;
		}
	}
	if (i == 0 || (x->err && !had_err && errno != EAGAIN)) {
		return nullptr;
	}
	range_access(b, t.size() + 1, true, PCV);
	memcpy(b, t.data(), t.size());
	b[t.size()] = 0;
	return b;
}
EXPORT int sim_fputs(const char *s, FILE *f) {
	size_t n = strlen(s);
	if (is_std(f)) {
		console(s, n);
		return 1;
	}
	return sf_write(F(f, "fputs"), s, n) == n ? 1 : EOF;
}
EXPORT int sim_vfprintf(FILE *f, const char *fmt, va_list ap) {
	char *b = nullptr;
	int n = vasprintf(&b, fmt, ap);
	if (is_std(f)) {
		console(b, n);
	} else if (sf_write(F(f, "fprintf"), b, n) != (size_t)n) {
		n = -1;
	}
	free(b);
	return n;
}
EXPORT int sim_fprintf(FILE *f, const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	int n = sim_vfprintf(f, fmt, ap);
	va_end(ap);
	return n;
}
EXPORT int sim_fflush(FILE *f) {
	if (!f || is_std(f)) {
		return 0;
	}
	SFile *x = F(f, "fflush");
	if (!x->wbuf.empty() && flt(F_FLUSH)) {
		sim::fs::SFile *y = x;
		y->err = true;
		lost_bytes += y->wbuf.size();
		y->wbuf.clear();
		errno = EIO;
		return EOF;
	}
	return sf_flush(x) < 0 ? EOF : 0;
}
EXPORT int sim_feof(FILE *f) { return is_std(f) ? 0 : F(f, "feof")->eof; }
EXPORT int sim_ferror(FILE *f) { return is_std(f) ? 0 : F(f, "ferror")->err; }
EXPORT void sim_clearerr(FILE *f) {
	if (!is_std(f)) {
		F(f, "clearerr")->eof = F(f, "clearerr")->err = false;
	}
}
EXPORT int sim_fseeko(FILE *f, int64_t off, int wh) {
	SFile *x = F(f, "fseek");
	if (!x->wbuf.empty() && sf_flush(x) < 0) {
		return -1;
	}
	if (wh == SEEK_CUR && x->rpos < x->rbuf.size()) {
		off -= x->rbuf.size() - x->rpos;
	}
	if (wh == SEEK_CUR && x->unget >= 0) {
		off--;
	}
	if (k_lseek(x->fd, off, wh) < 0) {
		return -1;
	}
	x->rbuf.clear();
	x->rpos = 0;
	x->unget = -1;
	x->eof = false;
	return 0;
}
EXPORT int64_t sim_ftello(FILE *f) {
	SFile *x = F(f, "ftell");
	int64_t p = k_lseek(x->fd, 0, SEEK_CUR);
	if (p < 0) {
		return -1;
	}
	return p - (int64_t)(x->rbuf.size() - x->rpos) + (int64_t)x->wbuf.size() - (x->unget >= 0 ? 1 : 0);
}
EXPORT void sim_rewind(FILE *f) {
	sim_fseeko(f, 0, SEEK_SET);
	sim_clearerr(f);
}
EXPORT int sim_fileno(FILE *f) {
	if (is_std(f)) {
		return 1;
	}
	SFile *x = F(f, "fileno");
	return x->fd;
}
EXPORT int sim_setvbuf(FILE *f, char *, int mode, size_t n) {
	SFile *x = F(f, "setvbuf");
	x->bufsz = mode == _IONBF ? 1 : (n ? n : 4096);
	return 0;
}
EXPORT int sim_ftruncate(int fd, int64_t n) {
	sys("ftruncate");
	auto it = fds.find(fd);
	if (it == fds.end()) {
		return fail(EBADF);
	}
	it->second.n->data.resize(n, 0);
	return 0;
}
EXPORT int sim_fsync(int fd) {
	sys("fsync");
	if (flt(F_FLUSH)) {
		return fail(EIO);
	}
	return fds.count(fd) ? 0 : fail(EBADF);
}

// ---- descriptors ----
EXPORT int sim_open(const char *p, int fl, ...) {
	va_list ap;
	va_start(ap, fl);
	int mode = (fl & O_CREAT) ? va_arg(ap, int) : 0;
	va_end(ap);
	return k_open(p, fl, mode);
}
EXPORT int sim_close(int fd) {
	if (net::is_sock(fd)) {
		return net::sock_close(fd);
	}
	if (fd < 0) {
		return fail(EBADF);
	}
	return k_close(fd);
}
EXPORT ssize_t sim_read(int fd, void *b, size_t n) {
	if (net::is_sock(fd)) {
		return net::sock_read(fd, b, n);
	}
	if (fd == 0) { // the terminal
		net::stdin_touched++;
		memset(b, 'k', n);
		return n;
	}
	return fd < 0 ? fail(EBADF) : k_read(fd, b, n);
}
EXPORT ssize_t sim_write(int fd, const void *b, size_t n) {
	if (net::is_sock(fd)) {
		return net::sock_write(fd, b, n);
	}
	if (fd == 0) {
		net::stdin_touched++;
		return n;
	}
	if (fd == 1 || fd == 2) {
		console((const char *)b, n);
		return n;
	}
	return fd < 0 ? fail(EBADF) : k_write(fd, b, n);
}
EXPORT int64_t sim_lseek(int fd, int64_t o, int w) { return k_lseek(fd, o, w); }
EXPORT ssize_t sim_pread(int fd, void *b, size_t n, int64_t at) {
	int64_t was = k_lseek(fd, 0, SEEK_CUR);
	if (was < 0 || k_lseek(fd, at, SEEK_SET) < 0) {
		return -1;
	}
	ssize_t r = sim_read(fd, b, n);
	int e = errno;
	k_lseek(fd, was, SEEK_SET);
	errno = e;
	return r;
}
EXPORT ssize_t sim_pwrite(int fd, const void *b, size_t n, int64_t at) {
	int64_t was = k_lseek(fd, 0, SEEK_CUR);
	if (was < 0 || k_lseek(fd, at, SEEK_SET) < 0) {
		return -1;
	}
	ssize_t r = sim_write(fd, b, n);
	int e = errno;
	k_lseek(fd, was, SEEK_SET);
	errno = e;
	return r;
}

// ---- names ----
EXPORT int sim_stat(const char *p, struct stat *st) {
	sys("stat");
	if (flt(F_STAT)) {
		return fail(EIO);
	}
	Res r = resolve(p, true);
	if (!r.node) {
		return fail(r.err);
	}
	fill_stat(r.node, st);
	return 0;
}
EXPORT int sim_lstat(const char *p, struct stat *st) {
	sys("lstat");
	if (flt(F_STAT)) {
		return fail(EIO);
	}
	Res r = resolve(p, false);
	if (!r.node) {
		return fail(r.err);
	}
	fill_stat(r.node, st);
	return 0;
}
EXPORT int sim_fstat(int fd, struct stat *st) {
	sys("fstat");
	auto it = fds.find(fd);
	if (it == fds.end()) {
		return fail(EBADF);
	}
	if (flt(F_STAT)) {
		return fail(EIO);
	}
	fill_stat(it->second.n, st);
	return 0;
}
EXPORT int sim_access(const char *p, int m) {
	sys("access");
	if (flt(F_ACCESS)) {
		return fail(EACCES);
	}
	Res r = resolve(p, true);
	if (!r.node) {
		return fail(r.err);
	}
	if ((m & W_OK) && !(r.node->mode & 0222)) {
		return fail(EACCES);
	}
	return 0;
}
EXPORT int sim_chmod(const char *p, unsigned m) {
	sys("chmod");
	if (flt(F_CHMOD)) {
		return fail(EPERM);
	}
	Res r = resolve(p, true);
	if (!r.node) {
		return fail(r.err);
	}
	r.node->mode = m & 07777;
	return 0;
}
EXPORT int sim_mkdir(const char *p, unsigned mode) {
	sys("mkdir");
	if (crash_now()) {
		die();
	}
	if (flt(F_MKDIR)) {
		static const int es[] = { ENOSPC, EACCES, EIO };
		return fail(es[choose(ST_FAULT, 3)]);
	}
	Res r = resolve(p, false);
	if (r.node) {
		return fail(EEXIST);
	}
	if (!r.parent) {
		return fail(r.err);
	}
	NP n = std::make_shared<Node>();
	n->type = Node::DIR_;
	n->mode = mode & 0777;
	n->ino = next_ino++;
	n->mtime = now_ns();
	r.parent->kids[r.leaf] = n;
	mutated("mkdir", r.real);
	return 0;
}
EXPORT int sim_rmdir(const char *p) {
	sys("rmdir");
	if (crash_now()) {
		die();
	}
	if (flt(F_RMDIR)) {
		return fail(EBUSY);
	}
	Res r = resolve(p, false);
	if (!r.node) {
		return fail(r.err);
	}
	if (r.node->type != Node::DIR_) {
		return fail(ENOTDIR);
	}
	if (!r.node->kids.empty()) {
		return fail(ENOTEMPTY);
	}
	if (!r.parent) {
		return fail(EBUSY);
	}
	r.parent->kids.erase(r.leaf);
	mutated("rmdir", r.real);
	return 0;
}
EXPORT int sim_unlink(const char *p) {
	sys("unlink");
	if (crash_now()) {
		die();
	}
	if (flt(F_UNLINK)) {
		return fail(EACCES);
	}
	Res r = resolve(p, false);
	if (!r.node) {
		return fail(r.err);
	}
	if (r.node->type == Node::DIR_) {
		return fail(EISDIR);
	}
	used_bytes -= r.node->type == Node::FILE_ ? r.node->data.size() : 0;
	r.parent->kids.erase(r.leaf);
	mutated("unlink", r.real);
	if (crash_now()) {
		die();
	}
	return 0;
}
EXPORT int sim_remove(const char *p) {
	Res r = resolve(p, false);
	return r.node && r.node->type == Node::DIR_ ? sim_rmdir(p) : sim_unlink(p);
}
EXPORT int sim_rename(const char *a, const char *b) {
	sys("rename");
	if (crash_now() && choose(ST_CRASH, 2) == 0) {
		die();
	}
	if (flt(F_RENAME)) {
		static const int es[] = { EACCES, EIO, EBUSY };
		return fail(es[choose(ST_FAULT, 3)]);
	}
	Res x = resolve(a, false), y = resolve(b, false);
	if (!x.node) {
		return fail(x.err);
	}
	if (!y.node && !y.parent) {
		return fail(y.err);
	}
	if (!x.parent) {
		return fail(EBUSY);
	}
	if (y.node == x.node) {
		return 0;
	}
	if (x.node->type == Node::DIR_ && (y.real + "/").compare(0, x.real.size() + 1, x.real + "/") == 0) {
		return fail(EINVAL);
	}
	if (y.node) {
		if (y.node->type == Node::DIR_) {
			if (x.node->type != Node::DIR_) {
				return fail(EISDIR);
			}
			if (!y.node->kids.empty()) {
				return fail(ENOTEMPTY);
			}
		} else if (x.node->type == Node::DIR_) {
			return fail(ENOTDIR);
		}
		if (!y.parent) {
			return fail(EBUSY);
		}
	}
	NP n = x.node;
	if (y.node && y.node->type == Node::FILE_) {
		used_bytes -= y.node->data.size();
	}
	x.parent->kids.erase(x.leaf);
	y.parent->kids[y.leaf] = n;
	mutated("rename-from", x.real);
	mutated("rename-to", y.real);
	if (crash_now()) {
		die();
	}
	return 0;
}
EXPORT int sim_symlink(const char *t, const char *p) {
	sys("symlink");
	if (flt(F_SYMLINK)) {
		return fail(EACCES);
	}
	Res r = resolve(p, false);
	if (r.node) {
		return fail(EEXIST);
	}
	if (!r.parent) {
		return fail(r.err);
	}
	sim::fs::symlink(t, p);
	mutated("symlink", r.real);
	return 0;
}
// The *at calls are known relative to the working directory only.
static bool at_cwd(int dir, const char *p) { return dir == AT_FDCWD || (p && p[0] == '/'); }
EXPORT int sim_unlinkat(int dir, const char *p, int fl) { return !at_cwd(dir, p) ? fail(EBADF) : (fl & AT_REMOVEDIR) ? sim_rmdir(p) : sim_unlink(p); }
EXPORT int sim_renameat(int d1, const char *a, int d2, const char *b) { return at_cwd(d1, a) && at_cwd(d2, b) ? sim_rename(a, b) : fail(EBADF); }
EXPORT int sim_mkdirat(int dir, const char *p, unsigned m) { return at_cwd(dir, p) ? sim_mkdir(p, m) : fail(EBADF); }
EXPORT int sim_fstatat(int dir, const char *p, struct stat *st, int fl) { return !at_cwd(dir, p) ? fail(EBADF) : (fl & AT_SYMLINK_NOFOLLOW) ? sim_lstat(p, st) : sim_stat(p, st); }
EXPORT int sim_faccessat(int dir, const char *p, int m, int) { return at_cwd(dir, p) ? sim_access(p, m) : fail(EBADF); }
EXPORT int sim_openat(int dir, const char *p, int fl, ...) {
	va_list ap;
	va_start(ap, fl);
	int mode = (fl & O_CREAT) ? va_arg(ap, int) : 0;
	va_end(ap);
	return at_cwd(dir, p) ? k_open(p, fl, mode) : fail(EBADF);
}
EXPORT int sim_creat(const char *p, int mode) { return k_open(p, O_CREAT | O_WRONLY | O_TRUNC, mode); }
EXPORT int sim_truncate(const char *p, int64_t n) {
	int fd = k_open(p, O_WRONLY, 0);
	if (fd < 0) {
		return -1;
	}
	int r = sim_ftruncate(fd, n);
	k_close(fd);
	return r;
}

EXPORT ssize_t sim_readlink(const char *p, char *b, size_t n) {
	sys("readlink");
	if (flt(F_STAT)) {
		return fail(EIO);
	}
	Res r = resolve(p, false);
	if (!r.node) {
		return fail(r.err);
	}
	if (r.node->type != Node::LINK_) {
		return fail(EINVAL);
	}
	size_t k = std::min(n, r.node->data.size());
	range_access(b, k, true, PCV);
	memcpy(b, r.node->data.data(), k);
	return k;
}
EXPORT char *sim_getcwd(char *b, size_t n) {
	sys("getcwd");
	if (flt(F_GETCWD)) {
		errno = EACCES;
		return nullptr;
	}
	std::string c = sim::fs::cwd();
	if (c.size() + 1 > n) {
		errno = ERANGE;
		return nullptr;
	}
	memcpy(b, c.c_str(), c.size() + 1);
	return b;
}
EXPORT int sim_chdir(const char *p) {
	sys("chdir");
	if (flt(F_CHDIR)) {
		return fail(EACCES);
	}
	Res r = resolve(p, true);
	if (!r.node) {
		return fail(r.err);
	}
	if (r.node->type != Node::DIR_) {
		return fail(ENOTDIR);
	}
	cwd_ = r.real;
	return 0;
}
EXPORT void *sim_opendir(const char *p) {
	sys("opendir");
	if (flt(F_OPENDIR)) {
		errno = EMFILE;
		return nullptr;
	}
	Res r = resolve(p, true);
	if (!r.node) {
		errno = r.err;
		return nullptr;
	}
	if (r.node->type != Node::DIR_) {
		errno = ENOTDIR;
		return nullptr;
	}
	SDir *d = new SDir();
	d->path = p;
	d->ents.push_back({ ".", DT_DIR });
	d->ents.push_back({ "..", DT_DIR });
	for (auto &k : r.node->kids) {
		d->ents.push_back({ k.first, k.second->type == Node::FILE_ ? DT_REG : k.second->type == Node::DIR_ ? DT_DIR : DT_LNK });
	}
	for (size_t i = d->ents.size(); i > 1; i--) {
		size_t j = choose(ST_IO, i); // any order; 0 = keep last in place
		std::swap(d->ents[i - 1], d->ents[(i - 1 + j) % i]);
	}
	dirs.insert(d);
	return d;
}
EXPORT struct dirent64 *sim_readdir(void *p) {
	SDir *d = (SDir *)p;
	if (!dirs.count(d) || d->closed) {
		violation("bad-stream", "readdir on a directory stream that is not open");
	}
	sys("readdir");
	if (flt(F_READDIR)) {
		errno = EIO;
		return nullptr;
	}
	if (d->pos >= d->ents.size()) {
		return nullptr;
	}
	auto &e = d->ents[d->pos++];
	memset(&d->ent, 0, sizeof(d->ent));
	d->ent.d_type = e.second;
	if (flip(ST_IO, 1, 6)) {
		d->ent.d_type = DT_UNKNOWN;
		fault_fired(F_DTYPE_UNKNOWN);
	}
	snprintf(d->ent.d_name, sizeof(d->ent.d_name), "%s", e.first.c_str());
	return &d->ent;
}
EXPORT int sim_closedir(void *p) {
	SDir *d = (SDir *)p;
	if (!dirs.count(d) || d->closed) {
		violation("double-close", "a directory stream is closed twice");
	}
	sys("closedir");
	d->closed = true;
	dirs.erase(d);
	return 0;
}
EXPORT void sim_rewinddir(void *p) { ((SDir *)p)->pos = 0; }
EXPORT int sim_statvfs(const char *p, struct statvfs *v) {
	sys("statvfs");
	if (flt(F_STAT)) {
		return fail(EIO);
	}
	Res r = resolve(p, true);
	if (!r.node) {
		return fail(r.err);
	}
	memset(v, 0, sizeof(*v));
	v->f_bsize = 4096;
	v->f_frsize = 512;
	v->f_bavail = free_bytes() / 512;
	v->f_bfree = v->f_bavail + 1000; // some of it is kept for the administrator
	return 0;
}

// ---- entry points libstdc++'s file streams call (the shared library binds to these) ----
template <class T>
static T real(const char *n) { return (T)dlsym(RTLD_NEXT, n); }
static bool sim_stream(FILE *f) { return in_sim() && sim::fs::is_stream(f); }
EXPORT FILE *fopen64(const char *p, const char *m) {
	if (in_sim()) {
		return sim_fopen(p, m);
	}
	static auto r = real<FILE *(*)(const char *, const char *)>("fopen64");
	return r(p, m);
}
EXPORT FILE *fopen(const char *p, const char *m) {
	if (in_sim()) {
		return sim_fopen(p, m);
	}
	static auto r = real<FILE *(*)(const char *, const char *)>("fopen");
	return r(p, m);
}
EXPORT int fclose(FILE *f) {
	if (sim_stream(f)) {
		return sim_fclose(f);
	}
	static auto r = real<int (*)(FILE *)>("fclose");
	return r(f);
}
EXPORT int fileno(FILE *f) {
	if (sim_stream(f)) {
		return sim_fileno(f);
	}
	static auto r = real<int (*)(FILE *)>("fileno");
	return r(f);
}
EXPORT int fflush(FILE *f) {
	if (f && sim_stream(f)) {
		return sim_fflush(f);
	}
	static auto r = real<int (*)(FILE *)>("fflush");
	return r(f);
}
static bool sim_fd(int fd) { return in_sim() && fd >= 1000; }
EXPORT ssize_t write(int fd, const void *b, size_t n) {
	if (sim_fd(fd)) {
		return sim_write(fd, b, n);
	}
	static auto r = real<ssize_t (*)(int, const void *, size_t)>("write");
	return r(fd, b, n);
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) {
	if (sim_fd(fd)) {
		std::string s;
		for (int i = 0; i < c; i++) {
			s.append((const char *)v[i].iov_base, v[i].iov_len);
		}
		return sim_write(fd, s.data(), s.size());
	}
	static auto r = real<ssize_t (*)(int, const struct iovec *, int)>("writev");
	return r(fd, v, c);
}
EXPORT ssize_t read(int fd, void *b, size_t n) {
	if (sim_fd(fd)) {
		return sim_read(fd, b, n);
	}
	static auto r = real<ssize_t (*)(int, void *, size_t)>("read");
	return r(fd, b, n);
}
EXPORT int64_t lseek(int fd, int64_t o, int w) {
	if (sim_fd(fd)) {
		return sim_lseek(fd, o, w);
	}
	static auto r = real<int64_t (*)(int, int64_t, int)>("lseek");
	return r(fd, o, w);
}
EXPORT int64_t lseek64(int fd, int64_t o, int w) {
	if (sim_fd(fd)) {
		return sim_lseek(fd, o, w);
	}
	static auto r = real<int64_t (*)(int, int64_t, int)>("lseek64");
	return r(fd, o, w);
}
