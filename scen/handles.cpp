// F09: descriptors, streams, directory streams, sockets and children over whole histories.
#include "common.h"
#include "modules/kmeans/kmeans.h"
#include "core/data.h"
#include <errno.h>
#include <signal.h>
using namespace sim;

namespace {
static String S(const std::string &s) { return String::utf8(s.c_str(), (int)s.size()); }
struct Slot {
	int kind = -1; // 0 file, 1 directory, 2 socket, 3 process
	FileAccess *f = nullptr;
	DirAccess *d = nullptr;
	Socket *s = nullptr;
	SubProcess *p = nullptr;
	int lo = 0, hi = 0; // handles it may hold now
};
static void faults_on() {
	static const FaultKind ks[] = { F_OPEN, F_CLOSE, F_FLUSH, F_WRITE_EIO, F_WRITE_ENOSPC, F_READ_EIO, F_STAT, F_OPENDIR, F_READDIR, F_RENAME, F_SEEK, F_UNLINK, F_MKDIR, F_RMDIR, F_SYMLINK, F_ACCESS, F_CHMOD };
	fs::faults.short_io = choose(ST_CFG, 2);
	switch (choose(ST_CFG, 5)) {
		case 0: break;
		case 1: fs::faults.fail_nth_syscall = fs::syscalls() + 1 + choose(ST_CFG, 60); break;
		case 2:
			for (FaultKind k : ks) fs::faults.rate[k] = 40 + choose(ST_CFG, 100);
			break;
		default:
			for (int i = 0; i < 3; i++) fs::faults.rate[ks[choose(ST_CFG, sizeof ks / sizeof *ks)]] = 60 + choose(ST_CFG, 500);
	}
	if (choose(ST_CFG, 2)) {
		uint32_t *const n[] = { &net::fail_socket, &net::fail_bind, &net::fail_listen, &net::fail_accept, &net::fail_connect, &net::fail_send, &net::fail_recv, &net::fail_misc };
		for (int i = 0; i < 3; i++) *n[choose(ST_CFG, 8)] = 100 + choose(ST_CFG, 500);
	}
	net::fd_zero = choose(ST_CFG, 4) == 1;
	net::low_free = choose(ST_CFG, 2);
	if (choose(ST_CFG, 2)) {
		proc::fork_fail = choose(ST_CFG, 400);
		proc::popen_fail = choose(ST_CFG, 400);
		proc::wait_eintr = choose(ST_CFG, 400);
	}
	proc::pid_reuse = choose(ST_CFG, 2);
}
static const char *const paths[] = { "/w/a", "/w/b.txt", "/w/d/c", "/w/missing", "/w/d", "/w/no/such/dir/x", "/w/l" };
static String some_path() { return String(paths[wchoose(7)]); }
static void settle(std::vector<Slot> &v, const char *what) {
	int lo = 0, hi = 0, so = 0;
	for (auto &s : v) {
		if (s.kind == 0) s.lo = s.hi = s.f->is_open();
		if (s.kind == 2) {
			so += s.s->_socket > 0;
			continue;
		}
		if (s.kind >= 0) lo += s.lo, hi += s.hi;
	}
	int n = fs::open_handles() - net::open_sockets();
	SIM_CHECK(n <= hi, "left-open", "after %s %d handles are open, %d may be: %s", what, n, hi, fs::open_desc().c_str());
	SIM_CHECK(n >= lo, "closed-early", "after %s %d handles are open, %d objects say theirs is", what, n, lo);
	SIM_CHECK(net::open_sockets() == so, "socket-left-open", "after %s %d sockets are open, %d objects hold one", what, net::open_sockets(), so);
}
static void drop(Slot &s) {
	switch (s.kind) {
		case 0: memdelete(s.f); break;
		case 1: memdelete(s.d); break;
		case 2: delete s.s; break;
		case 3: memdelete(s.p); break;
	}
	s = Slot();
}
static void make(Slot &s) {
	s.kind = wchoose(4);
	switch (s.kind) {
		case 0: {
			if (wchoose(2)) {
				s.f = FileAccess::create();
			} else {
				static const int modes[] = { FileAccess::READ, FileAccess::WRITE, FileAccess::READ_WRITE, FileAccess::WRITE_READ };
				s.f = FileAccess::create_and_open(some_path(), modes[wchoose(4)]);
				if (!s.f) s.kind = -1;
			}
		} break;
		case 1: s.d = wchoose(2) ? DirAccess::create_for_path(some_path()) : DirAccess::create(); break;
		case 2:
			s.s = new Socket();
			if (wchoose(2)) s.s->create_net_socket();
			if (wchoose(4) == 1) { // adopt the descriptor of another one
				int fd = s.s->_socket;
				InetAddress a(80);
				if (fd > 0) {
					s.s->_socket = 0;
					delete s.s;
					s.s = new Socket(fd, a);
				}
			}
			break;
		default: s.p = SubProcess::create(); break;
	}
	if (s.kind == 1 && !s.d) s.kind = -1;
}
static const char *file_op(Slot &s) {
	FileAccess &f = *s.f;
	static const int modes[] = { FileAccess::READ, FileAccess::WRITE, FileAccess::READ_WRITE, FileAccess::WRITE_READ };
	switch (wchoose(9)) {
		case 0:
		case 1: {
			Error e = f.open(some_path(), modes[wchoose(4)]);
			SIM_CHECK((e == OK) == f.is_open() || e == ERR_ALREADY_IN_USE || e == ERR_FILE_ALREADY_IN_USE, "open-result", "open returned %d and is_open() is %d", e, f.is_open());
			return "open";
		}
		case 2: {
			Error e = f.reopen(some_path(), modes[wchoose(4)]);
			(void)e;
			return "reopen";
		}
		case 3:
			f.close();
			SIM_CHECK(!f.is_open(), "still-open", "a closed file says it is open");
			return "close";
		case 4:
			if (f.is_open()) f.store_string(S(std::string(wchoose(200), 'x')));
			return "store";
		case 5:
			if (f.is_open()) f.get_line();
			return "get_line";
		case 6:
			if (f.is_open()) f.flush();
			return "flush";
		case 7:
			if (f.is_open()) {
				f.seek_end(0);
				f.get_len();
			}
			return "seek";
		default: f.file_exists(some_path()); return "file_exists";
	}
}
static const char *dir_op(Slot &s) {
	DirAccess &d = *s.d;
	switch (wchoose(12)) {
		case 0:
		case 1: {
			Error e = d.list_dir_begin(wchoose(2));
			s.hi = e == OK;
			s.lo = e == OK;
			return "list_dir_begin";
		}
		case 2:
		case 3: {
			int n = 1 + wchoose(6);
			for (int i = 0; i < n; i++) {
				if (d.get_next().empty()) {
					s.lo = 0;
					break;
				}
			}
			return "get_next";
		}
		case 4:
			d.list_dir_end();
			s.lo = s.hi = 0;
			return "list_dir_end";
		case 5: d.change_dir(some_path()); return "change_dir";
		case 6: d.copy(some_path(), some_path()); return "copy";
		case 7:
			d.copy_dir("/w/d", "/w/copy", -1, wchoose(2));
			s.lo = 0; // it may use the listing of this object
			return "copy_dir";
		case 8: {
			if (wchoose(2)) {
				d.rename(some_path(), some_path());
				return "rename";
			}
			d.remove(some_path());
			return "remove";
		}
		case 9: {
			fs::mkdirs("/w/gone/x/y");
			fs::put("/w/gone/x/f", "1");
			DirAccess *e = DirAccess::create();
			if (e->change_dir("/w/gone") == OK) e->erase_contents_recursive();
			memdelete(e);
			return "erase_contents_recursive";
		}
		case 10: d.make_dir_recursive("/w/m/n/o"); return "make_dir_recursive";
		default: d.create_link("/w/a", "/w/l2"); return "create_link";
	}
}
static const char *socket_op(std::vector<Slot> &v, Slot &s) {
	Socket &k = *s.s;
	char b[64] = {};
	switch (wchoose(9)) {
		case 0: k.create_net_socket(); return "create";
		case 1: k.close_socket(); return "close_socket";
		case 2: {
			InetAddress a(7000 + wchoose(3), true);
			k.set_reuse_addr(true);
			if (k.bind_address(a) == 0) k.listen();
			return "bind and listen";
		}
		case 3: {
			static const uint8_t lo[] = { 127, 0, 0, 1 };
			net::peer_connect(lo, 7000 + wchoose(3), true);
			Socket *t = nullptr;
			for (auto &x : v) {
				if (x.kind == 2 && x.s != &k) t = x.s;
			}
			Socket extra;
			k.accept(t && wchoose(2) ? t : &extra);
			return "accept";
		}
		case 4: {
			InetAddress a(String("127.0.0.1"), 7000 + wchoose(3));
			k.connect(a);
			return "connect";
		}
		case 5: k.send(b, 1 + wchoose(64)); return "send";
		case 6: k.read(b, 1 + wchoose(64)); return "read";
		case 7: k.close_write(); return "close_write";
		default: k.get_error(); return "get_error";
	}
}
static const char *process_op(Slot &s) {
	SubProcess &p = *s.p;
	switch (wchoose(6)) {
		case 0:
		case 1: {
			proc::Script c;
			c.output = std::string(wchoose(4) * 7, 'o') + (wchoose(2) ? "\nmore" : "");
			c.exit_code = wchoose(3);
			c.run_ns = wchoose(2) ? 0 : 1000000000ULL * wchoose(5);
			c.exec_fails = wchoose(8) == 1;
			proc::next_script(c);
			bool blocking = wchoose(2), out = wchoose(2);
			Error e = p.run("/bin/prog", Vector<String>(), out, blocking, wchoose(2), wchoose(2));
			if (e != ERR_BUSY && e != ERR_ALREADY_IN_USE) { // busy: the earlier one goes on
				s.hi = s.lo = e == OK && !blocking && out;
			}
			return "run";
		}
		case 2: {
			Error e = p.poll();
			if (e != OK) s.lo = 0;
			if (e == ERR_FILE_EOF) s.hi = 0;
			return "poll";
		}
		case 3:
			p.stop();
			s.lo = s.hi = 0;
			return "stop";
		case 4: advance_ns(1000000000ULL * wchoose(4)); return "time passing";
		default: {
			bool r = p.is_process_running();
			(void)r;
			return "is_process_running";
		}
	}
}
static const char *static_op() {
	String p = some_path();
	switch (wchoose(9)) {
		case 0: FileAccess::get_file_as_array(p); return "get_file_as_array";
		case 1: FileAccess::get_file_as_string(p); return "get_file_as_string";
		case 2: FileAccess::write_file(p, S(std::string(wchoose(300), 'y'))); return "write_file";
		case 3: FileAccess::exists(p); return "exists";
		case 4: DirAccess::exists(p); return "DirAccess::exists";
		case 5: {
			Vector<uint8_t> b;
			b.resize(wchoose(200));
			for (int i = 0; i < b.size(); i++) b.write[i] = i;
			FileAccess::write_file_buffer(p, b);
			return "write_file_buffer";
		}
		case 6: {
			Ref<Image> im;
			im.instance();
			im->create(1 + wchoose(4), 1 + wchoose(4), false, Image::FORMAT_RGBA8);
			switch (wchoose(4)) {
				case 0: im->save_png(p); break;
				case 1: im->save_bmp(p); break;
				case 2: im->save_tga(p); break;
				default: im->save_jpg(p, 75);
			}
			im->load_from_file(p);
			return "saving and loading an image";
		}
		case 7: {
			MLPPData t;
			t.load_iris(p);
			return "loading a data set";
		}
		default: {
			FileAccess::set_unix_permissions(p, 0600);
			FileAccess::get_modified_time(p);
			return "permissions";
		}
	}
}
static void f09() {
	fs::mkdirs("/w/d/e");
	fs::put("/w/a", "some text\nmore\n");
	fs::put("/w/b.txt", "1,2,3,4,0\n5,6,7,8,1\n");
	fs::put("/w/d/c", std::string(300, 'c'));
	fs::put("/w/d/e/f", "deep");
	fs::symlink("/w/a", "/w/l");
	FileAccess::set_backup_save(choose(ST_CFG, 3) == 1);
	if (choose(ST_CFG, 2)) fs::stream_buffer = 1 + choose(ST_CFG, 100);
	faults_on();
	std::vector<Slot> v(1 + wchoose(6));
	int n = 1 + wchoose(40);
	for (int i = 0; i < n; i++) {
		Slot &s = v[wchoose(v.size())];
		const char *what;
		if (s.kind < 0) {
			make(s);
			what = "creation";
		} else if (wchoose(10) == 0) {
			drop(s);
			what = "destruction";
		} else if (wchoose(8) == 0) {
			what = static_op();
		} else {
			what = s.kind == 0 ? file_op(s) : s.kind == 1 ? dir_op(s) : s.kind == 2 ? socket_op(v, s) : process_op(s);
		}
		ev("%s on a %d", what, s.kind);
		settle(v, what);
	}
	for (auto &s : v) drop(s);
	settle(v, "the destruction of everything");
	SIM_CHECK(proc::live_or_zombie() == 0, "child-left", "%d children are neither ended nor collected", proc::live_or_zombie());
	SIM_CHECK(proc::bad_waits == 0, "bad-wait", "waited for something that is no uncollected child");
	for (auto &k : proc::kills()) SIM_CHECK(k.target >= 0, "bad-kill", "signal to process %d, which is no child of this one", k.pid);
	SIM_CHECK(net::stdin_touched == 0, "stdin", "standard input was used as a socket");
	probe(5, "histories over files, directories, sockets and processes");
	if (fs::fired()) probe(6, "with failing file calls");
}
} // namespace
SCENARIO(F09, histories, 1) { f09(); }
