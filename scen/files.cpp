// F01-F05: files.
#include "common.h"
#include <algorithm>
#include <cmath>
using namespace sim;

namespace {
typedef FileAccess FA;
static std::string utf8_text(uint32_t maxp, bool lines, bool csvish = true) {
	static const char *const plain[] = { "a", "b", "xyz", " ", "0", "é", "漢", "😀", ".", "\t", "\b", "\x01", "\x7f", "\v\f", "\x1b[" };
	static const char *const csv[] = { "\"", ",", ";", "\"\"", "'", "|" };
	std::string s;
	uint32_t n = wchoose(maxp + 1);
	for (uint32_t i = 0; i < n; i++) {
		uint32_t k = wchoose(16);
		if (k == 9) {
			s += plain[9 + wchoose(6)];
		} else if (k < 10) {
			s += plain[k];
		} else if (k < 13 && csvish) {
			s += csv[wchoose(6)];
		} else if (k == 13 && lines) {
			s += "\n";
		} else if (k == 14 && wchoose(4) == 0) {
			s += std::string(1 + wchoose(700), (char)('a' + wchoose(26)));
		} else {
			s += "k";
		}
	}
	return s;
}
static String S(const std::string &s) { return String::utf8(s.c_str(), (int)s.size()); }
static std::string bytes_of(const String &s) {
	CharString c = s.utf8();
	return std::string(c.get_data() ? c.get_data() : "", c.length());
}
static std::string blob(uint32_t maxn) {
	std::string s(wchoose(maxn + 1), 0);
	uint64_t x = bits(ST_W0 + self());
	for (auto &c : s) {
		x = x * 6364136223846793005ULL + 1442695040888963407ULL;
		c = (char)(x >> 56);
	}
	return s;
}
static std::string le(uint64_t v, int n, bool swap) {
	std::string s;
	for (int i = 0; i < n; i++) s += (char)(v >> (8 * (swap ? n - 1 - i : i)));
	return s;
}
static uint64_t un_le(const std::string &s, int n, bool swap) { // missing bytes are 0
	uint64_t v = 0;
	for (int i = 0; i < n; i++) {
		uint64_t b = i < (int)s.size() ? (uint8_t)s[i] : 0;
		v |= b << (8 * (swap ? n - 1 - i : i));
	}
	return v;
}
// ---- F01: model of one open file ---------------------------------------------------------------------
struct M {
	FA *f = nullptr;
	std::string path;
	std::string data;
	uint64_t pos = 0;
	bool eof = false, rd = false, wr = false, open = false, swap = false;
	std::string take(uint64_t n) {
		std::string r;
		if (pos < data.size()) r = data.substr(pos, n);
		if (r.size() < n) eof = true;
		pos += r.size();
		return r;
	}
	void give(const std::string &s) {
		if (s.empty()) return;
		if (pos > data.size()) data.resize(pos, 0);
		data.replace(pos, s.size(), s);
		pos += s.size();
	}
	int byte() {
		std::string s = take(1);
		return s.empty() ? 0 : (uint8_t)s[0];
	}
	std::string line() {
		std::string r;
		for (;;) {
			int c = byte();
			if (eof || c == '\n' || c == 0) return r;
			if (c != '\r') r += (char)c;
		}
	}
};
static String parse(const std::string &b) { // what the library's own decoder makes of these bytes
	std::string z = b.substr(0, b.find('\0'));
	return String::utf8(z.c_str());
}
static std::string some_content(uint32_t kind) {
	std::string s;
	uint32_t n = wchoose(8);
	for (uint32_t i = 0; i < n; i++) s += kind == 0 ? blob(20) : utf8_text(12, true) + (wchoose(2) ? "\n" : "\r\n");
	if (wchoose(6) == 0) s += kind == 0 ? blob(9000) : std::string(5000 + wchoose(4000), 'q');
	return s;
}
static void write_op(M &m) {
	FA *f = m.f;
	uint64_t v = bits(ST_W0 + self());
	if (wchoose(4) == 0) v &= 0xff;
	switch (wchoose(13)) {
		case 0: f->store_8(v); m.give(le(v & 0xff, 1, false)); break;
		case 1: f->store_16(v); m.give(le(v & 0xffff, 2, m.swap)); break;
		case 2: f->store_32(v); m.give(le(v & 0xffffffff, 4, m.swap)); break;
		case 3: f->store_64(v); m.give(le(v, 8, m.swap)); break;
		case 4: {
			float x;
			uint32_t w = v;
			memcpy(&x, &w, 4);
			if (std::isnan(x)) {
				x = NAN;
				memcpy(&w, &x, 4);
			}
			f->store_float(x);
			m.give(le(w, 4, m.swap));
		} break;
		case 5: {
			double x;
			memcpy(&x, &v, 8);
			if (std::isnan(x)) {
				x = -INFINITY;
				memcpy(&v, &x, 8);
			}
			f->store_double(x);
			m.give(le(v, 8, m.swap));
		} break;
		case 6: {
			real_t x = (real_t)((int64_t)v % 100000) / 7;
			f->store_real(x);
			uint64_t w = 0;
			memcpy(&w, &x, sizeof x);
			m.give(le(w, sizeof x, m.swap));
		} break;
		case 7: {
			std::string t = utf8_text(12, true);
			f->store_string(S(t));
			m.give(t);
		} break;
		case 8: {
			std::string t = utf8_text(12, false);
			f->store_line(S(t));
			m.give(t + "\n");
		} break;
		case 9: {
			std::string t = utf8_text(8, true);
			f->store_pascal_string(S(t));
			m.give(le(t.size(), 4, m.swap) + t);
		} break;
		case 10: {
			std::string b = blob(wchoose(8) ? 60 : 9000);
			f->store_buffer((const uint8_t *)b.data(), b.size());
			m.give(b);
		} break;
		case 11: {
			std::string b = blob(60);
			Vector<uint8_t> w;
			w.resize(b.size());
			for (size_t i = 0; i < b.size(); i++) w.write[i] = b[i];
			f->store_buffer_vec(w);
			m.give(b);
		} break;
		default: {
			f->store_csv_line(Vector<String>(), ",");
			m.give("\n");
		}
	}
}
static void read_op(M &m) {
	FA *f = m.f;
	switch (wchoose(12)) {
		case 0: {
			uint8_t r = f->get_8();
			SIM_CHECK(r == m.byte(), "value", "a byte reads back as %d", r);
		} break;
		case 1: {
			uint64_t e = un_le(m.take(2), 2, m.swap), r = f->get_16();
			SIM_CHECK(r == e, "value", "16 bits read back as %llx, expected %llx", (unsigned long long)r, (unsigned long long)e);
		} break;
		case 2: {
			uint64_t e = un_le(m.take(4), 4, m.swap), r = f->get_32();
			SIM_CHECK(r == e, "value", "32 bits read back as %llx, expected %llx", (unsigned long long)r, (unsigned long long)e);
		} break;
		case 3: {
			uint64_t e = un_le(m.take(8), 8, m.swap), r = f->get_64();
			SIM_CHECK(r == e, "value", "64 bits read back as %llx, expected %llx", (unsigned long long)r, (unsigned long long)e);
		} break;
		case 4: {
			uint32_t e = un_le(m.take(4), 4, m.swap), r;
			float x = f->get_float(), y;
			memcpy(&r, &x, 4);
			memcpy(&y, &e, 4);
			SIM_CHECK(r == e || (std::isnan(x) && std::isnan(y)), "value", "a float reads back as %x, expected %x", r, e);
		} break;
		case 5: {
			uint64_t e = un_le(m.take(8), 8, m.swap), r;
			double x = f->get_double(), y;
			memcpy(&r, &x, 8);
			memcpy(&y, &e, 8);
			SIM_CHECK(r == e || (std::isnan(x) && std::isnan(y)), "value", "a double reads back as %llx, expected %llx", (unsigned long long)r, (unsigned long long)e);
		} break;
		case 6: {
			uint64_t e = un_le(m.take(sizeof(real_t)), sizeof(real_t), m.swap);
			real_t x = f->get_real(), y;
			memcpy(&y, &e, sizeof y);
			SIM_CHECK(x == y || (x != x && y != y), "value", "a real number reads back as %f, expected %f", (double)x, (double)y);
		} break;
		case 7: {
			String e = parse(m.line()), r = f->get_line();
			SIM_CHECK(r == e, "value", "a line of %d characters reads back as %d characters or another text", e.length(), r.length());
		} break;
		case 8: {
			std::string t;
			for (;;) {
				int c = m.byte();
				if (m.eof) break;
				if (c <= ' ') {
					if (t.size()) break;
				} else {
					t += (char)c;
				}
			}
			String e = parse(t), r = f->get_token();
			SIM_CHECK(r == e, "value", "a word of %d characters reads back as %d characters or another text", e.length(), r.length());
		} break;
		case 9: {
			uint64_t n = un_le(m.take(4), 4, m.swap);
			uint64_t left = m.data.size() > m.pos ? m.data.size() - m.pos : 0;
			String e;
			if (n > left) {
				if (m.pos < m.data.size()) m.pos = m.data.size();
				m.eof = true;
			} else {
				e = parse(m.take(n));
			}
			String r = f->get_pascal_string();
			SIM_CHECK(r == e, "value", "a counted text of %d characters reads back as %d characters or another text", e.length(), r.length());
		} break;
		default: {
			uint64_t n = wchoose(6) ? wchoose(80) : wchoose(12000);
			std::vector<uint8_t> b(n + 1, 0xcd);
			std::string e = m.take(n);
			uint64_t r = f->get_buffer(b.data(), n);
			SIM_CHECK(r == e.size() && (r == 0 || memcmp(b.data(), e.data(), r) == 0) && b[n] == 0xcd, "value", "a block of %llu bytes reads as %llu bytes, expected %zu, or with another content", (unsigned long long)n, (unsigned long long)r, e.size());
		}
	}
}
static void check_state(M &m) {
	FA *f = m.f;
	SIM_CHECK(f->is_open() == m.open, "state", "a file says it is%s open", m.open ? " not" : "");
	if (!m.open) return;
	SIM_CHECK(f->get_position() == m.pos, "position", "the position is %llu, expected %llu", (unsigned long long)f->get_position(), (unsigned long long)m.pos);
	SIM_CHECK(f->eof_reached() == m.eof, "end-of-file", "the end of the file is%s reported at %llu of %zu", m.eof ? " not" : "", (unsigned long long)m.pos, m.data.size());
	SIM_CHECK(m.eof ? f->get_error() == ERR_FILE_EOF : f->get_error() == OK, "error", "an error is reported although nothing failed");
}
static void f01_history() {
	fs::faults.short_io = choose(ST_CFG, 2);
	if (choose(ST_CFG, 2)) fs::stream_buffer = 1 + choose(ST_CFG, 40);
	std::map<std::string, std::string> disk;
	static const char *const names[] = { "/w/one", "/w/two.bin", "three" };
	uint32_t kind = choose(ST_CFG, 2);
	for (int i = 0; i < 3; i++) {
		if (choose(ST_CFG, 3) == 0) continue;
		disk[names[i]] = some_content(kind);
		fs::put(i == 2 ? "/w/three" : names[i], disk[names[i]]);
	}
	M m[2];
	for (auto &x : m) x.f = FA::create();
	int steps = 4 + choose(ST_CFG, 60);
	for (int i = 0; i < steps; i++) {
		uint32_t w = wchoose(2);
		M &x = m[w];
		uint32_t op = wchoose(20);
		if (!x.open || op == 0) {
			if (x.open && wchoose(2)) {
				x.f->close();
				disk[x.path] = x.data;
				x.open = false;
				ev("close");
			}
			std::string p = names[wchoose(3)];
			if (m[1 - w].open && m[1 - w].path == p) continue;
			static const int modes[] = { FA::READ, FA::WRITE, FA::READ_WRITE, FA::WRITE_READ };
			int mode = modes[wchoose(4)];
			if (x.open) disk[x.path] = x.data;
			ev("open %s mode %d", p.c_str(), mode);
			Error e;
			if (!x.open && wchoose(2)) {
				memdelete(x.f);
				x.f = FA::create_and_open(p.c_str(), mode, &e);
				SIM_CHECK((e == OK) == (x.f != nullptr), "open", "opening a file gives an object and an error, or neither");
				if (!x.f) x.f = FA::create();
				x.swap = false;
			} else {
				e = x.open && wchoose(2) ? x.f->reopen(p.c_str(), mode) : x.f->open(p.c_str(), mode);
			}
			bool must = mode == FA::WRITE || mode == FA::WRITE_READ || disk.count(p);
			SIM_CHECK((e == OK) == must, "open", "opening a file gives error %d", (int)e);
			x.open = must;
			if (must) {
				x.path = p;
				x.rd = mode != FA::WRITE;
				x.wr = mode != FA::READ;
				if (mode == FA::WRITE || mode == FA::WRITE_READ) disk[p] = "";
				x.data = disk[p];
				x.pos = 0;
				x.eof = false;
				SIM_CHECK(x.f->get_path() == String(p.c_str()), "path", "an open file names another path");
			}
		} else if (op < 3) {
			int64_t to = wchoose(x.data.size() + (wchoose(3) ? 1 : 5));
			if (wchoose(8) == 7) { // beyond 31 and 32 bits, and back
				uint64_t far = (wchoose(2) ? 1ULL << 31 : 5ULL << 32) + wchoose(100);
				ev("seek %llu and back", (unsigned long long)far);
				x.f->seek(far);
				SIM_CHECK(x.f->get_position() == far, "position", "the position is %llu, expected %llu", (unsigned long long)x.f->get_position(), (unsigned long long)far);
				if (x.rd) {
					uint8_t b = x.f->get_8();
					SIM_CHECK(b == 0 && x.f->eof_reached(), "end-of-file", "the end of the file is not reported at %llu", (unsigned long long)far);
				}
				x.f->seek(to);
				x.pos = to;
			} else if (wchoose(3)) {
				ev("seek %lld", (long long)to);
				x.f->seek(to);
				x.pos = to;
			} else {
				if (to > (int64_t)x.data.size()) to = x.data.size();
				ev("seek from the end %lld", (long long)to);
				x.f->seek_end(-to);
				x.pos = x.data.size() - to;
			}
			x.eof = false;
		} else if (op == 3) {
			ev("flush");
			if (x.wr) {
				x.f->flush();
				std::string b;
				fs::get(x.path[0] == '/' ? x.path : "/w/" + x.path, &b);
				SIM_CHECK(b == x.data, "flush", "after a flush the file holds %zu bytes, expected %zu, or others", b.size(), x.data.size());
			}
		} else if (op == 4) {
			uint64_t n = x.f->get_len();
			SIM_CHECK(n == x.data.size(), "length", "the length is %llu, expected %zu", (unsigned long long)n, x.data.size());
		} else if (op == 5) {
			x.swap = !x.swap;
			x.f->set_endian_swap(x.swap);
		} else if (op == 6 && x.rd) {
			ev("read all");
			bool cr = wchoose(2);
			x.f->seek(0);
			x.eof = false;
			x.pos = x.data.size();
			std::string z = x.data.substr(0, x.data.find('\0'));
			String e;
			bool bad = e.parse_utf8(z.c_str(), -1, cr) != OK;
			String r = x.f->get_as_utf8_string(cr);
			SIM_CHECK(bad || r == e, "value", "reading a whole file gives %d characters, expected %d, or others", r.length(), e.length());
		} else if (x.rd && (!x.wr || op < 13)) {
			ev("read");
			read_op(x);
		} else if (x.wr) {
			ev("write");
			write_op(x);
		}
		for (auto &y : m) check_state(y);
	}
	for (auto &x : m) {
		if (x.open) disk[x.path] = x.data;
		if (wchoose(2)) x.f->close();
		memdelete(x.f);
	}
	for (auto &d : disk) {
		std::string b;
		std::string p = d.first[0] == '/' ? d.first : "/w/" + d.first;
		SIM_CHECK(fs::get(p, &b) && b == d.second, "contents", "a closed file holds %zu bytes, expected %zu, or others", b.size(), d.second.size());
		Error e = FAILED;
		Vector<uint8_t> v = FA::get_file_as_array(d.first.c_str(), &e);
		SIM_CHECK(e == OK && v.size() == (int)b.size() && (b.empty() || memcmp(v.ptr(), b.data(), b.size()) == 0), "contents", "reading a whole file of %zu bytes gives %d bytes, error %d", b.size(), v.size(), (int)e);
	}
	SIM_CHECK(fs::open_handles() == 0, "handles", "open after everything was closed: %s", fs::open_desc().c_str());
}
static void f01_whole() {
	fs::faults.short_io = choose(ST_CFG, 2);
	if (choose(ST_CFG, 2)) fs::stream_buffer = 1 + choose(ST_CFG, 40);
	if (choose(ST_CFG, 2)) fs::put("/w/x", blob(200));
	int n = 1 + choose(ST_CFG, 5);
	for (int i = 0; i < n; i++) {
		Error e = FAILED;
		if (wchoose(2)) {
			std::string t = utf8_text(30, true);
			FA::write_file("/w/x", S(t), wchoose(3) ? &e : nullptr);
			std::string b;
			SIM_CHECK(fs::get("/w/x", &b) && b == t, "contents", "writing a text of %zu bytes leaves %zu or others", t.size(), b.size());
			Error e2 = FAILED;
			String r = FA::get_file_as_string("/w/x", &e2);
			SIM_CHECK(e2 == OK && bytes_of(r) == t, "contents", "a text of %zu bytes reads back as %d characters, error %d", t.size(), r.length(), (int)e2);
		} else {
			std::string t = blob(wchoose(3) ? 50 : 10000);
			Vector<uint8_t> v;
			v.resize(t.size());
			for (size_t k = 0; k < t.size(); k++) v.write[k] = t[k];
			FA::write_file_buffer("/w/x", v, wchoose(3) ? &e : nullptr);
			std::string b;
			SIM_CHECK(fs::get("/w/x", &b) && b == t, "contents", "writing %zu bytes leaves %zu or others", t.size(), b.size());
			Error e2 = FAILED;
			Vector<uint8_t> r = FA::get_file_as_array("/w/x", &e2);
			SIM_CHECK(e2 == OK && r.size() == (int)t.size() && (t.empty() || memcmp(r.ptr(), t.data(), t.size()) == 0), "contents", "%zu bytes read back as %d, error %d", t.size(), r.size(), (int)e2);
		}
		SIM_CHECK(FA::exists("/w/x") && !FA::exists("/w/none"), "exists", "a file is said not to exist, or a missing one to exist");
		SIM_CHECK(fs::open_handles() == 0, "handles", "open after everything was closed: %s", fs::open_desc().c_str());
	}
}
// ---- F02: failing reads ------------------------------------------------------------------------------
static void arm_reads() {
	if (choose(ST_CFG, 2)) {
		fs::faults.fail_nth_syscall = fs::syscalls() + 1 + choose(ST_CFG, 40);
	} else {
		static const FaultKind ks[] = { F_READ_EIO, F_READ_EINTR, F_SEEK, F_OPEN, F_STAT, F_CLOSE };
		for (FaultKind k : ks) {
			if (choose(ST_CFG, 2)) fs::faults.rate[k] = 20 + choose(ST_CFG, 200);
		}
	}
	fs::faults.short_io = choose(ST_CFG, 2);
	if (choose(ST_CFG, 3)) fs::stream_buffer = 1 + choose(ST_CFG, 60);
}
static void f02_history() {
	std::string data = some_content(choose(ST_CFG, 2));
	fs::put("/w/f", data);
	arm_reads();
	int tries = 1 + choose(ST_CFG, 3);
	for (int t = 0; t < tries; t++) {
		uint64_t fired0 = fs::fired();
		Error e = FAILED;
		FA *f = FA::create_and_open("/w/f", wchoose(4) ? FA::READ : FA::READ_WRITE, &e);
		SIM_CHECK((f != nullptr) == (e == OK), "open", "opening a file gives an object and an error, or neither");
		if (!f) {
			SIM_CHECK(fs::fired() > fired0, "error", "opening a file failed although nothing failed");
			continue;
		}
		M m;
		m.f = f;
		m.data = data;
		m.open = m.rd = true;
		int steps = 1 + wchoose(20);
		for (int i = 0; i < steps; i++) {
			uint64_t fd0 = fs::fired();
			M before = m;
			// every read either gives exactly what the model gives, or is marked as failed
			uint32_t op = wchoose(7);
			bool same = true;
			ev("read op %u at %llu", op, (unsigned long long)m.pos);
			switch (op) {
				case 0: {
					uint64_t n = wchoose(4) ? wchoose(60) : wchoose(9000);
					std::vector<uint8_t> b(n + 1, 0xcd);
					std::string x = m.take(n);
					uint64_t r = f->get_buffer(b.data(), n);
					SIM_CHECK(r <= x.size() && (r == 0 || memcmp(b.data(), x.data(), r) == 0), "invented", "a read of %llu bytes returned %llu that are not all the file's", (unsigned long long)n, (unsigned long long)r);
					same = r == x.size();
				} break;
				case 1: same = f->get_8() == m.byte(); break;
				case 2: same = f->get_32() == un_le(m.take(4), 4, false); break;
				case 3: same = f->get_64() == un_le(m.take(8), 8, false); break;
				case 4: same = f->get_line() == parse(m.line()); break;
				case 5: {
					uint64_t n = f->get_len();
					same = n == data.size();
				} break;
				default: {
					uint64_t to = wchoose(data.size() + 1);
					f->seek(to);
					m.pos = to;
					m.eof = false;
				}
			}
			bool said = f->get_error() != OK && f->get_error() != ERR_FILE_EOF;
			if (fs::fired() == fd0 && !said) {
				SIM_CHECK(same, "value", "a read that did not fail gives something else than the file holds");
				SIM_CHECK(f->eof_reached() == m.eof, "end-of-file", "the end of the file is%s reported", m.eof ? " not" : "");
			} else if (!said) {
				SIM_CHECK(same && f->eof_reached() == m.eof, "unreported", "a read that failed is not marked as failed and gives something else than the file holds");
				if (op >= 5) SIM_CHECK(f->get_position() == m.pos || f->get_error() != OK, "unreported", "a failed seek is not marked as failed");
			}
			said = f->get_error() != OK && f->get_error() != ERR_FILE_EOF;
			if (said) {
				SIM_CHECK(fs::fired() > fired0, "error", "an error is reported although nothing failed");
				probe(3, "read error seen and cleared by a seek");
				f->seek(0);
				m.pos = 0;
				m.eof = false;
				if (f->get_error() != OK) break; // cannot even seek
			}
		}
		memdelete(f);
	}
	SIM_CHECK(fs::open_handles() == 0, "handles", "open after everything was closed: %s", fs::open_desc().c_str());
}
static void f02_loops() {
	std::string data = some_content(choose(ST_CFG, 3) ? 1 : 0);
	fs::put("/w/f", data);
	arm_reads();
	uint64_t fired0 = fs::fired();
	Error e;
	FA *f = FA::create_and_open("/w/f", FA::READ, &e);
	if (!f) return;
	uint32_t how = wchoose(5);
	std::vector<String> got, want;
	M m;
	m.data = data;
	size_t n = 0, limit = data.size() + 3;
	ev("loop %u over %zu bytes", how, data.size());
	while (!f->eof_reached()) {
		SIM_CHECK(n++ <= limit, "endless", "a loop reading until the end of a file of %zu bytes does not end", data.size());
		switch (how) {
			case 0: got.push_back(f->get_line()); break;
			case 1: got.push_back(f->get_token()); break;
			case 2: f->get_csv_line(); break;
			case 3: f->get_8(); break;
			default: f->get_pascal_string();
		}
	}
	Error err = f->get_error();
	SIM_CHECK(err != OK, "error", "the end of a file is neither an end nor an error");
	if (err != ERR_FILE_EOF) SIM_CHECK(fs::fired() > fired0, "error", "an error is reported although nothing failed");
	if (err == ERR_FILE_EOF && how < 2) {
		while (!m.eof) {
			if (how == 0) {
				want.push_back(parse(m.line()));
				continue;
			}
			std::string t;
			for (;;) {
				int c = m.byte();
				if (m.eof) break;
				if (c <= ' ') {
					if (t.size()) break;
				} else {
					t += (char)c;
				}
			}
			want.push_back(parse(t));
		}
		SIM_CHECK(got == want, "unreported", "a loop that met only the end of the file read %zu pieces, expected %zu, or others", got.size(), want.size());
	}
	memdelete(f);
	SIM_CHECK(fs::open_handles() == 0, "handles", "open after everything was closed: %s", fs::open_desc().c_str());
}
static void f02_whole() {
	bool text = choose(ST_CFG, 2);
	std::string data = text ? utf8_text(40, true) : blob(choose(ST_CFG, 2) ? 100 : 10000);
	bool there = choose(ST_CFG, 8) != 0;
	if (there) fs::put("/w/f", data);
	arm_reads();
	int n = 1 + choose(ST_CFG, 4);
	for (int i = 0; i < n; i++) {
		uint64_t fired0 = fs::fired();
		Error e = OK;
		uint32_t how = wchoose(3);
		ev("whole %u", how);
		if (how == 0 && text) {
			String s = FA::get_file_as_string("/w/f", &e);
			if (e == OK) {
				SIM_CHECK(there && bytes_of(s) == data, "unreported", "a whole-file read reports success with %d characters that are not the file's %zu bytes", s.length(), data.size());
			} else {
				SIM_CHECK(s.empty(), "invented", "a failed whole-file read returns data");
			}
		} else if (how == 1) {
			Vector<uint8_t> v = FA::get_file_as_array("/w/f", &e);
			if (e == OK) {
				SIM_CHECK(there && v.size() == (int)data.size() && (data.empty() || memcmp(v.ptr(), data.data(), data.size()) == 0), "unreported", "a whole-file read reports success with %d bytes that are not the file's %zu", v.size(), data.size());
			} else {
				SIM_CHECK(v.size() == 0, "invented", "a failed whole-file read returns data");
			}
		} else {
			FA *f = FA::create_and_open("/w/f", FA::READ, &e);
			if (f) {
				String s = f->get_as_utf8_string(false);
				Error err = f->get_error();
				if (text && err == OK) SIM_CHECK(bytes_of(s) == data, "unreported", "reading a whole file gives %d characters that are not the file's %zu bytes, and no error", s.length(), data.size());
				memdelete(f);
			}
		}
		SIM_CHECK(e == OK || !there || fs::fired() > fired0, "error", "a whole-file read failed although nothing failed");
		SIM_CHECK(fs::open_handles() == 0, "handles", "open after everything was closed: %s", fs::open_desc().c_str());
	}
}
// ---- F03: failing writes -----------------------------------------------------------------------------
static void arm_writes(bool other = true) {
	switch (choose(ST_CFG, 3)) {
		case 0: fs::faults.fail_nth_syscall = fs::syscalls() + 1 + choose(ST_CFG, 30); break;
		case 1: fs::faults.capacity = choose(ST_CFG, 300); break;
		default: {
			static const FaultKind ks[] = { F_WRITE_EIO, F_WRITE_ENOSPC, F_FLUSH, F_CLOSE, F_SEEK, F_OPEN, F_RENAME };
			for (FaultKind k : ks) {
				if (choose(ST_CFG, 2)) fs::faults.rate[k] = 20 + choose(ST_CFG, 300);
			}
		}
	}
	fs::faults.short_io = choose(ST_CFG, 2);
	if (choose(ST_CFG, 3)) fs::stream_buffer = 1 + choose(ST_CFG, 60);
}
static void f03_history() {
	arm_writes();
	if (choose(ST_CFG, 3) == 0) fs::put("/w/f", blob(50));
	if (choose(ST_CFG, 3) == 0) fs::put("/w/g", blob(50));
	M m;
	FA *f = m.f = FA::create();
	int rounds = 1 + choose(ST_CFG, 4);
	std::string last_path;
	for (int r = 0; r < rounds; r++) {
		std::string p = wchoose(2) ? "/w/f" : "/w/g";
		static const int modes[] = { FA::WRITE, FA::WRITE, FA::READ_WRITE, FA::WRITE_READ };
		int mode = modes[wchoose(4)];
		bool was = m.open;
		uint64_t fd0 = fs::fired();
		std::string was_path = m.path, was_data = m.data, now;
		bool said = was && f->get_error() != OK && f->get_error() != ERR_FILE_EOF;
		if (was && was_path == p) continue; // reopening the same path truncates it
		std::string old;
		bool there = fs::get(p, &old);
		ev("open %s mode %d", p.c_str(), mode);
		Error e = f->open(p.c_str(), mode);
		if (was && e == OK && !said) {
			fs::get(was_path, &now);
			SIM_CHECK(now == was_data, "unreported", "reopening reported success although the previous file holds %zu bytes instead of %zu, or others", now.size(), was_data.size());
		}
		if (e != OK) {
			SIM_CHECK(fs::fired() > fd0 || said || (mode == FA::READ_WRITE && !there), "error", "opening a file failed although nothing failed");
			m.open = false;
			continue;
		}
		m.open = true;
		m.path = p;
		m.data = mode == FA::READ_WRITE ? old : "";
		m.pos = 0;
		m.eof = false;
		m.rd = mode != FA::WRITE;
		uint64_t fired0 = fs::fired();
		int steps = wchoose(12);
		for (int i = 0; i < steps; i++) {
			switch (wchoose(8)) {
				case 0: {
					ev("flush");
					f->flush();
					if (f->get_error() == OK) {
						fs::get(p, &now);
						SIM_CHECK(now == m.data, "unreported", "after a flush without an error the file holds %zu bytes, expected %zu, or others", now.size(), m.data.size());
					}
				} break;
				case 1: {
					uint64_t to = wchoose(m.data.size() + 1);
					ev("seek");
					f->seek(to);
					m.pos = to;
					m.eof = false;
					if (f->get_error() != OK) i = steps; // position unknown
				} break;
				case 2:
					if (m.rd && m.pos < m.data.size()) {
						ev("read");
						uint8_t b = f->get_8();
						int x = m.byte();
						if (f->get_error() == OK) {
							SIM_CHECK(b == x, "value", "a byte reads back as another");
						} else {
							i = steps;
						}
						break;
					}
					// fall through
				default:
					ev("write");
					write_op(m);
			}
			if (f->get_error() != OK) probe(4, "a write error was reported before the close");
		}
		Error early = f->get_error();
		if (wchoose(3)) {
			ev("close");
			f->close();
			m.open = false;
			Error err = f->get_error();
			fs::get(p, &now);
			if (early == OK && err == OK) {
				SIM_CHECK(now == m.data, "unreported", "a file was closed without an error and holds %zu bytes, expected %zu, or others", now.size(), m.data.size());
			} else {
				SIM_CHECK(fs::fired() > fired0, "error", "a write error is reported although nothing failed");
				SIM_CHECK(err != OK, "forgotten", "a write error is no longer reported after the close");
				probe(5, "a write error was reported at the close");
			}
		} else if (f->get_error() != OK) {
			f->close();
			m.open = false;
		}
	}
	memdelete(f);
	SIM_CHECK(fs::open_handles() == 0, "handles", "open after everything was closed: %s", fs::open_desc().c_str());
}
static void f03_whole() {
	if (choose(ST_CFG, 2)) fs::put("/w/f", blob(80));
	FA::set_backup_save(choose(ST_CFG, 3) == 0);
	arm_writes();
	int n = 1 + choose(ST_CFG, 4);
	for (int i = 0; i < n; i++) {
		uint64_t fired0 = fs::fired();
		Error e = wchoose(2) ? OK : FAILED;
		std::string d, now;
		if (wchoose(2)) {
			d = utf8_text(wchoose(3) ? 20 : 200, true);
			FA::write_file("/w/f", S(d), &e);
		} else {
			d = blob(wchoose(3) ? 50 : 9000);
			Vector<uint8_t> v;
			v.resize(d.size());
			for (size_t k = 0; k < d.size(); k++) v.write[k] = d[k];
			FA::write_file_buffer("/w/f", v, &e);
		}
		fs::get("/w/f", &now);
		ev("write %zu gives %d", d.size(), (int)e);
		if (e == OK) {
			SIM_CHECK(fs::exists("/w/f") && now == d, "unreported", "writing a whole file of %zu bytes reported success and left %zu bytes or others", d.size(), now.size());
		} else {
			SIM_CHECK(fs::fired() > fired0, "error", "writing a whole file failed although nothing failed");
		}
		SIM_CHECK(fs::open_handles() == 0, "handles", "open after everything was closed: %s", fs::open_desc().c_str());
	}
}
// ---- F04: safe save ----------------------------------------------------------------------------------
struct Watch {
	std::string old;
	bool had = false;
	std::string next; // complete new contents, once everything is stored
	bool ready = false, active = false;
	bool is_next = false;
	bool either = false; // the error may be another file's
};
static Watch W;
static const char *const DST = "/w/d/save";
static int notified;
static void on_fail(const String &) { notified++; }
static void watch() {
	if (!W.active) return;
	std::string b;
	bool there = fs::get(DST, &b);
	bool is_old = there == W.had && (!there || b == W.old);
	bool is_new = W.ready && there && b == W.next;
	SIM_CHECK(is_old || is_new, "torn", "while saving, the destination holds %zu bytes: neither its previous %zu nor the new %zu", b.size(), W.old.size(), W.next.size());
	W.is_next = is_new;
}
static void save_once(M &m, bool helper, Error &err, uint64_t &fired0) {
	err = OK;
	fired0 = fs::fired();
	W.had = fs::get(DST, &W.old);
	if (!W.had) W.old.clear();
	W.ready = false;
	W.either = false;
	W.active = true;
	notified = 0;
	if (helper) {
		std::string d;
		if (wchoose(2)) {
			d = utf8_text(30, true);
			W.next = d;
			W.ready = true;
			FA::write_file(DST, S(d), &err);
		} else {
			d = blob(wchoose(2) ? 40 : 9000);
			Vector<uint8_t> v;
			v.resize(d.size());
			for (size_t k = 0; k < d.size(); k++) v.write[k] = d[k];
			W.next = d;
			W.ready = true;
			FA::write_file_buffer(DST, v, &err);
		}
	} else {
		err = m.f->open(DST, FA::WRITE);
		if (err == OK) {
			m.data.clear();
			m.pos = 0;
			int steps = wchoose(10);
			for (int i = 0; i < steps; i++) {
				uint32_t k = wchoose(8);
				if (k == 0) {
					m.f->flush();
				} else if (k == 1 && m.f->get_error() == OK) {
					uint64_t to = wchoose(m.data.size() + 1);
					m.f->seek(to);
					m.pos = to;
				} else {
					write_op(m);
				}
				if (m.f->get_error() != OK) break;
			}
			W.next = m.data;
			W.ready = true;
			switch (wchoose(3)) {
				case 0:
					m.f->close();
					err = m.f->get_error();
					break;
				case 1: { // opening something else ends the save
					err = m.f->open("/w/other", FA::READ);
					W.either = err != OK;
					m.f->close();
				} break;
				default: // dropping the file ends the save; the error is only signalled to the callback
					memdelete(m.f);
					m.f = nullptr;
					m.f = FA::create();
					err = notified ? FAILED : OK;
			}
		}
	}
	W.active = false;
}
static void after_save(Error err, uint64_t fired0) {
	std::string b;
	bool there = fs::get(DST, &b);
	bool is_old = there == W.had && (!there || b == W.old);
	if (err == OK) {
		SIM_CHECK(there && b == W.next, "unreported", "a save reported success and left %zu bytes, expected %zu, or others", b.size(), W.next.size());
		SIM_CHECK(!fs::exists(std::string(DST) + ".tmp"), "temporary", "a save that reported success left its temporary file");
	} else {
		SIM_CHECK(fs::fired() > fired0, "error", "a save failed although nothing failed");
		bool is_new = W.either && there && b == W.next;
		SIM_CHECK(is_old || is_new, "lost", "a save that reported failure changed the destination: %zu bytes, before %zu", b.size(), W.old.size());
		probe(6, "a save failed and left the previous contents");
	}
}
static void setup_save() {
	W = Watch();
	fs::mkdirs("/w/d");
	fs::put("/w/other", "o");
	if (choose(ST_CFG, 4)) fs::put(DST, blob(choose(ST_CFG, 2) ? 30 : 6000));
	FA::set_backup_save(true);
	FA::set_file_close_fail_notify_callback(on_fail);
	fs::on_mutate = [](const char *, const std::string &) { watch(); };
	if (choose(ST_CFG, 2)) fs::stream_buffer = 1 + choose(ST_CFG, 50);
	fs::faults.short_io = choose(ST_CFG, 2);
}
static void f04_faults() {
	setup_save();
	static const int kinds = 3;
	switch (choose(ST_CFG, kinds + 1)) {
		case 0: break;
		case 1: fs::faults.fail_nth_syscall = fs::syscalls() + 1 + choose(ST_CFG, 40); break;
		case 2: fs::faults.capacity = choose(ST_CFG, 9000); break;
		default: {
			static const FaultKind ks[] = { F_WRITE_EIO, F_WRITE_ENOSPC, F_FLUSH, F_CLOSE, F_SEEK, F_OPEN, F_RENAME, F_UNLINK };
			for (FaultKind k : ks) {
				if (choose(ST_CFG, 2)) fs::faults.rate[k] = 20 + choose(ST_CFG, 300);
			}
		}
	}
	M m;
	m.f = FA::create();
	int n = 1 + choose(ST_CFG, 4);
	for (int i = 0; i < n; i++) {
		if (wchoose(5) == 0) { // a failed or read-only use of the same object in between must not touch the destination
			std::string b0, b1;
			bool t0 = fs::get(DST, &b0);
			ev("other use");
			m.f->open(wchoose(2) ? "/w/missing/x" : "/w/none", wchoose(2) ? FA::WRITE : FA::READ);
			uint64_t f0 = fs::fired();
			notified = 0;
			if (wchoose(2) && m.f->open("/w/other", FA::READ) == OK) {
				m.f->close();
				if (fs::fired() == f0) SIM_CHECK(m.f->get_error() == OK && !notified, "error", "closing a file that was only read reports a failed save");
			}
			m.f->close();
			fs::get(DST, &b1);
			SIM_CHECK(t0 == fs::exists(DST) && b0 == b1, "lost", "using a file object for something else changed the previously saved file");
			continue;
		}
		Error err;
		uint64_t fired0;
		save_once(m, wchoose(2), err, fired0);
		ev("save gives %d", (int)err);
		after_save(err, fired0);
	}
	memdelete(m.f);
	fs::on_mutate = nullptr;
	SIM_CHECK(fs::open_handles() == 0, "handles", "open after everything was closed: %s", fs::open_desc().c_str());
}
static void f04_crash() {
	setup_save();
	int lives = 1 + choose(ST_CFG, 3);
	for (int i = 0; i < lives; i++) {
		bool done = false;
		uint32_t at = 1 + choose(ST_CFG, 40);
		static Error err;
		static uint64_t fired0;
		static M m;
		m = M();
		bool crashed = fs::run_crashable([&] {
			m.f = FA::create();
			save_once(m, wchoose(2), err, fired0);
			memdelete(m.f);
			done = true;
		},
				at);
		W.active = false;
		std::string b;
		bool there = fs::get(DST, &b);
		ev("crashed %d", crashed);
		if (crashed && !done) {
			bool is_old = there == W.had && (!there || b == W.old);
			bool is_new = W.ready && there && b == W.next;
			SIM_CHECK(is_old || is_new, "torn", "after a crash the destination holds %zu bytes: neither its previous %zu nor the new %zu", b.size(), W.old.size(), W.next.size());
			if (is_new && !is_old) probe(7, "crash after the new contents were in place");
		} else {
			after_save(err, fired0);
		}
		Error e = FAILED;
		Vector<uint8_t> v = FA::get_file_as_array(DST, &e); // the next process reads it
		SIM_CHECK((e == OK) == there && (!there || v.size() == (int)b.size()), "restart", "after a restart the saved file does not read back");
	}
	fs::on_mutate = nullptr;
}
// ---- F05: rows and lines -----------------------------------------------------------------------------
static const char *const delims[] = { ",", ";", "\t", "|", " ", "é", "漢", "a" };
static std::string cell() {
	if (wchoose(5) == 0) return "";
	return utf8_text(wchoose(8) ? 5 : 60, true);
}
static void f05_rows() {
	fs::faults.short_io = choose(ST_CFG, 2);
	if (choose(ST_CFG, 2)) fs::stream_buffer = 1 + choose(ST_CFG, 40);
	const char *d = delims[choose(ST_CFG, 8)];
	int n = 1 + choose(ST_CFG, 6);
	std::vector<Vector<String>> rows;
	std::vector<uint64_t> ends;
	FA *f = FA::create_and_open("/w/t.csv", FA::WRITE);
	SIM_CHECK(f, "open", "a new file cannot be opened");
	for (int i = 0; i < n; i++) {
		Vector<String> r;
		int c = 1 + wchoose(5);
		for (int k = 0; k < c; k++) r.push_back(S(cell()));
		rows.push_back(r);
		f->store_csv_line(r, S(d));
		ends.push_back(f->get_position());
	}
	f->close();
	memdelete(f);
	std::string all;
	fs::get("/w/t.csv", &all);
	size_t whole = rows.size();
	bool cut = choose(ST_CFG, 3) == 0;
	if (cut) { // a truncated file: the rows before the cut are still there
		uint64_t at = choose(ST_CFG, (uint32_t)all.size() + 1);
		fs::put("/w/t.csv", all.substr(0, at));
		whole = 0;
		while (whole < ends.size() && ends[whole] <= at) whole++;
		ev("cut at %llu of %zu", (unsigned long long)at, all.size());
	}
	f = FA::create_and_open("/w/t.csv", FA::READ);
	SIM_CHECK(f, "open", "a file cannot be opened");
	std::vector<Vector<String>> got;
	while (!f->eof_reached()) {
		SIM_CHECK(got.size() <= all.size() + 2, "endless", "reading rows does not end");
		got.push_back(f->get_csv_line(S(d)));
	}
	memdelete(f);
	SIM_CHECK(got.size() >= whole, "rows", "%zu whole rows were in the file, %zu were read", whole, got.size());
	if (!cut) {
		// reading on after the last row meets the end: one empty row
		SIM_CHECK(got.size() == rows.size() + 1 && got.back().size() == 1 && got.back()[0].empty(), "rows", "%zu rows were written, %zu were read", rows.size(), got.size() - 1);
	}
	for (size_t i = 0; i < whole; i++) {
		SIM_CHECK(got[i].size() == rows[i].size(), "cells", "a row of %d cells reads back as %d", rows[i].size(), got[i].size());
		for (int k = 0; k < rows[i].size(); k++) SIM_CHECK(got[i][k] == rows[i][k], "cells", "cell %d of row %zu reads back as another text", k, i);
	}
}
static void f05_lines() {
	fs::faults.short_io = choose(ST_CFG, 2);
	if (choose(ST_CFG, 2)) fs::stream_buffer = 1 + choose(ST_CFG, 40);
	int n = choose(ST_CFG, 8);
	std::vector<String> lines;
	FA *f = FA::create_and_open("/w/t", FA::WRITE);
	std::string all;
	for (int i = 0; i < n; i++) {
		std::string t = utf8_text(wchoose(6) ? 8 : 100, false);
		lines.push_back(S(t));
		f->store_line(lines.back());
	}
	bool tail = choose(ST_CFG, 3) == 0;
	std::string last;
	if (tail) {
		last = utf8_text(8, false);
		f->store_string(S(last));
	}
	memdelete(f);
	f = FA::create_and_open("/w/t", FA::READ);
	std::vector<String> got;
	while (!f->eof_reached()) {
		SIM_CHECK(got.size() <= lines.size() + 2, "endless", "reading lines does not end");
		got.push_back(f->get_line());
	}
	memdelete(f);
	lines.push_back(S(last));
	SIM_CHECK(got.size() == lines.size(), "rows", "%zu lines were written, %zu were read", lines.size(), got.size());
	for (size_t i = 0; i < lines.size(); i++) SIM_CHECK(got[i] == lines[i], "cells", "line %zu reads back as another text", i);
}
static void f05_garbage() { // whatever the bytes: rows come to an end and account for the whole file
	fs::faults.short_io = choose(ST_CFG, 2);
	if (choose(ST_CFG, 2)) fs::stream_buffer = 1 + choose(ST_CFG, 40);
	std::string s;
	static const char pool[] = "\"\",,\n\n\r;ab \t";
	uint32_t n = choose(ST_CFG, 60);
	for (uint32_t i = 0; i < n; i++) {
		uint32_t k = wchoose(16);
		s += k < 13 ? pool[k] : k == 13 ? (char)0 : (char)(128 + wchoose(128));
	}
	if (wchoose(8) == 0) s += blob(5000);
	fs::put("/w/t", s);
	FA *f = FA::create_and_open("/w/t", FA::READ);
	size_t rows = 0, lines = 0;
	while (!f->eof_reached()) {
		SIM_CHECK(rows++ <= s.size() + 1, "endless", "reading rows does not end");
		Vector<String> r = f->get_csv_line(wchoose(2) ? "," : ";");
		SIM_CHECK(r.size() >= 1, "cells", "a row has no cell");
		SIM_CHECK(f->get_position() <= s.size(), "position", "reading rows went past the end of the file");
	}
	SIM_CHECK(f->get_position() == s.size(), "rows", "reading rows ended before the end of the file");
	f->seek(0);
	while (!f->eof_reached()) {
		SIM_CHECK(lines++ <= s.size() + 1, "endless", "reading lines does not end");
		f->get_line();
	}
	size_t want = 1 + std::count(s.begin(), s.end(), '\n') + std::count(s.begin(), s.end(), '\0');
	SIM_CHECK(lines == want, "rows", "a file of %zu lines reads as %zu", want, lines);
	memdelete(f);
}
} // namespace

SCENARIO(F01, histories, 3) { f01_history(); }
SCENARIO(F01, whole_files, 1) { f01_whole(); }
SCENARIO(F02, histories, 2) { f02_history(); }
SCENARIO(F02, loops, 1) { f02_loops(); }
SCENARIO(F02, whole_files, 1) { f02_whole(); }
SCENARIO(F03, histories, 2) { f03_history(); }
SCENARIO(F03, whole_files, 1) { f03_whole(); }
SCENARIO(F04, failures, 2) { f04_faults(); }
SCENARIO(F04, crashes, 2) { f04_crash(); }
SCENARIO(F05, rows, 3) { f05_rows(); }
SCENARIO(F05, lines, 1) { f05_lines(); }
SCENARIO(F05, any_bytes, 1) { f05_garbage(); }
