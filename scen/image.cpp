// I01: images in files. The encoders and decoders under test are the library's; the oracle decodes the bytes on the
// simulated disk with its own PNG (inflate included), TGA and BMP readers.
#include "common.h"
#include "image.h"
#include <cmath>
using namespace sim;

namespace {
struct Px {
	int w = 0, h = 0, n = 0;
	std::string d; // n channels, rows top to bottom
};
// ---- independent decoders --------------------------------------------------------------------------
struct Inflate {
	const uint8_t *p, *e;
	uint32_t bit = 0;
	int nbit = 0;
	bool bad = false;
	std::string out;
	uint32_t get(int n) {
		while (nbit < n) {
			if (p >= e) {
				bad = true;
				return 0;
			}
			bit |= (uint32_t)*p++ << nbit;
			nbit += 8;
		}
		uint32_t r = bit & ((1u << n) - 1);
		bit >>= n;
		nbit -= n;
		return r;
	}
	struct Huff {
		uint16_t count[16], sym[288];
		void make(const uint8_t *len, int n) {
			memset(count, 0, sizeof count);
			for (int i = 0; i < n; i++) count[len[i]]++;
			count[0] = 0;
			uint16_t off[16];
			off[1] = 0;
			for (int i = 1; i < 15; i++) off[i + 1] = off[i] + count[i];
			for (int i = 0; i < n; i++) {
				if (len[i]) sym[off[len[i]]++] = i;
			}
		}
	};
	int decode(const Huff &h) {
		int code = 0, first = 0, index = 0;
		for (int i = 1; i < 16; i++) {
			code |= get(1);
			if (bad) return -1;
			int c = h.count[i];
			if (code - c < first) return h.sym[index + (code - first)];
			index += c;
			first = (first + c) << 1;
			code <<= 1;
		}
		bad = true;
		return -1;
	}
	bool run() {
		static const uint16_t lb[] = { 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258 };
		static const uint8_t lx[] = { 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0 };
		static const uint16_t db[] = { 1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577 };
		static const uint8_t dx[] = { 0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13 };
		bool last = false;
		while (!last && !bad) {
			last = get(1);
			uint32_t type = get(2);
			if (type == 0) {
				bit = 0;
				nbit = 0;
				if (e - p < 4) return false;
				uint32_t n = p[0] | p[1] << 8;
				if ((n ^ 0xffff) != (uint32_t)(p[2] | p[3] << 8)) return false;
				p += 4;
				if ((uint32_t)(e - p) < n) return false;
				out.append((const char *)p, n);
				p += n;
				continue;
			}
			Huff L, D;
			uint8_t len[320];
			if (type == 1) {
				for (int i = 0; i < 288; i++) len[i] = i < 144 ? 8 : i < 256 ? 9 : i < 280 ? 7 : 8;
				L.make(len, 288);
				for (int i = 0; i < 30; i++) len[i] = 5;
				D.make(len, 30);
			} else if (type == 2) {
				static const uint8_t ord[] = { 16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15 };
				int nl = get(5) + 257, nd = get(5) + 1, nc = get(4) + 4;
				memset(len, 0, sizeof len);
				for (int i = 0; i < nc; i++) len[ord[i]] = get(3);
				L.make(len, 19);
				uint8_t l2[320];
				memset(l2, 0, sizeof l2);
				for (int i = 0; i < nl + nd && !bad;) {
					int s = decode(L);
					if (s < 0) return false;
					if (s < 16) {
						l2[i++] = s;
					} else {
						int prev = s == 16 ? (i ? l2[i - 1] : 0) : 0;
						int rep = s == 16 ? 3 + get(2) : s == 17 ? 3 + get(3) : 11 + get(7);
						while (rep-- && i < nl + nd) l2[i++] = prev;
					}
				}
				L.make(l2, nl);
				D.make(l2 + nl, nd);
			} else {
				return false;
			}
			for (;;) {
				int s = decode(L);
				if (bad || s < 0) return false;
				if (s == 256) break;
				if (s < 256) {
					out += (char)s;
					continue;
				}
				s -= 257;
				if (s >= 29) return false;
				uint32_t n = lb[s] + get(lx[s]);
				int t = decode(D);
				if (bad || t < 0 || t >= 30) return false;
				uint32_t dist = db[t] + get(dx[t]);
				if (dist > out.size()) return false;
				for (uint32_t i = 0; i < n; i++) out += out[out.size() - dist];
			}
		}
		return !bad;
	}
};
static uint32_t be32(const std::string &s, size_t o) {
	return (uint32_t)(uint8_t)s[o] << 24 | (uint32_t)(uint8_t)s[o + 1] << 16 | (uint32_t)(uint8_t)s[o + 2] << 8 | (uint8_t)s[o + 3];
}
static uint32_t le32(const std::string &s, size_t o) {
	return (uint32_t)(uint8_t)s[o + 3] << 24 | (uint32_t)(uint8_t)s[o + 2] << 16 | (uint32_t)(uint8_t)s[o + 1] << 8 | (uint8_t)s[o];
}
static uint32_t le16(const std::string &s, size_t o) { return (uint8_t)s[o] | (uint32_t)(uint8_t)s[o + 1] << 8; }
static uint32_t crc32(const char *p, size_t n) {
	uint32_t c = ~0u;
	for (size_t i = 0; i < n; i++) {
		c ^= (uint8_t)p[i];
		for (int k = 0; k < 8; k++) c = c & 1 ? 0xedb88320u ^ (c >> 1) : c >> 1;
	}
	return ~c;
}
static const char *un_png(const std::string &f, Px &r) {
	if (f.size() < 8 || f.compare(0, 8, "\x89PNG\r\n\x1a\n") != 0) return "signature";
	size_t o = 8;
	std::string z;
	bool end = false;
	int color = -1;
	while (!end) {
		if (f.size() - o < 12) return "chunk cut";
		uint32_t n = be32(f, o);
		if (f.size() - o - 12 < n) return "chunk cut";
		std::string t = f.substr(o + 4, 4);
		if (crc32(&f[o + 4], n + 4) != be32(f, o + 8 + n)) return "chunk checksum";
		if (t == "IHDR") {
			if (n != 13) return "header";
			r.w = be32(f, o + 8);
			r.h = be32(f, o + 12);
			if (f[o + 16] != 8 || f[o + 18] != 0 || f[o + 19] != 0 || f[o + 20] != 0) return "header";
			color = f[o + 17];
		} else if (t == "IDAT") {
			z += f.substr(o + 8, n);
		} else if (t == "IEND") {
			end = true;
		}
		o += 12 + n;
	}
	if (o != f.size()) return "bytes after the end";
	r.n = color == 0 ? 1 : color == 2 ? 3 : color == 4 ? 2 : color == 6 ? 4 : 0;
	if (!r.n || z.size() < 6) return "header";
	Inflate i;
	i.p = (const uint8_t *)z.data() + 2;
	i.e = (const uint8_t *)z.data() + z.size() - 4;
	if (!i.run()) return "compressed data";
	uint32_t s1 = 1, s2 = 0;
	for (unsigned char c : i.out) {
		s1 = (s1 + c) % 65521;
		s2 = (s2 + s1) % 65521;
	}
	if ((s2 << 16 | s1) != be32(z, z.size() - 4)) return "data checksum";
	size_t line = (size_t)r.w * r.n;
	if (i.out.size() != (line + 1) * r.h) return "size";
	std::string prev(line, 0);
	for (int y = 0; y < r.h; y++) {
		int ft = i.out[y * (line + 1)];
		std::string cur = i.out.substr(y * (line + 1) + 1, line);
		for (size_t x = 0; x < line; x++) {
			int a = x >= (size_t)r.n ? (uint8_t)cur[x - r.n] : 0, b = (uint8_t)prev[x], c = x >= (size_t)r.n ? (uint8_t)prev[x - r.n] : 0;
			int v = 0;
			switch (ft) {
				case 0: v = 0; break;
				case 1: v = a; break;
				case 2: v = b; break;
				case 3: v = (a + b) / 2; break;
				case 4: {
					int p = a + b - c, pa = abs(p - a), pb = abs(p - b), pc = abs(p - c);
					v = pa <= pb && pa <= pc ? a : pb <= pc ? b : c;
				} break;
				default: return "filter";
			}
			cur[x] = (char)(cur[x] + v);
		}
		r.d += cur;
		prev = cur;
	}
	return nullptr;
}
static const char *un_tga(const std::string &f, Px &r) {
	if (f.size() < 18) return "header";
	int type = f[2];
	r.w = le16(f, 12);
	r.h = le16(f, 14);
	int bpp = (uint8_t)f[16];
	bool top = f[17] & 0x20;
	if (f[0] || f[1]) return "header";
	bool grey = (type & 7) == 3;
	if (!grey && (type & 7) != 2) return "type";
	r.n = bpp / 8;
	if (grey ? r.n > 2 : r.n < 3) return "depth";
	if ((f[17] & 15) != (r.n == 2 || r.n == 4 ? 8 : 0)) return "alpha bits";
	std::string d;
	size_t o = 18, want = (size_t)r.w * r.h * r.n;
	if (type & 8) {
		while (d.size() < want) {
			if (o >= f.size()) return "cut";
			int c = (uint8_t)f[o++], k = (c & 127) + 1;
			size_t need = c & 128 ? r.n : (size_t)k * r.n;
			if (f.size() - o < need) return "cut";
			if (c & 128) {
				for (int i = 0; i < k; i++) d += f.substr(o, r.n);
			} else {
				d += f.substr(o, need);
			}
			o += need;
		}
	} else {
		if (f.size() - o < want) return "cut";
		d = f.substr(o, want);
		o += want;
	}
	if (d.size() != want || o != f.size()) return "size";
	for (int y = 0; y < r.h; y++) {
		std::string row = d.substr((size_t)(top ? y : r.h - 1 - y) * r.w * r.n, (size_t)r.w * r.n);
		if (r.n >= 3) {
			for (int x = 0; x < r.w; x++) std::swap(row[x * r.n], row[x * r.n + 2]);
		}
		r.d += row;
	}
	return nullptr;
}
static const char *un_bmp(const std::string &f, Px &r) { // colours only: 3 or 4 channels
	if (f.size() < 54 || f[0] != 'B' || f[1] != 'M') return "header";
	if (le32(f, 2) != f.size()) return "size";
	uint32_t off = le32(f, 10);
	r.w = le32(f, 18);
	r.h = le32(f, 22);
	int bpp = le16(f, 28);
	if (bpp != 24 && bpp != 32) return "depth";
	r.n = bpp / 8;
	size_t line = ((size_t)r.w * r.n + 3) / 4 * 4;
	if (off + line * r.h != f.size()) return "size";
	if (bpp == 32 && (le32(f, 30) != 3 || le32(f, 54) != 0xff0000 || le32(f, 58) != 0xff00 || le32(f, 62) != 0xff || le32(f, 66) != 0xff000000u)) return "masks";
	for (int y = 0; y < r.h; y++) {
		std::string row = f.substr(off + line * (r.h - 1 - y), (size_t)r.w * r.n);
		for (int x = 0; x < r.w; x++) std::swap(row[x * r.n], row[x * r.n + 2]);
		r.d += row;
	}
	return nullptr;
}
// ---- images ------------------------------------------------------------------------------------------
static Image::Format fmt_of(int n) {
	static const Image::Format fs[] = { Image::FORMAT_L8, Image::FORMAT_LA8, Image::FORMAT_RGB8, Image::FORMAT_RGBA8 };
	return fs[n - 1];
}
static Px some_pixels() {
	Px p;
	p.n = 1 + wchoose(4);
	switch (wchoose(8)) {
		case 0: p.w = 1, p.h = 1; break;
		case 1: p.w = 1 + wchoose(400), p.h = 1 + wchoose(3); break;
		case 2: p.w = 1 + wchoose(3), p.h = 1 + wchoose(300); break;
		case 3: p.w = 20 + wchoose(60), p.h = 20 + wchoose(60); break;
		default: p.w = 1 + wchoose(12), p.h = 1 + wchoose(12);
	}
	p.d.assign((size_t)p.w * p.h * p.n, 0);
	uint64_t x = bits(ST_W0 + self()) | 1;
	uint32_t style = wchoose(4);
	for (size_t i = 0; i < p.d.size(); i++) {
		x = x * 6364136223846793005ULL + 1442695040888963407ULL;
		uint8_t v = x >> 56;
		switch (style) {
			case 0: break; // noise
			case 1: v = (i / p.n % p.w) * 3 + (i / p.n / p.w); break; // a slope
			case 2: v = v < 200 && i >= (size_t)p.n ? (uint8_t)p.d[i - p.n] : v; break; // runs
			default: v = (uint8_t)(x >> 40) & 128 ? 255 : 0; // black and white
		}
		p.d[i] = (char)v;
	}
	return p;
}
static Ref<Image> image_of(const Px &p) {
	PoolVector<uint8_t> pv;
	Vector<uint8_t> v;
	v.resize(p.d.size());
	for (size_t i = 0; i < p.d.size(); i++) v.write[i] = (uint8_t)p.d[i];
	Ref<Image> im;
	im.instance();
	im->create(p.w, p.h, false, fmt_of(p.n), v);
	return im;
}
static std::string bytes_of(const Ref<Image> &im) {
	Vector<uint8_t> v = im->get_data();
	return v.size() ? std::string((const char *)v.ptr(), v.size()) : std::string();
}
static std::string as_n(const Px &p, int n) { // grey becomes equal colours, missing alpha becomes opaque
	std::string r;
	for (size_t i = 0; i < (size_t)p.w * p.h; i++) {
		const char *s = &p.d[i * p.n];
		char c[4] = { s[0], s[p.n >= 3 ? 1 : 0], s[p.n >= 3 ? 2 : 0], (char)(p.n == 2 ? s[1] : p.n == 4 ? s[3] : 255) };
		if (n == 1) r.append(c, 1);
		if (n == 2) r += c[0], r += c[3];
		if (n >= 3) r.append(c, n);
	}
	return r;
}
enum Kind { PNG, TGA, BMP, JPG, HDR };
static const char *const kname[] = { "png", "tga", "bmp", "jpg", "hdr" };
static Error save(Ref<Image> im, Kind k, const String &path) {
	switch (k) {
		case PNG: return im->save_png(path);
		case TGA: return im->save_tga(path);
		case BMP: return im->save_bmp(path);
		case JPG: return im->save_jpg(path, 1 + wchoose(100));
		default: return im->save_hdr(path);
	}
}
// What a file holding p should decode to with k's own decoder; nullptr if it does.
static const char *wrong_file(Kind k, const std::string &f, const Px &p) {
	Px r;
	const char *e = k == PNG ? un_png(f, r) : k == TGA ? un_tga(f, r) : k == BMP ? un_bmp(f, r) : nullptr;
	if (e) return e;
	if (k == JPG) {
		if (f.size() < 4 || (uint8_t)f[0] != 0xff || (uint8_t)f[1] != 0xd8) return "start";
		if ((uint8_t)f[f.size() - 2] != 0xff || (uint8_t)f[f.size() - 1] != 0xd9) return "end missing";
		return nullptr;
	}
	if (r.w != p.w || r.h != p.h) return "dimensions";
	int n = k == BMP ? (p.n == 4 ? 4 : 3) : p.n;
	if (r.n != n) return "channels";
	if (r.d != as_n(p, n)) return "pixels";
	return nullptr;
}
static void io_faults() {
	if (choose(ST_CFG, 2)) fs::stream_buffer = 1 + choose(ST_CFG, 60);
	fs::faults.short_io = choose(ST_CFG, 2);
	switch (choose(ST_CFG, 4)) {
		case 0: break;
		case 1: fs::faults.fail_nth_syscall = fs::syscalls() + 1 + choose(ST_CFG, 30); break;
		case 2: fs::faults.capacity = choose(ST_CFG, 4000); break;
		default: {
			static const FaultKind ks[] = { F_WRITE_EIO, F_WRITE_ENOSPC, F_FLUSH, F_CLOSE, F_OPEN, F_READ_EIO, F_SEEK, F_RENAME };
			for (FaultKind k : ks) {
				if (choose(ST_CFG, 2)) fs::faults.rate[k] = 10 + choose(ST_CFG, 300);
			}
		}
	}
}
struct State {
	std::string d;
	int w, h;
	Image::Format f;
	bool m;
	bool operator==(const State &o) const { return d == o.d && w == o.w && h == o.h && f == o.f && m == o.m; }
};
static State state_of(const Ref<Image> &im) { return State{ bytes_of(im), im->get_width(), im->get_height(), im->get_format(), im->has_mipmaps() }; }
static void consistent(const Ref<Image> &im) {
	if (im->get_width() == 0 && im->get_data_size() == 0) return;
	int want = im->get_width() * im->get_height() * Image::get_format_pixel_size(im->get_format());
	SIM_CHECK(im->has_mipmaps() || im->get_data_size() == want, "size", "an image of %dx%d holds %d bytes, expected %d", im->get_width(), im->get_height(), im->get_data_size(), want);
}
static size_t errors() { return lib_errors(); }
// Save images over each other, check the disk after every call.
static void saves() {
	fs::mkdirs("/w/d");
	bool backup = choose(ST_CFG, 3) == 0;
	FileAccess::set_backup_save(backup);
	FileAccess::set_file_close_fail_notify_callback(nullptr);
	if (choose(ST_CFG, 3)) io_faults();
	int n = 1 + choose(ST_CFG, 5);
	for (int i = 0; i < n; i++) {
		Px p = some_pixels();
		Ref<Image> im = image_of(p);
		Kind k = (Kind)wchoose(4);
		if (k == BMP && p.n == 2) k = PNG;
		std::string path = std::string(wchoose(12) ? "/w/d/" : "/w/none/") + (wchoose(2) ? "a." : "b.") + kname[k];
		uint64_t fired = fs::fired();
		State before = state_of(im);
		Error e = save(im, k, String::utf8(path.c_str()));
		ev("save %s %dx%dx%d %s gives %d", kname[k], p.w, p.h, p.n, path.c_str(), (int)e);
		SIM_CHECK(state_of(im) == before, "source", "saving changed the image");
		SIM_CHECK(fs::open_handles() == 0, "handles", "after a save is over, open: %s", fs::open_desc().c_str());
		std::string f;
		bool there = fs::get(path, &f);
		if (e == OK) {
			SIM_CHECK(there, "incomplete", "a save reported success and there is no file");
			const char *bad = wrong_file(k, f, p);
			SIM_CHECK(!bad, "incomplete", "a %s save of %dx%d with %d channels reported success, the file (%zu bytes) is wrong: %s", kname[k], p.w, p.h, p.n, f.size(), bad);
			probe(0, "image saved");
		} else {
			SIM_CHECK(fs::fired() > fired || path.find("/none/") != std::string::npos, "error", "a %s save failed although nothing failed", kname[k]);
			probe(1, "image save reported failure");
		}
	}
}
// Float images go to .hdr only; every failure must be reported there too, and wrong formats refused.
static void saves_hdr() {
	fs::mkdirs("/w/d");
	FileAccess::set_backup_save(false);
	FileAccess::set_file_close_fail_notify_callback(nullptr);
	static const Image::Format ff[] = { Image::FORMAT_RF, Image::FORMAT_RGF, Image::FORMAT_RGBF, Image::FORMAT_RGBAF };
	std::string good;
	Px p;
	p.w = 1 + wchoose(20);
	p.h = 1 + wchoose(12);
	p.n = 1 + wchoose(4);
	Vector<uint8_t> v;
	v.resize(p.w * p.h * p.n * 4);
	float *x = (float *)v.ptrw();
	for (int i = 0; i < p.w * p.h * p.n; i++) x[i] = wchoose(1000) / 37.0f;
	Ref<Image> im;
	im.instance();
	im->create(p.w, p.h, false, ff[p.n - 1], v);
	Error e = im->save_hdr("/w/d/good.hdr");
	SIM_CHECK(e == OK && fs::get("/w/d/good.hdr", &good), "error", "an hdr save failed although nothing failed");
	io_faults();
	for (int i = 0; i < 3; i++) {
		uint64_t fired = fs::fired();
		e = im->save_hdr("/w/d/x.hdr");
		std::string f;
		bool there = fs::get("/w/d/x.hdr", &f);
		SIM_CHECK(fs::open_handles() == 0, "handles", "after an hdr save is over, open: %s", fs::open_desc().c_str());
		if (e == OK) {
			SIM_CHECK(there && f == good, "incomplete", "an hdr save reported success, the file has %zu bytes of %zu", f.size(), good.size());
		} else {
			SIM_CHECK(fs::fired() > fired, "error", "an hdr save failed although nothing failed");
		}
		size_t n0 = errors();
		fs::get("/w/d/x.hdr", &f);
		Kind k = (Kind)wchoose(4);
		Error e2 = save(im, k, "/w/d/x.hdr"); // 8-bit writers refuse float images
		std::string g;
		bool t2 = fs::get("/w/d/x.hdr", &g);
		SIM_CHECK(e2 != OK && errors() > n0 && there == t2 && f == g, "refuse", "a float image was accepted for %s", kname[k]);
	}
}
// Files made by the oracle or by the library, damaged or whole, loaded over an image that already holds something.
static void loads() {
	fs::mkdirs("/w/d");
	FileAccess::set_backup_save(false);
	FileAccess::set_file_close_fail_notify_callback(nullptr);
	int n = 1 + choose(ST_CFG, 3);
	bool faults = choose(ST_CFG, 2);
	struct F {
		std::string path;
		Px p;
		Kind k;
	};
	std::vector<F> files;
	for (int i = 0; i < n; i++) {
		F f;
		f.p = some_pixels();
		f.k = (Kind)wchoose(3);
		if (f.k == BMP && f.p.n == 2) f.k = TGA;
		f.path = "/w/d/" + std::to_string(i) + "." + kname[f.k];
		Error e = save(image_of(f.p), f.k, String::utf8(f.path.c_str()));
		SIM_CHECK(e == OK, "error", "a %s save failed although nothing failed", kname[f.k]);
		files.push_back(f);
	}
	if (faults) io_faults();
	delete new int;
	Ref<Reference> keep(memnew(Reference));
	Px cur = some_pixels();
	Ref<Image> im;
	if (wchoose(5)) {
		im = image_of(cur);
	} else {
		im.instance();
	}
	for (int i = 0; i < 2 + (int)wchoose(4); i++) {
		State before = state_of(im);
		size_t n0 = errors();
		uint64_t fired = fs::fired();
		uint32_t how = wchoose(8);
		F &f = files[wchoose(files.size())];
		std::string path = f.path, orig, b;
		fs::get(f.path, &orig);
		bool must_fail = false, may_fail = false;
		if (how == 0) {
			path = "/w/d/missing";
			must_fail = true;
		} else if (how == 1) {
			path = "/w/d/garbage";
			b = std::string(1 + wchoose(60), (char)('A' + wchoose(20))); // a first byte > 1 can be no TGA, and nothing else starts so
			if (wchoose(3) == 0) b = "";
			fs::put(path, b);
			must_fail = true;
		} else if (how == 2 && f.k == PNG) {
			path = "/w/d/cut";
			size_t keepn = wchoose(orig.size());
			// the decoder needs all pixel data; what comes after it is not needed
			b = orig.substr(0, keepn);
			fs::put(path, b);
			must_fail = keepn < orig.size() - 12 - 4 - 4; // into the compressed data
			may_fail = true;
		} else if (how == 3) {
			path = "/w/d/damaged";
			b = orig;
			int flips = 1 + wchoose(3);
			for (int q = 0; q < flips; q++) {
				size_t at = wchoose(b.size());
				// the dimensions stay as they are, so a damaged file asks for no absurd amount of memory
				bool dims = f.k == PNG ? at >= 16 && at < 24 : f.k == TGA ? at >= 12 && at < 16 : at >= 18 && at < 26;
				if (!dims) b[at] = (char)bits(ST_W0 + self());
			}
			fs::put(path, b);
			may_fail = true;
		} else if (how == 4) {
			path = "/w/d"; // a directory
			must_fail = true;
		}
		int want_n = wchoose(3) ? 4 : 1 + wchoose(4);
		// conversions to fewer colours are covered by the pixel checks only where they lose nothing
		if (f.p.n >= 3 && want_n < 3) want_n = 4;
		im->load_from_file(String::utf8(path.c_str()), fmt_of(want_n));
		bool logged = errors() > n0;
		State after = state_of(im);
		consistent(im);
		ev("load %s gives %dx%d logged %d", path.c_str(), after.w, after.h, logged);
		SIM_CHECK(fs::open_handles() == 0, "handles", "after a load, open: %s", fs::open_desc().c_str());
		bool failed_io = fs::fired() > fired;
		std::string full = as_n(f.p, want_n == 2 ? 2 : want_n);
		bool loaded = after.w == f.p.w && after.h == f.p.h && after.f == fmt_of(want_n) && after.d == full && !after.m;
		if (logged) {
			SIM_CHECK(after == before, "changed", "a load that failed changed the image");
			SIM_CHECK(must_fail || may_fail || failed_io, "unloadable", "a whole %s file with %d channels was not loaded", kname[f.k], f.p.n);
			probe(2, "load refused, image kept");
		} else {
			SIM_CHECK(!must_fail, "unreported", "loading %s reported nothing", path.c_str());
			SIM_CHECK(may_fail || loaded, "pixels", "loading a %s file of %dx%d with %d channels as %d gives other pixels (%dx%d, %zu bytes)", kname[f.k], f.p.w, f.p.h, f.p.n, want_n, after.w, after.h, after.d.size());
			probe(3, "load restored the pixels");
		}
	}
}
// Every load and save gives back the memory it took.
static void memory() {
	fs::mkdirs("/w/d");
	FileAccess::set_backup_save(false);
	FileAccess::set_file_close_fail_notify_callback(nullptr);
	delete new int;
	Ref<Reference> keep(memnew(Reference));
	Px p = some_pixels();
	Kind k = (Kind)wchoose(3);
	if (k == BMP && p.n == 2) k = PNG;
	bool faults = choose(ST_CFG, 2);
	bool good = wchoose(3) != 0;
	std::string path = std::string("/w/d/m.") + kname[k];
	auto round = [&] {
		{
			Ref<Image> im = image_of(p);
			save(im, k, String::utf8(path.c_str()));
			if (!good) {
				std::string b;
				fs::get(path, &b);
				fs::put(path, b.substr(0, b.size() / 2));
			}
			Ref<Image> im2;
			im2.instance();
			im2->load_from_file(String::utf8(path.c_str()));
		}
		return heap_live_since(0);
	};
	round();
	auto a = round();
	if (faults) io_faults();
	round();
	auto b = round();
	SIM_CHECK(a == b, "leak", "saving and loading a %s left more memory behind", kname[k]);
}
} // namespace
SCENARIO(I01, saves, 3) { saves(); }
SCENARIO(I01, float_saves, 1) { saves_hdr(); }
SCENARIO(I01, loads, 3) { loads(); }
SCENARIO(I01, memory, 1) { memory(); }
