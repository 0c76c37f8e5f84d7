// C28: included bitmaps
#include "h.h"
#define MAXW 70
#define MAXH 12
static int W, H, S, MINW, MSK, FIRST, INV;
static u8 shd[MAXH][MAXW], msk[MAXH][MAXW];    // of each pixel, top row first
static B src, img, e;
static int lg(int s) { int n = 0; while (s > 1) { s >>= 1; n++; } return n; }
// the shade of a color in exact arithmetic: the darkest is S-1; -1 on a boundary between two shades
static int shade(int R, int G, int Bl, int s) {
	int t = 2524500 - (2126 * R + 7152 * G + 722 * Bl);
	if (t <= 0) return 0;
	u64 p = (u64) t * (u32) s; if (p >= 2550000 && p % 2550000 == 0) return -1;
	return (int) (p / 2550000);
}
static void le(B *b, u32 v, int k) { while (k--) { b_c(b, v & 255); v >>= 8; } }
// the headers; nc is the palette size, clr the value of biClrUsed
static void headers(int w, int h, int bits, int nc, int clr) {
	int scan = (w * bits + 31) / 32 * 4;
	img = mk(); b_s(&img, "BM"); le(&img, 54 + 4 * nc + scan * h, 4); le(&img, 0, 4); le(&img, 54 + 4 * nc, 4);
	le(&img, 40, 4); le(&img, w, 4); le(&img, h, 4); le(&img, 1, 2); le(&img, bits, 2); le(&img, 0, 4); le(&img, scan * h, 4);
	le(&img, 2835, 4); le(&img, 2835, 4); le(&img, clr, 4); le(&img, 0, 4);
}
static void pal(int r, int g, int b, int x) { b_c(&img, b); b_c(&img, g); b_c(&img, r); b_c(&img, x); }
static void padrow(int w, int bits) { int n = (w * bits + 7) / 8; while (n % 4) { b_c(&img, 0xA5); n++; } }
// what one part of the image emits: layers from the most significant bit of the shade down, and the mask
static void part(int x0, int y0, int w, int h, int cols) {
	cols = (cols + 7) / 8 * 8;
	for (int k = 0; k < 2; k++)
		if (k == FIRST) {
			for (int l = lg(S) - 1; l >= 0; l--)
				for (int y = 0; y < h; y++)
					for (int x = 0; x < cols; x += 8) {
						u8 v = 0;
						for (int i = 0; i < 8; i++) if (x + i < w && x0 + x + i < W) v |= (u8) ((shd[y0 + y][x0 + x + i] >> l & 1) << (7 - i));
						b_c(&e, v);
					}
		} else if (MSK) {
			for (int y = 0; y < h; y++)
				for (int x = 0; x < cols; x += 8) {
					u8 v = 0;
					for (int i = 0; i < 8; i++) v |= (u8) ((x + i < w && x0 + x + i < W ? msk[y0 + y][x0 + x + i] : 1) << (7 - i));
					b_c(&e, MSK == 2 ? (u8) ~v : v);
				}
		}
}
static void whole(int x0, int y0, int w, int h) {
	if (MINW <= 0) part(x0, y0, w, h, w);
	else if (w <= MINW) part(x0, y0, w, h, MINW);
	else for (int x = 0; x < w; x += MINW) part(x0 + x, y0, w - x < MINW ? w - x : MINW, h, MINW);
}
static void bytes(int w, int h, int *n) { int row = MINW <= 0 ? (w + 7) / 8 : (w + MINW - 1) / MINW * ((MINW + 7) / 8); *n = row * h * (lg(S) + (MSK != 0)); }
static void def(const char *n, const char *v) { b_s(&src, "#define "); b_s(&src, n); b_s(&src, " "); b_s(&src, v); b_s(&src, "\n"); }
static void defn(const char *n, int v) { b_s(&src, "#define "); b_s(&src, n); b_s(&src, " "); b_i(&src, v); b_s(&src, "\n"); }
static void setup(int w, int h, int s) {
	W = w; H = h; S = s; MINW = -1; MSK = FIRST = INV = 0; src = mk(); e = mk();
	for (int y = 0; y < MAXH; y++) for (int x = 0; x < MAXW; x++) shd[y][x] = msk[y][x] = 0;
	if (s != 2) defn("__BM_SHD", s);
}
static void opts(int m, int first, int minw) {
	MSK = m; FIRST = first; MINW = minw;
	if (m) def("__BM_MSK", "1"); if (m == 2) def("__BM_MSK_INV", "1"); if (first) def("__BM_MSK_1ST", "1"); if (minw > 0) defn("__BM_MIN_W", minw);
}
static void inc(void) { b_s(&src, " #include \"b.bmp\"\n"); vp_file("b.bmp", img.b, img.n); }
// a concrete palette: entry i of n, deterministic and off the boundaries of all shades
static u8 PR[256], PG[256], PB[256];
static int okc(int r, int g, int b) { for (int s = 2; s <= 256; s *= 2) if (shade(r, g, b, s) < 0) return 0; return 1; }
static void palette(int n, int grey) {
	for (int i = 0; i < n; i++) {
		if (n == 2 && grey) { PR[i] = PG[i] = PB[i] = i ? 255 : 0; }
		else if (grey) { int v = n > 1 ? i * 255 / (n - 1) : 0; while (!okc(v, v, v)) v--; PR[i] = PG[i] = PB[i] = v; }
		else { int r = i * 73 + 19, g = i * 151 + 3, b = i * 37 + 200; while (!okc(r & 255, g & 255, b & 255)) b++; PR[i] = r; PG[i] = g; PB[i] = b; }
	}
}
// pixel (x, y counted from the top) of an indexed row has the value v
static u8 raw[MAXH][MAXW * 4];
static void put(int x, int y, int bits, u8 v) { int b = x * bits; raw[y][b / 8] = (u8) (raw[y][b / 8] | v << (8 - bits - b % 8)); }
static void rows(int w, int h, int bits) { for (int y = h - 1; y >= 0; y--) { b_mem(&img, raw[y], (w * bits + 7) / 8); padrow(w, bits); } }
static void clr(void) { for (int y = 0; y < MAXH; y++) for (int i = 0; i < MAXW * 4; i++) raw[y][i] = 0; }
static int std(const char *what) { same(&e, what); vp_reach(what); return 0; }
static void fin(const char *what) { int r = asm0(&src); vp_assert(r == 0, "exit status 0"); same(&e, what); vp_reach(what); }
void harness(void) {
	int g = vp_choose(9), T = vp_tier();
	if (g == 0) {             // black and white, every bit of every row symbolic, scan line padding too
		static const int ws[] = { 1, 8, 9, 17, 32, 33, 2, 7, 10, 15, 16, 23, 24, 25, 31, 34, 40, 63, 64, 65 };
		int w = ws[vp_choose(T ? 20 : 6)], h = vp_choose(T ? 6 : 3) + 1, rev = vp_choose(2), c0 = vp_choose(2); if (!T && (w + h + rev + c0) % 2) return;
		vp_go(); vp_label("black and white"); setup(w, h, 2); headers(w, h, 1, 2, c0 ? 0 : 2);
		u8 z = vp_any("z"); if (rev) { pal(255, 255, 255, z); pal(0, 0, 0, 0); } else { pal(0, 0, 0, 0); pal(255, 255, 255, z); }
		int n = (w + 31) / 32 * 4, k = 0;
		for (int y = h - 1; y >= 0; y--)
			for (int i = 0; i < n; i++) {
				u8 v = i <= w / 8 && k < 24 ? vp_any(vp_name("p", k++)) : (u8) (i * 29 + y);
				b_c(&img, v);
				for (int j = 0; j < 8; j++) if (i * 8 + j < w) shd[y][i * 8 + j] = (u8) ((v >> (7 - j) & 1) ^ !rev);
			}
		inc(); b_s(&src, " .db $5A\n"); whole(0, 0, w, h); b_c(&e, 0x5A); fin("black and white");
	} else if (g == 1) {      // palettes of 1, 4 and 8 bits, all shades
		static const int bs[] = { 1, 4, 8 };
		int bits = bs[vp_choose(3)], ls = vp_choose(9), kind = vp_choose(T ? 12 : 4); if (!T && (ls + kind) % 3 && ls) return;
		vp_go(); vp_label("palette"); int full = 1 << bits, nc = kind % 4 == 2 ? (full + 1) / 2 : kind % 4 == 3 ? full - 1 : full; if (nc < 1) nc = 1;
		int w = 5 + kind, h = 1 + kind % 2; setup(w, h, 1 << ls); if (ls == 0) opts(1, 0, -1); headers(w, h, bits, nc, kind % 4 == 1 ? 0 : nc); palette(nc, kind / 4 != 1 && kind % 2 == 0);
		for (int i = 0; i < nc; i++) pal(PR[i], PG[i], PB[i], i);
		u8 *t = (u8 *) vp_alloc(256); for (int i = 0; i < 256; i++) t[i] = i < nc ? shade(PR[i], PG[i], PB[i], S) : shade(0, 0, 0, S);
		clr(); int k = 0, per = 8 / bits;
		for (int y = 0; y < h; y++) for (int x = 0; x < w; x += per) {
			u8 v = k < 6 && (x == 0 || x + per >= w || k % 2 == 0) ? vp_any(vp_name("p", k)) : (u8) (k * 61 + 5); k++;
			for (int j = 0; j < per && x + j < w; j++) { u8 ix = (u8) (v >> (8 - bits - j * bits) & (full - 1)); put(x + j, y, bits, ix); shd[y][x + j] = t[ix]; }
		}
		rows(w, h, bits); inc(); whole(0, 0, w, h); fin("palette");
	} else if (g == 2) {      // true color: one channel of a pixel and of the pixel next to it over all values
		static const int bs[] = { 16, 24, 32 }; static const u8 ov[] = { 0, 255, 128, 37, 200, 90, 31, 8 };
		int bits = bs[vp_choose(3)], ls = vp_choose(8) + 1, ch = vp_choose(3), o = vp_choose(T ? 8 : 3), pp = vp_choose(T ? 2 : 1), nc = vp_choose(2); if (!T && (ls + ch + o + bits / 8 + nc) % 2) return;
		vp_go(); vp_label("true color"); int w = 3 + o % 4, h = 2; setup(w, h, 1 << ls);
		headers(w, h, bits, nc * 3, nc * 3); for (int i = 0; i < 3 * nc; i++) pal(9, 9, 9, 9);
		clr(); int sx = pp ? w - 1 : o % w, sy = pp ^ (ch & 1);
		for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
			int c[3], sym = x == sx && y == sy; for (int j = 0; j < 3; j++) c[j] = ov[(o + j + x * 3 + y) % 8];
			if (sym) c[0] = c[1] = c[2] = ov[o]; if (sym) { c[(ch + 1) % 3] = ov[(o + ch) % 8]; }
			if (bits == 16) {
				u8 *t = (u8 *) vp_alloc(32), *bd = (u8 *) vp_alloc(32), v = 0; u16 d = 0;
				for (int j = 0; j < 3; j++) if (!(sym && j == ch)) d |= (c[j] >> 3) << (10 - 5 * j);
				if (sym) { static const u8 five[32] = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31}; v = vp_byte("c", five, 32); }
				for (int q = 0; q < 32; q++) { int m[3]; for (int j = 0; j < 3; j++) m[j] = (sym && j == ch ? q : c[j] >> 3) * 255 / 31; int s = shade(m[0], m[1], m[2], S); t[q] = s; bd[q] = s < 0; }
				vp_assume(!bd[v]); shd[y][x] = t[v]; if (sym) d |= (u16) (v << (10 - 5 * ch));
				raw[y][2 * x] = (u8) d; raw[y][2 * x + 1] = (u8) (d >> 8 | (x & 1) << 7);
			} else {
				u8 *t = (u8 *) vp_alloc(256), *bd = (u8 *) vp_alloc(256), v = sym ? vp_any("c") : (u8) c[ch]; int k = bits / 8;
				for (int q = 0; q < 256; q++) { int s = shade(ch == 0 ? q : c[0], ch == 1 ? q : c[1], ch == 2 ? q : c[2], S); t[q] = s; bd[q] = s < 0; }
				vp_assume(!bd[v]); shd[y][x] = t[v];
				for (int j = 0; j < 3; j++) raw[y][k * x + 2 - j] = j == ch ? v : (u8) c[j]; if (k == 4) raw[y][k * x + 3] = (u8) (x * 50 + 7);
			}
		}
		rows(w, h, bits); inc(); whole(0, 0, w, h); fin("true color");
	} else if (g == 3) {      // masks and inverted pixels
		int bits = vp_choose(2) ? 8 : 24, m = vp_choose(3), first = vp_choose(2), ls = vp_choose(3), inv = vp_choose(2), mw = vp_choose(3); if (!T && (bits / 8 + m + first + ls + inv + mw) % 3) return;
		vp_go(); vp_label("mask"); int w = 11, h = 2; setup(w, h, 1 << ls); opts(m, first, mw == 0 ? -1 : mw == 1 ? 20 : 4);
		int mc = 3, vc = 1; palette(5, 0); PR[mc] = 0x12; PG[mc] = 0xFE; PB[mc] = 0x34;
		b_s(&src, bits == 8 ? "#define __BM_MSK_RGB RGB($12,$FE,$34)\n" : "#define __BM_MSK_RGB $12FE34\n");
		if (inv) { b_s(&src, "#define __BM_INV_RGB RGB("); b_u(&src, PR[vc]); b_s(&src, ","); b_u(&src, PG[vc]); b_s(&src, ","); b_u(&src, PB[vc]); b_s(&src, ")\n"); }
		headers(w, h, bits, bits == 8 ? 5 : 0, bits == 8 ? 5 : 0); clr(); int k = 0;
		if (bits == 8) for (int i = 0; i < 5; i++) pal(PR[i], PG[i], PB[i], i == 3 ? vp_any("z") : 0);
		for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
			int c = (x * 3 + y) % 5, sym = k < 3 && (x == 0 || x == w - 1 || x == 7); u8 v = (u8) c, s[5], mm[5]; 
			if (bits == 8) { if (sym) { static const u8 five[5] = { 0, 1, 2, 3, 4 }; v = vp_byte(vp_name("p", k++), five, 5); }
				for (int i = 0; i < 5; i++) { s[i] = inv && i == vc ? S - 1 : shade(PR[i], PG[i], PB[i], S); mm[i] = (inv && i == vc) || i == mc; }
				raw[y][x] = v; shd[y][x] = s[v]; msk[y][x] = mm[v];
			} else {
				u8 cc[3] = { PR[c], PG[c], PB[c] }; int ch = k; u8 t[256], m2[256]; if (sym) { c = x == 7 ? vc : mc; cc[0] = PR[c]; cc[1] = PG[c]; cc[2] = PB[c]; v = vp_any(vp_name("p", k++)); }
				u8 o[3] = { cc[0], cc[1], cc[2] }, bd[256];
				if (sym) { for (int q = 0; q < 256; q++) { o[ch] = (u8) q; int is = inv && o[0] == PR[vc] && o[1] == PG[vc] && o[2] == PB[vc]; int sh = shade(o[0], o[1], o[2], S); t[q] = is ? S - 1 : sh; bd[q] = !is && sh < 0; m2[q] = is || (o[0] == PR[mc] && o[1] == PG[mc] && o[2] == PB[mc]); }
					vp_assume(!bd[v]); shd[y][x] = t[v]; msk[y][x] = m2[v]; for (int j = 0; j < 3; j++) raw[y][3 * x + 2 - j] = j == ch ? v : cc[j]; }
				else { int is = inv && c == vc; shd[y][x] = is ? S - 1 : shade(cc[0], cc[1], cc[2], S); msk[y][x] = is || c == mc; for (int j = 0; j < 3; j++) raw[y][3 * x + 2 - j] = cc[j]; }
			}
		}
		rows(w, h, bits); inc(); whole(0, 0, w, h); fin("mask");
	} else if (g == 4) {      // header formats
		static const char *const tk[] = { "w", "h", "ww", "hh", "b", "s", "ss" }; static const int ws[] = { 9, 300, 255, 256 };
		int f = vp_choose(7), f2 = vp_choose(7), d = vp_choose(T ? 4 : 2), ls = vp_choose(4) + (vp_choose(2) ? 4 : 0), m = vp_choose(2), mw = vp_choose(2); if ((f + f2 * 3 + d + ls + m * 2 + mw) % (T ? 3 : 11)) return;
		vp_go(); vp_label("header of the image"); int big = d > 0, w = big ? 9 : ws[0], h = big ? 3 : 2; if (big && f2 % 2) { w = 2; h = 12; }
		setup(w, h, 1 << ls); opts(m, 0, mw ? (f % 2 ? 4 : 17) : -1); def("__BM_HDR", "1");
		b_s(&src, "#define __BM_HDR_FMT "); b_s(&src, tk[f]); b_s(&src, f % 3 == 0 ? "," : f % 3 == 1 ? ", " : "x"); b_s(&src, tk[f2]); b_s(&src, "\n");
		headers(w, h, 1, 2, 2); pal(0, 0, 0, 0); pal(255, 255, 255, 0);
		clr(); u8 v = vp_any("p"); raw[0][0] = v; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { shd[y][x] = (u8) ((raw[y][x / 8] >> (7 - x % 8) & 1) ? 0 : shade(0, 0, 0, S)); }
		rows(w, h, 1); inc(); int n, over = 0; bytes(w, h, &n);
		for (int i = 0; i < 2; i++) switch (i ? f2 : f) {
			case 0: b_c(&e, w); break; case 1: b_c(&e, h); break; case 2: le(&e, w, 2); break; case 3: le(&e, h, 2); break;
			case 4: b_c(&e, S); break; case 5: b_c(&e, n); over |= n > 255; break; case 6: le(&e, n, 2); break;
		}
		whole(0, 0, w, h); int r = asm0(&src); vp_assert(r == over, "exit status, a size that doesn't fit warned of"); vp_assert(over == (vp_said("overflows") > 0), "warning"); std("header of the image");
	} else if (g == 5) {      // labels and image maps
		int cx = vp_choose(4), cy = vp_choose(4), pd = vp_choose(3), cnt = vp_choose(4), mw = vp_choose(2), lab = vp_choose(2); if (!cx && !cy) { if (cnt) return; } if ((cx + cy * 2 + pd + cnt + mw + lab) % (T ? 2 : 5)) return;
		vp_go(); vp_label("image map and labels"); int nx = cx ? cx : 1, ny = cy ? cy : 1, tw = 5 + cx, th = 1 + (cy & 1), pad = pd == 2 ? 2 : pd, w = nx * (tw + 2 * pad), h = ny * (th + 2 * pad); if (h > MAXH) { th = 1; pad = pad > 1 ? 1 : pad; w = nx * (tw + 2 * pad); h = ny * (th + 2 * pad); }
		int map = cx || cy; if (!map) pad = 0;
		setup(w, h, 2); opts(0, 0, mw ? 3 : -1); if (pd) defn("__BM_PAD", pad);
		if (map) { b_s(&src, "#define __BM_MAP "); b_u(&src, cx); b_s(&src, cnt == 1 ? "x" : ","); b_u(&src, cy); if (cnt) { b_s(&src, ","); b_u(&src, cnt == 3 ? 90 : cnt); } b_s(&src, "\n"); }
		headers(w, h, 1, 2, 2); pal(0, 0, 0, 0); pal(255, 255, 255, 0); clr(); u8 v = vp_any("p"), v2 = vp_any("q");
		for (int y = 0; y < h; y++) for (int x = 0; x < (w + 7) / 8; x++) raw[y][x] = y == h / 2 && x == 0 ? v : y == 0 && x == (w - 1) / 8 ? v2 : (u8) (y * 77 + x * 31 + 9);
		for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) shd[y][x] = (u8) (!(raw[y][x / 8] >> (7 - x % 8) & 1));
		rows(w, h, 1); b_s(&src, " .org $4000\n .db 1\n"); b_c(&e, 1); if (lab) b_s(&src, "pic:"); inc();
		int at[20], n = 0;
		if (!map) whole(0, 0, w, h);
		else for (int x = 0; x < nx; x++) for (int y = 0; y < ny; y++) {     // columns left to right, each from the top
			if (cnt && n >= (cnt == 3 ? 90 : cnt)) break;
			at[n++] = 0x4000 + e.n; whole(x * (tw + 2 * pad) + pad, y * (th + 2 * pad) + pad, tw, th);
		}
		if (lab) {
			b_s(&src, " .dw pic,pic_WIDTH,pic_HEIGHT\n"); e_w(&e, 0x4001); e_w(&e, map ? tw : w); e_w(&e, map ? th : h);
			if (map) { b_s(&src, " .dw pic_COUNT"); e_w(&e, n); for (int i = 0; i < n; i++) { b_s(&src, ",pic"); b_u(&src, i + 1); e_w(&e, at[i]); } b_s(&src, "\n"); }
		}
		fin("image map and labels");
	} else if (g == 6) {      // one byte of the headers replaced by any value, or the file cut off
		int bi = vp_choose(3), pos = vp_choose(54 + 1), two = vp_choose(2); if (two && pos % 2) return; static const int bs[] = { 1, 8, 24 };
		vp_go(); vp_label("malformed header"); int bits = bs[bi], w = 5, h = 2, nc = bits == 8 ? 3 : bits == 1 ? 2 : 0;
		setup(w, h, 2); headers(w, h, bits, nc, nc); for (int i = 0; i < nc; i++) pal(i == 1 ? 255 : 0, i == 1 ? 255 : 0, i == 1 ? 255 : 0, 0);
		for (int y = h - 1; y >= 0; y--) { for (int x = 0; x < (w * bits + 7) / 8; x++) b_c(&img, bits == 1 ? 0x50 + y : bits == 8 ? (x + y) % 3 : x * 40); padrow(w, bits); }
		if (pos < 54) { img.b[pos] = vp_any("h"); if (two) img.b[pos + 1] = vp_any("i"); }
		else img.b[10 + two * 18] = vp_any("h");
		u8 *p = img.b; int n = img.n; inc(); b_s(&src, " .db 1\n"); int r = asm0(&src);
		#define D(o) (p[o] | p[o + 1] << 8 | p[o + 2] << 16 | (u32) p[o + 3] << 24)
		if (p[0] != 'B' || p[1] != 'M' || p[6] || p[7] || p[8] || p[9]) { vp_assert(r <= 3, "not a bitmap: assembled as a text"); vp_reach("malformed header"); return; }
		int fw = D(18), fh = D(22), bc = p[28] | p[29] << 8; u32 cu = D(46), off = D(10); int ok = 1;
		if (D(14) != 40 || D(30) != 0) ok = 0;
		else if (bc != 1 && bc != 4 && bc != 8 && bc != 16 && bc != 24 && bc != 32) ok = 0;
		else if (fw <= 0 || fh <= 0 || fw > 32767 || fh > 32767) ok = 0;
		else { if (cu == 0 && bc < 16) cu = 1 << bc; if (bc < 16 && cu > 1u << bc) ok = 0; u64 po = 54 + 4 * (u64) cu; if (ok && (off != po || po + ((u64) fw * bc + 31) / 32 * 4 * fh > n)) ok = 0; }
		u8 *o; int on = vp_out("a.bin", &o);
		if (!ok) { vp_assert(r == 2 && vp_said("error:") == 1, "a malformed bitmap is diagnosed"); vp_assert(on == 1 && o[0] == 1, "and emits nothing"); }
		else { vp_assert(r == 0, "a valid bitmap is accepted"); vp_assert(on == 1 + (fw + 7) / 8 * fh, "and emits its rows"); }
		vp_reach("malformed header");
	} else if (g == 7) {      // the file cut off at every length, palettes larger than the file
		int bi = vp_choose(3), cut = vp_choose(200); static const int bs[] = { 1, 4, 24 };
		int bits = bs[bi], w = 9, h = 3, nc = bits == 1 ? 2 : bits == 4 ? 16 : 0; setup(w, h, 2); headers(w, h, bits, nc, nc); for (int i = 0; i < nc; i++) pal(i, i, i, 0);
		int scan = (w * bits + 31) / 32 * 4; if (cut >= 54 + 4 * nc + scan * h || (!T && cut % 5 && cut > 16 && cut % 54 && (cut - 54) % (4 * nc + 1))) return;
		vp_go(); vp_label("file cut off"); for (int i = 0; i < scan * h; i++) b_c(&img, i < 3 ? vp_any(vp_name("p", i)) : i);
		img.n = cut; inc(); b_s(&src, " .db 1\n"); int r = asm0(&src);
		if (cut >= 14) { vp_assert(r == 2 && vp_said("error:") == 1, "a truncated bitmap is diagnosed"); u8 *o; int on = vp_out("a.bin", &o); vp_assert(on == 1 && o[0] == 1, "and emits nothing"); }
		vp_reach("file cut off");
	} else {                  // settings without a meaning
		static const char *const st[] = { "__BM_SHD", "__BM_MIN_W", "__BM_MAP", "__BM_PAD", "__BM_HDR_FMT", "__BM_MSK_RGB", "__BM_INV_RGB", "__BM_MSK", "__BM_HDR" };
		int k = vp_choose(9), f = vp_choose(6), pre = vp_choose(3);
		vp_go(); vp_label("settings"); int w = 6, h = 2; setup(w, h, 2); if (pre == 1 || k == 3) def("__BM_MAP", "2,1"); if (pre == 2 || k == 4) def("__BM_HDR", "1"); if (pre == 2) def("__BM_HDR_FMT", "s,w");
		b_s(&src, "#define "); b_s(&src, st[k]);
		switch (f) {
		case 0: break;
		case 1: b_s(&src, " "); if (k == 1) b_c(&src, '0' + vp_concrete(vp_byte("a", vp_nib, T ? 4 : 2))); else b_c(&src, vp_byte("a", vp_HEX, 10)); b_c(&src, vp_byte("b", vp_HEX, 10)); break;
		case 2: b_s(&src, " -"); b_c(&src, vp_byte("a", vp_HEX, 10)); break;
		case 3: b_s(&src, " "); b_h(&src, "h", 4); break;
		case 4: b_s(&src, "(x)"); break;
		case 5: b_s(&src, " "); b_c(&src, vp_byte("a", "w2s,x; b$", 9)); b_c(&src, vp_byte("b", "w2s,x; b$", 9)); break;
		}
		b_s(&src, "\n"); headers(w, h, 8, 3, 3); for (int i = 0; i < 3; i++) pal(i * 100, i * 80, i, 0);
		for (int y = h - 1; y >= 0; y--) { for (int x = 0; x < w; x++) b_c(&img, (x + y) % 3); padrow(w, 8); }
		if (f == 3 && k == 1) return;     // rows of up to 32767 columns
		b_s(&src, "l:"); inc(); int r = asm0(&src); vp_assert(r <= 3, "exit status"); vp_reach("settings");
	}
}
