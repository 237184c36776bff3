// C20: loading JPEG and PNG files through a simulated disk: short reads, read errors, truncation, corruption, failing opens
// and exhausted memory.  The pictures are made with libjpeg/libpng; the expected pixels come from decoding the same bytes in the harness.
#include "core.h"
#include "files.h"
#include <csetjmp>
#include <cstring>
#include <cstdlib>
#include <memory>
#include <jpeglib.h>
#include <jerror.h>
#include <png.h>
#include "benchmark_common.h"
extern "C" boolean __real_jpeg_finish_decompress(j_decompress_ptr d);
extern "C" boolean __wrap_jpeg_finish_decompress(j_decompress_ptr d) {
    // known defect: the loader closes the file before it lets the decoder finish; whatever happens to the file from here on follows from that
    if (hx::tl_sut > 0 && hx::fs::open_now() == 0 && hx::known("jpeg-closed-before-finish", false)) hx::fs::tolerate_late(true);
    return __real_jpeg_finish_decompress(d);
}
extern "C++" __attribute__((weak)) int check_if_png(const char *filename);

namespace hx {
namespace files {
typedef std::vector<unsigned char> Bytes;
struct Pic { uint32_t w = 0, h = 0; Bytes px; bool ok = false; bool damaged = false; int warnings = 0; };
enum { LIMIT = 1 << 23 };

// ------------------------------------------------------------------------------------------------ JPEG
struct JErr { jpeg_error_mgr base; jmp_buf env; bool damaged; int warnings; };
static void j_exit(j_common_ptr c) { longjmp(((JErr *)c->err)->env, 1); }
static void j_out(j_common_ptr) {}
static void j_emit(j_common_ptr c, int level) {
    if (level >= 0) return;
    JErr *e = (JErr *)c->err;
    e->warnings++;
    int m = c->err->msg_code;
    if (m == JWRN_JPEG_EOF || m == JWRN_HIT_MARKER || m == JWRN_HUFF_BAD_CODE || m == JWRN_ARITH_BAD_CODE || m == JWRN_MUST_RESYNC || m == JWRN_BOGUS_PROGRESSION) e->damaged = true;
}
static jpeg_error_mgr *j_err(JErr &e) {
    jpeg_std_error(&e.base);
    e.base.error_exit = j_exit; e.base.output_message = j_out; e.base.emit_message = j_emit;
    e.damaged = false; e.warnings = 0;
    return &e.base;
}
static unsigned char texture(int style, uint32_t x, uint32_t y, int band, uint64_t seed) {
    switch (style % 5) {
        case 0: return (unsigned char)(mix(seed, ((uint64_t)y << 20) ^ (x << 2) ^ (uint64_t)band) & 255);
        case 1: return (unsigned char)((x * 7 + y * 3 + (uint32_t)band * 40 + seed) & 255);
        case 2: return (unsigned char)(((x / 5 + y / 3) & 1) ? 230 : 20);
        case 3: return (unsigned char)(seed & 255);
        default: return (unsigned char)(x * x / 4 + y * 2 + (uint32_t)band * 17);
    }
}
// variant bits: 0-1 colour, 2 progressive, 3-4 sampling, 5 restart, 6-7 quality, 8 comment, 9 coder, 10 ends behind a block
static Bytes make_jpeg(uint32_t w, uint32_t h, int64_t v, int style, uint64_t seed) {
    static const J_COLOR_SPACE in[4] = {JCS_GRAYSCALE, JCS_RGB, JCS_RGB, JCS_CMYK};
    static const int comps[4] = {1, 3, 3, 4}, quality[4] = {90, 40, 75, 100};
    JErr e;
    jpeg_compress_struct c;
    unsigned char *mem = nullptr;
    unsigned long len = 0;
    memset(&c, 0, sizeof c);
    c.err = j_err(e);
    if (setjmp(e.env)) harness_error("JPEG encoder failed");
    jpeg_create_compress(&c);
    jpeg_mem_dest(&c, &mem, &len);
    int k = (int)(v & 3), n = comps[k];
    c.image_width = w; c.image_height = h; c.input_components = n; c.in_color_space = in[k];
    jpeg_set_defaults(&c);
    if (k == 2) jpeg_set_colorspace(&c, JCS_RGB);
    jpeg_set_quality(&c, quality[(v >> 6) & 3], TRUE);
    int s = (int)((v >> 3) & 3);
    if (n == 3) { c.comp_info[0].h_samp_factor = s & 1 ? 2 : 1; c.comp_info[0].v_samp_factor = s & 2 ? 2 : 1; }
    if (v & 4) jpeg_simple_progression(&c);
    if (v & 32) c.restart_interval = 1 + (unsigned)(seed % 5);
    if (v & 512) c.optimize_coding = TRUE;
    jpeg_start_compress(&c, TRUE);
    if (v & 256) { Bytes m(4000 + seed % 9000, 'c'); jpeg_write_marker(&c, JPEG_COM, m.data(), (unsigned)m.size()); }
    Bytes row(w * (size_t)n);
    for (uint32_t y = 0; y < h; y++) {
        for (uint32_t x = 0; x < w; x++) for (int b = 0; b < n; b++) row[x * (size_t)n + b] = texture(style, x, y, b, seed);
        JSAMPROW r = row.data();
        jpeg_write_scanlines(&c, &r, 1);
    }
    jpeg_finish_compress(&c);
    jpeg_destroy_compress(&c);
    Bytes out(mem, mem + len);
    free(mem);
    if (v & 1024) { // a comment moves the end of the picture to just behind a block of 4096 bytes
        size_t n = 4096 * (out.size() / 4096 + 1) + (size_t)(seed % 4) - out.size();
        if (n >= 4) { Bytes com(n, 'p'); com[0] = 0xFF; com[1] = JPEG_COM; com[2] = (unsigned char)((n - 2) >> 8); com[3] = (unsigned char)(n - 2); out.insert(out.begin() + 2, com.begin(), com.end()); }
    }
    return out;
}
// the decoder is fed in blocks of the size libjpeg uses for files: on damaged data its behaviour can depend on that
struct Src {
    jpeg_source_mgr base;
    const Bytes *b;
    size_t pos;
    explicit Src(const Bytes &bytes) : b(&bytes), pos(0) {
        memset(&base, 0, sizeof base);
        base.init_source = [](j_decompress_ptr) {};
        base.term_source = [](j_decompress_ptr) {};
        base.resync_to_restart = jpeg_resync_to_restart;
        base.fill_input_buffer = [](j_decompress_ptr d) -> boolean {
            Src *s = (Src *)d->src;
            static const JOCTET eoi[2] = {0xFF, JPEG_EOI};
            size_t n = s->b->size() - s->pos < 4096 ? s->b->size() - s->pos : 4096;
            if (!n) {
                if (!s->pos) ERREXIT(d, JERR_INPUT_EMPTY);
                WARNMS(d, JWRN_JPEG_EOF);
                s->base.next_input_byte = eoi; s->base.bytes_in_buffer = 2;
                return TRUE;
            }
            s->base.next_input_byte = s->b->data() + s->pos; s->base.bytes_in_buffer = n; s->pos += n;
            return TRUE;
        };
        base.skip_input_data = [](j_decompress_ptr d, long n) {
            Src *s = (Src *)d->src;
            if (n <= 0) return;
            while (n > (long)s->base.bytes_in_buffer) { n -= (long)s->base.bytes_in_buffer; (void)s->base.fill_input_buffer(d); }
            s->base.next_input_byte += n; s->base.bytes_in_buffer -= (size_t)n;
        };
    }
};
static Pic read_jpeg(const Bytes &b) {
    Pic p;
    static std::string name = "/reference";
    JErr e;
    jpeg_decompress_struct d;
    memset(&d, 0, sizeof d);
    d.err = j_err(e);
    if (setjmp(e.env) == 0) {
        jpeg_create_decompress(&d);
        Src src(b);
        d.src = &src.base;
        jpeg_read_header(&d, TRUE);
        d.out_color_space = JCS_GRAYSCALE;
        jpeg_start_decompress(&d);
        if ((uint64_t)d.output_width * d.output_height <= LIMIT) {
            p.w = d.output_width; p.h = d.output_height;
            p.px.assign((size_t)p.w * p.h, 0);
            for (uint32_t y = 0; y < p.h; y++) { JSAMPROW r = &p.px[(size_t)y * p.w]; jpeg_read_scanlines(&d, &r, 1); }
            jpeg_finish_decompress(&d);
            p.ok = true;
        }
    }
    p.damaged = e.damaged; p.warnings = e.warnings;
    jpeg_destroy_decompress(&d);
    return p;
}

// ------------------------------------------------------------------------------------------------ PNG
struct Mem { const Bytes *b; size_t pos; };
static void p_read(png_structp p, png_bytep out, png_size_t n) {
    Mem *m = (Mem *)png_get_io_ptr(p);
    if (m->b->size() - m->pos < n) png_error(p, "end of file");
    memcpy(out, m->b->data() + m->pos, n);
    m->pos += n;
}
static void p_write(png_structp p, png_bytep d, png_size_t n) { Bytes *b = (Bytes *)png_get_io_ptr(p); b->insert(b->end(), d, d + n); }
static void p_flush(png_structp) {}
static void p_err(png_structp p, png_const_charp) { longjmp(png_jmpbuf(p), 1); }
static void p_warn(png_structp p, png_const_charp) { int *n = (int *)png_get_error_ptr(p); if (n) ++*n; }
// variant: colour type (0..4), depth (3 bits), interlace, transparency, text, small chunks, gamma
struct PngKind { int type, depth; bool interlace, trns, text, chunks, gamma; };
static PngKind png_kind(int64_t v) {
    static const int T[5] = {PNG_COLOR_TYPE_GRAY, PNG_COLOR_TYPE_RGB, PNG_COLOR_TYPE_PALETTE, PNG_COLOR_TYPE_GRAY_ALPHA, PNG_COLOR_TYPE_RGB_ALPHA};
    PngKind k;
    k.type = T[(uint64_t)v % 5]; v = (int64_t)((uint64_t)v / 5);
    int d = (int)(v & 7); v >>= 3;
    static const int G[8] = {8, 1, 2, 4, 8, 16, 8, 4}, P[8] = {8, 1, 2, 4, 8, 8, 2, 4}, R[8] = {8, 8, 8, 8, 16, 16, 8, 8};
    k.depth = k.type == PNG_COLOR_TYPE_GRAY ? G[d] : k.type == PNG_COLOR_TYPE_PALETTE ? P[d] : R[d];
    k.interlace = v & 1; k.trns = v & 2; k.text = v & 4; k.chunks = v & 8; k.gamma = (v & 48) == 48;
    if (k.type & PNG_COLOR_MASK_ALPHA) k.trns = false;
    return k;
}
static Bytes make_png(uint32_t w, uint32_t h, int64_t v, int style, uint64_t seed, Bytes *gray8) {
    PngKind k = png_kind(v);
    Bytes out;
    png_structp p = png_create_write_struct(PNG_LIBPNG_VER_STRING, nullptr, p_err, p_warn);
    png_infop i = png_create_info_struct(p);
    if (setjmp(png_jmpbuf(p))) harness_error("PNG encoder failed");
    png_set_write_fn(p, &out, p_write, p_flush);
    if (k.chunks) png_set_compression_buffer_size(p, 6 + seed % 60);
    png_set_IHDR(p, i, w, h, k.depth, k.type, k.interlace ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
    int ncol = 1 << (k.depth > 8 ? 8 : k.depth);
    if (k.type == PNG_COLOR_TYPE_PALETTE) {
        std::vector<png_color> pal((size_t)ncol);
        for (int c = 0; c < ncol; c++) { pal[c].red = (png_byte)(mix(seed, c) & 255); pal[c].green = (png_byte)(mix(seed, c) >> 8); pal[c].blue = (png_byte)(mix(seed, c) >> 16); }
        png_set_PLTE(p, i, pal.data(), ncol);
    }
    if (k.trns) {
        png_byte al[4] = {0, 100, 255, 3};
        png_color_16 tc; memset(&tc, 0, sizeof tc);
        if (k.type == PNG_COLOR_TYPE_PALETTE) png_set_tRNS(p, i, al, ncol < 4 ? ncol : 4, nullptr); else png_set_tRNS(p, i, nullptr, 0, &tc);
    }
    if (k.gamma) png_set_gAMA(p, i, 1.0 / 2.2);
    static char key[] = "Comment";
    std::string txt(100 + seed % 5000, 't');
    if (k.text) { png_text t; memset(&t, 0, sizeof t); t.compression = PNG_TEXT_COMPRESSION_NONE; t.key = key; t.text = &txt[0]; png_set_text(p, i, &t, 1); }
    png_write_info(p, i);
    size_t rb = png_get_rowbytes(p, i);
    Bytes px(rb * h, 0);
    std::vector<png_bytep> rows(h);
    int ch = png_get_channels(p, i);
    for (uint32_t y = 0; y < h; y++) {
        rows[y] = px.data() + rb * y;
        for (uint32_t x = 0; x < w; x++) for (int b = 0; b < ch; b++) {
            unsigned char t = texture(style, x, y, b, seed);
            size_t n = x * (size_t)ch + b;
            if (k.depth == 8) rows[y][n] = t;
            else if (k.depth == 16) { rows[y][2 * n] = t; rows[y][2 * n + 1] = (unsigned char)(t * 3); }
            else { int per = 8 / k.depth, sh = 8 - k.depth * ((int)(n % per) + 1); rows[y][n / per] |= (unsigned char)((t >> (8 - k.depth)) << sh); }
        }
    }
    if (gray8) { gray8->clear(); if (k.type == PNG_COLOR_TYPE_GRAY && k.depth <= 8 && !k.gamma) for (uint32_t y = 0; y < h; y++) for (uint32_t x = 0; x < w; x++) { unsigned t = texture(style, x, y, 0, seed) >> (8 - k.depth); gray8->push_back((unsigned char)(t * 255 / ((1 << k.depth) - 1))); } }
    png_write_image(p, rows.data());
    png_write_end(p, i);
    png_destroy_write_struct(&p, &i);
    return out;
}
static Pic read_png(const Bytes &b) {
    Pic pic;
    int warn = 0;
    Mem m{&b, 0};
    png_structp p = png_create_read_struct(PNG_LIBPNG_VER_STRING, &warn, p_err, p_warn);
    png_infop i = png_create_info_struct(p);
    std::vector<png_bytep> *rows = new std::vector<png_bytep>();
    if (setjmp(png_jmpbuf(p)) == 0) {
        png_set_read_fn(p, &m, p_read);
        png_read_info(p, i);
        int ct = png_get_color_type(p, i), bd = png_get_bit_depth(p, i);
        bool trns = png_get_valid(p, i, PNG_INFO_tRNS) != 0;
        uint64_t w = png_get_image_width(p, i), h = png_get_image_height(p, i);
        if (w * h <= LIMIT) {
            if (ct == PNG_COLOR_TYPE_PALETTE) png_set_palette_to_rgb(p);
            if (ct == PNG_COLOR_TYPE_GRAY && bd < 8) png_set_expand_gray_1_2_4_to_8(p);
            if (trns) png_set_tRNS_to_alpha(p);
            if (bd == 16) png_set_scale_16(p);
            if (trns || (ct & PNG_COLOR_MASK_ALPHA)) png_set_strip_alpha(p);
            if (ct & PNG_COLOR_MASK_COLOR) png_set_rgb_to_gray_fixed(p, 1, -1, -1);
            png_set_interlace_handling(p);
            png_read_update_info(p, i);
            if (png_get_rowbytes(p, i) == w) {
                pic.w = (uint32_t)w; pic.h = (uint32_t)h;
                pic.px.assign(w * h, 0);
                for (uint32_t y = 0; y < h; y++) rows->push_back(pic.px.data() + y * w);
                png_read_image(p, rows->data());
                png_read_end(p, i);
                pic.ok = true;
            }
        }
    }
    pic.warnings = warn;
    delete rows;
    png_destroy_read_struct(&p, &i, nullptr);
    return pic;
}

// ------------------------------------------------------------------------------------------------ the world
using boofcv::Interleaved; using boofcv::U8;
struct World20 {
    const Plan &plan;
    int block;
    Interleaved<U8> *img[3];
    Interleaved<U8> *whole;          // what img[2] is a view of
    uint32_t vx, vy;
    Bytes before;
    int nload = 0;
    explicit World20(const Plan &p) : plan(p) {
        static const int B[6] = {4096, 1, 7, 64, 512, 1000};
        block = B[p.conf("block") % 6 < 0 ? 0 : p.conf("block") % 6];
        Sut s;
        img[0] = new Interleaved<U8>();
        img[1] = new Interleaved<U8>(5, 4, 3);
        whole = new Interleaved<U8>(1, 1, 1);
        img[2] = nullptr;
        vx = vy = 0;
    }
    void make_view(uint32_t w, uint32_t h, uint32_t x, uint32_t y, uint32_t bands) {
        Sut s;
        delete img[2]; img[2] = nullptr;
        delete whole; whole = nullptr;
        whole = new Interleaved<U8>(x + w + 2, y + h + 1, bands);
        img[2] = new Interleaved<U8>(whole->makeSubimage(x, y, x + w, y + h));
        vx = x; vy = y;
    }
    void usable(const char *after) {
        for (int i = 0; i < 3; i++) {
            if (!img[i]) continue;
            Interleaved<U8> &m = *img[i];
            if ((uint64_t)m.width * m.height * m.num_bands > LIMIT * 4ull) violation("file:image-shape", "after %s image %d reports %ux%u with %u bands", after, i, m.width, m.height, m.num_bands);
            uint64_t sum = 0;
            for (uint32_t y = 0; y < m.height; y++) for (uint32_t x = 0; x < m.width; x++) for (uint32_t b = 0; b < m.num_bands; b++) { sum += m.at(x, y, b); m.at(x, y, b) = m.at(x, y, b); }
            (void)sum;
            ev(m.width); ev(m.height); ev(m.num_bands);
        }
    }
    void load(const Op &op) {
        bool png = op.pick(0, 0, 1) == 1;
        uint32_t w = (uint32_t)op.big(1, 1, 600, png ? 66200 : 65500), h = (uint32_t)op.big(2, 1, 600, png ? 66200 : 65500);
        if ((uint64_t)w * h > 360000) h = 360000 / w;
        if ((uint64_t)w * h > 90000) h = 90000 / w + 1;
        int64_t v = op.arg(3) < 0 ? -(op.arg(3) + 1) : op.arg(3);
        int style = (int)op.pick(4, 0, 4);
        uint64_t seed = (uint64_t)op.arg(5);
        int slot = (int)op.pick(6, 0, 2), source = (int)op.pick(7, 0, 9);
        Bytes data, gray8;
        char name[40];
        snprintf(name, sizeof name, "/pictures/%d", nload++);
        bool as_png = png;
        data = png ? make_png(w, h, v, style, seed, &gray8) : make_jpeg(w, h, v, style, seed);
        // what is really in the file
        bool exists = true;
        if (source == 7) { as_png = !png; PROBE("wrong-kind-of-file"); }
        if (source == 8) { data.resize(seed % 3 == 0 ? 0 : seed % 40); for (size_t i = 0; i < data.size() && seed % 2; i++) data[i] = (unsigned char)mix(seed, i); PROBE("garbage-file"); }
        if (source == 9) { exists = false; PROBE("missing-file"); }
        if (exists) fs::add(name, data);
        Bytes delivered = data;
        for (auto &f : op.f) if (f.kind == FK_CORRUPT && (uint64_t)f.k / 8 < delivered.size()) delivered[(size_t)(f.k / 8)] ^= (unsigned char)(1u << (f.k % 8));
        Pic want = as_png ? read_png(delivered) : read_jpeg(delivered);
        if (as_png && png && source < 7 && delivered == data && want.ok && !gray8.empty() && want.px != gray8) harness_error("reference decoder is wrong");
        if (source < 7 && delivered == data && !want.ok && (as_png || (v & 3) != 3)) harness_error("reference decoder fails on an intact file");
        if (slot == 2) {
            bool fit = (op.arg(8) & 3) != 0 && want.w && want.w < 2000 && want.h < 2000;
            make_view(fit ? want.w : w + 1, fit ? want.h : h, (uint32_t)(op.arg(8) >> 2) % 4, (uint32_t)(op.arg(8) >> 4) % 3, (op.arg(8) & 64) ? 3 : 1);
            for (uint32_t i = 0; i < whole->data_length; i++) whole->data[i] = (U8)(i * 13);
            before.assign(whole->data, whole->data + whole->data_length);
        }
        Interleaved<U8> &dst = *img[slot];
        // known defect: the one band of a PNG is stored in an image with three
        bool three = as_png && known("png-three-bands", false);
        bool sameshape = dst.width == want.w && dst.height == want.h && dst.num_bands == 1 && !three;
        fs::arm(op.f, block);
        bool result = false;
        uint64_t seq = alloc_seq();
        std::string what;
        g_max_alloc = LIMIT + 4096;
        Outcome o = call(op, [&] { result = as_png ? boofcv::load_png(name, dst) : boofcv::load_jpeg(name, dst); }, &what);
        fs::Seen s = fs::seen();
        fs::disarm();
        bool ok = o == OK && result, nomem = alloc_fault_fired();
        const char *fn = as_png ? "load_png" : "load_jpeg";
        if (o == OTHER) violation("file:strange-exception", "%s ended with an exception that is not a std::exception", fn);
        // known defect: an exception of reshape() passes through the loader, which then keeps its file and its decoder
        bool toobig = !want.ok && !want.w;
        bool escaped = (o == BAD_ALLOC || o == REJECTED) && fs::open_now() == 1 && s.opened == 1 && ((slot == 2 && !sameshape) || nomem || toobig) && known("exception-keeps-file");
        if (escaped) fs::abandon();
        fs::finished(fn);
        if (s.opened != s.closed && !escaped) violation("file:not-closed", "%s opened %d and closed %d files", fn, s.opened, s.closed);
        // only the pixels of the destination may still be held
        if (escaped) forgive_since(seq, slot == 2 ? nullptr : dst.data);
        else leak_since(seq, slot == 2 ? nullptr : dst.data, fn);
        ev(ok); sig(ok);
        ev(s.damaged);
        if (ok) {
            PROBE(as_png ? "png-loaded" : "jpeg-loaded");
            if (slot == 2) PROBE("loaded-into-view");
            if (nomem) PROBE("loaded-despite-refused-memory");
            if (!exists || s.open_failed) violation("file:phantom", "%s reports success for a file that could not be opened", fn);
            if (!want.ok) violation("file:undecodable-accepted", "%s reports success for bytes that are not a complete %s", fn, as_png ? "PNG" : "JPEG");
            // known defect: libjpeg's warnings are ignored, so that missing or damaged data are success
            bool guessed = !as_png && (want.damaged || s.truncated || s.damaged_reads) && known("jpeg-damage-accepted", false);
            if (guessed && want.damaged) known("jpeg-damage-accepted");
            if (want.damaged && !guessed) violation("file:damage-accepted", "%s reports success although the picture data are damaged", fn);
            three = three && dst.num_bands == 3 && known("png-three-bands");
            if (dst.width != want.w || dst.height != want.h || dst.num_bands != (three ? 3 : 1)) violation("file:shape", "%s gives %ux%u with %u bands, the picture is %ux%u with 1 band", fn, dst.width, dst.height, dst.num_bands, want.w, want.h);
            for (uint32_t y = 0; y < want.h; y++) for (uint32_t x = 0; x < want.w; x++)
                if ((three ? dst.data[dst.offset + y * dst.stride + x] : dst.at(x, y, 0)) != want.px[(size_t)y * want.w + x]) {
                    if (guessed) known("jpeg-damage-accepted");
                    if (guessed || (want.warnings && !as_png)) { x = want.w; y = want.h; break; }
                    violation("file:pixels", "%s reports success but pixel (%u,%u) is %u instead of %u", fn, x, y, three ? dst.data[dst.offset + y * dst.stride + x] : dst.at(x, y, 0), want.px[(size_t)y * want.w + x]);
                }
            ev_bytes(want.px.data(), want.px.size());
        } else {
            PROBE(as_png ? "png-failed" : "jpeg-failed");
            bool excuse = !exists || s.open_failed || nomem || !want.ok || s.truncated || s.damaged_reads || delivered != data || (want.warnings && !as_png) || (slot == 2 && !sameshape);
            if (!excuse) violation("file:good-file-refused", "%s fails on a readable, intact picture%s%s", fn, what.empty() ? "" : ": ", what.c_str());
            if (o == REJECTED && !(slot == 2 && !sameshape) && !nomem && want.w && (uint64_t)want.w * want.h <= LIMIT) violation("file:unexpected-exception", "%s: %s", fn, what.c_str());
        }
        if (slot == 2) for (uint32_t y = 0; y < whole->height; y++) for (uint32_t x = 0; x < whole->width * whole->num_bands; x++) {
            uint32_t bx = x / whole->num_bands;
            bool inside = bx >= vx && bx < vx + dst.width && y >= vy && y < vy + dst.height;
            if (!inside && whole->data[y * whole->stride + x] != before[y * whole->stride + x]) violation("file:outside-view", "%s changed memory outside the destination view", fn);
        }
        usable(fn);
        if (!ok && slot != 2) { // the destination can be given any shape again
            Op q; q.name = "reshape-after";
            uint32_t nw = 3 + (uint32_t)(seed % 5);
            if (call(q, [&] { dst.reshape(nw, 2, 2); }) != OK) violation("file:destination-unusable", "the destination cannot be reshaped after a failed load");
            for (uint32_t x = 0; x < nw; x++) { dst.at(x, 1, 1) = (U8)x; if (dst.at(x, 1, 1) != (U8)x) violation("file:destination-unusable", "the destination does not keep values"); }
        }
        op_end(true);
    }
    void leak_since(uint64_t seq, const void *except, const char *fn) {
        uint64_t n = live_since(seq, except);
        if (n) violation("file:memory-lost", "%s leaves %llu block(s) of memory behind", fn, (unsigned long long)n);
    }
    void run() {
        for (size_t i = 0; i < plan.ops.size(); i++) {
            const Op &op = plan.ops[i];
            op_begin((uint32_t)i, op);
            if (op.name == "load") load(op);
            else if (op.name == "sniff") sniff(op);
            else if (op.name == "shape") { int s = (int)op.pick(0, 0, 1); Outcome o = call(op, [&] { img[s]->reshape((uint32_t)op.pick(1, 0, 40), (uint32_t)op.pick(2, 0, 40), (uint32_t)op.pick(3, 1, 4)); }); if (o != OK && !alloc_fault_fired()) violation("file:reshape", "reshape failed"); usable("reshape"); op_end(false); }
        }
        Sut s;
        delete img[0]; delete img[1]; delete img[2]; delete whole;
        img[0] = img[1] = img[2] = whole = nullptr;
    }
    void sniff(const Op &op) {
        if (!check_if_png) return;
        bool png = op.pick(0, 0, 1) == 1;
        Bytes d = png ? make_png(3, 3, op.arg(1) & 0xff, 0, 1, nullptr) : make_jpeg(3, 3, 0, 0, 1);
        int cut = (int)op.pick(2, 0, 40);
        if (cut < 8) d.resize((size_t)cut);
        char name[40];
        snprintf(name, sizeof name, "/pictures/%d", nload++);
        fs::add(name, d);
        Bytes del = d;
        for (auto &f : op.f) if (f.kind == FK_CORRUPT && (uint64_t)f.k / 8 < del.size()) del[(size_t)(f.k / 8)] ^= (unsigned char)(1u << (f.k % 8));
        int r = 0;
        fs::arm(op.f, block);
        Outcome o = call(op, [&] { r = check_if_png(name); });
        fs::Seen s = fs::seen();
        fs::disarm();
        fs::finished("check_if_png");
        bool is = del.size() >= 4 && !memcmp(del.data(), "\x89PNG", 4) && !s.open_failed && !s.damaged_reads && !s.truncated;
        if (o != OK) violation("file:sniff", "check_if_png raised an error");
        if ((r != 0) != is) violation("file:sniff", "check_if_png says %d for a file that %s a PNG", r, is ? "is" : "is not (readably)");
        op_end(true);
    }
};
static void exec(const Plan &p) { World20 w(p); w.run(); }
static void gen(Plan &p, Rng &r) {
    p.cfg["block"] = (int64_t)r.below(6);
    int n = 2 + (int)r.below(5);
    for (int i = 0; i < n; i++) {
        if (r.chance(1, 12)) { p.add("shape", {r.range(0, 1), r.range(0, 40), r.range(0, 40), r.range(1, 4)}); if (r.chance(1, 3)) p.ops.back().f.push_back(Fault{FK_ALLOC_ONE, 0}); continue; }
        if (r.chance(1, 14)) { Op &o = p.add("sniff", {r.range(0, 1), r.range(0, 255), r.range(0, 40)}); if (r.chance(1, 2)) { static const int K[4] = {FK_READ_ERR, FK_CORRUPT, FK_OPEN_FAIL, FK_READ_EOF}; o.f.push_back(Fault{K[r.below(4)], (int64_t)r.below(6)}); } continue; }
        bool png = r.chance(1, 2);
        int64_t w = r.chance(1, 6) ? r.range(60, 400) : r.range(1, 40), h = r.chance(1, 8) ? r.range(40, 200) : r.range(1, 30);
        if (r.chance(1, 30)) h = r.range(250, 600);
        if (r.chance(1, 300)) { w = 1000000 + r.range(65400, 66200); h = r.range(1, 2); if (r.chance(2, 3)) std::swap(w, h); }   // longer than sixteen bits can count
        int64_t variant = (int64_t)r.below(png ? 5 * 8 * 64 : 1024);
        if (!png && r.chance(1, 4)) variant |= 1024;
        if (!png && (variant & 3) == 3 && r.chance(2, 3)) variant &= ~2;
        Op &o = p.add("load", {png, w, h, variant, (int64_t)r.below(5), (int64_t)r.below(100000), (int64_t)r.below(3), r.chance(1, 12) ? r.range(7, 9) : 0, (int64_t)r.below(128)});
        if (!r.chance(3, 5)) continue;
        int nf = 1 + (int)r.chance(1, 5);
        // sizes of files and numbers of reads are not known here: log scaled guesses
        for (int f = 0; f < nf; f++) {
            int64_t mag = (int64_t)1 << r.below(15);
            switch (r.below(8)) {
                case 0: o.f.push_back(Fault{FK_READ_SHORT, (int64_t)r.below(8)}); break;
                case 1: o.f.push_back(Fault{FK_READ_ERR, r.chance(1, 2) ? (int64_t)r.below(6) : (int64_t)r.below((uint64_t)mag)}); break;
                case 2: o.f.push_back(Fault{FK_READ_EOF, r.chance(1, 4) ? (int64_t)r.below(60) : (int64_t)r.below((uint64_t)mag)}); break;
                case 3: o.f.push_back(Fault{FK_CORRUPT, r.chance(1, 4) ? (int64_t)r.below(400) : (int64_t)r.below((uint64_t)mag * 8)}); break;
                case 4: o.f.push_back(Fault{FK_OPEN_FAIL, (int64_t)r.below(2)}); break;
                case 5: o.f.push_back(Fault{FK_ALLOC_ONE, (int64_t)r.below(30)}); break;
                case 6: o.f.push_back(Fault{FK_ALLOC_FROM, (int64_t)r.below(30)}); break;
                default: o.f.push_back(Fault{FK_READ_EOF, (int64_t)r.below(2000)}); break;
            }
        }
    }
}
static Reg reg(World{"C20", gen, exec, "a run is a history of loading generated JPEG and PNG files from a faulty simulated disk into reused images and views", 16000, 400000});
}
}
