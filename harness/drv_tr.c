/* Hash trees, diff, patch, payload verification and transport decoding, all
 * through callbacks on memory that log what they are asked and can fail at a
 * chosen call. */
#include "drv.h"
#include <bpak/merkle.h>
#include <bpak/bsdiff.h>
#include <bpak/bspatch.h>
#include <bpak/transport.h>
#include <bpak/verify.h>
#include <bpak/pkg.h>

/* ------------------------------------------------------------ fault plan */
LOCAL long io_calls, fault_at;
LOCAL char fault_mode;

/* Length to really transfer; *ret is what to answer */
static size_t fault(size_t length, ssize_t *ret)
{
    *ret = length;
    if (length == 0) return 0;
    io_calls++;
    if (!fault_at || (fault_mode == 'p' ? io_calls < fault_at : io_calls != fault_at)) return length;
    switch (fault_mode) {
    case 'p':
    case 'e': *ret = -5; return 0;
    case 'z': *ret = 0; return 0;
    case 's': *ret = length - 1; return length - 1;
    case 'h': *ret = length / 2; return length / 2;
    }
    usage_error("fault mode");
    return 0;
}

static void c_fault(int argc, char **argv)
{
    fault_at = atol(argv[1]);
    fault_mode = argv[2][0];
    io_calls = 0;
    printf("{\"a\":\"fault\"}\n");
}

/* "=hex" stands for the bytes themselves */
static uint8_t *slurp(const char *name, size_t *n)
{
    if (name[0] == '=') return unhex(name[1] ? name + 1 : "-", n);
    FILE *f = fopen(name, "rb");
    if (!f) usage_error("open input");
    fseek(f, 0, SEEK_END);
    *n = ftell(f);
    rewind(f);
    uint8_t *p = malloc(*n ? *n : 1);
    if (fread(p, 1, *n, f) != *n) usage_error("read input");
    fclose(f);
    return p;
}

/* exact copy, so that a byte too many is seen by the sanitizer */
static uint8_t *exact(const uint8_t *p, size_t n)
{
    uint8_t *q = malloc(n);
    if (n) memcpy(q, p, n);
    return q;
}

/* "=" prints them into the reply */
static void spit(const char *name, const uint8_t *p, size_t n)
{
    if (name[0] == '=') {
        printf(",\"out\":\"");
        print_hex(p, n);
        printf("\"");
        return;
    }
    FILE *f = fopen(name, "wb");
    if (!f || fwrite(p, 1, n, f) != n || fclose(f)) usage_error("write output");
}

/* ------------------------------------------------------------ hash trees */
LOCAL struct bpak_merkle_context *mk;
LOCAL uint8_t *mk_mem;
LOCAL size_t mk_n;
LOCAL off_t mk_base;      /* address of mk_mem[0] */
LOCAL off_t mk_lo, mk_hi; /* where the tree belongs */
LOCAL int mk_out, mk_ok; /* what could not be set up is left alone */

static ssize_t mk_wr_(off_t o, uint8_t *b, size_t n, void *u)
{
    ssize_t r;
    if (o < mk_lo || o + (off_t)n > mk_hi) mk_out++;
    size_t m = fault(n, &r);
    for (size_t i = 0; i < m; i++)
        if (o + (off_t)i >= mk_base && (size_t)(o + i - mk_base) < mk_n) mk_mem[o + i - mk_base] = b[i];
    return r;
}
static ssize_t mk_wr(off_t o, uint8_t *b, size_t n, void *u)
{
    lane_turn();
    ssize_t r = mk_wr_(o, b, n, u);
    lane_turn();
    return r;
}

static ssize_t mk_rd_(off_t o, uint8_t *b, size_t n, void *u)
{
    ssize_t r;
    if (o < mk_lo || o + (off_t)n > mk_hi) mk_out++;
    size_t m = fault(n, &r);
    for (size_t i = 0; i < m; i++)
        b[i] = (o + (off_t)i >= mk_base && (size_t)(o + i - mk_base) < mk_n) ? mk_mem[o + i - mk_base] : 0xEE;
    return r;
}
static ssize_t mk_rd(off_t o, uint8_t *b, size_t n, void *u)
{
    lane_turn();
    ssize_t r = mk_rd_(o, b, n, u);
    lane_turn();
    return r;
}

static void mk_free(void)
{
    free(mk);
    free(mk_mem);
    mk = NULL;
    mk_mem = NULL;
    mk_n = 0;
}

static void c_msize(int argc, char **argv)
{
    printf("{\"a\":\"msize\",\"rc\":%zd}\n", bpak_merkle_compute_size(strtoull(argv[1], NULL, 10)));
}

/* minit length salt zerofill offset capacity */
static void c_minit(int argc, char **argv)
{
    size_t sl, cap = strtoull(argv[5], NULL, 10);
    int zf = atoi(argv[3]);
    mk_free();
    uint8_t *salt = unhex(argv[2], &sl), *s = exact(salt, sl);
    mk_lo = strtoll(argv[4], NULL, 10);
    mk_hi = mk_lo + cap;
    mk_base = mk_lo;
    mk_n = cap;
    mk_mem = malloc(cap ? cap : 1);
    memset(mk_mem, zf ? 0xAA : 0, cap);
    mk_out = 0;
    mk = malloc(sizeof(*mk));
    memset(mk, 0x5A, sizeof(*mk));
    int rc = bpak_merkle_init(mk, strtoull(argv[1], NULL, 10), s, sl, mk_wr, mk_rd, mk_lo, zf, NULL);
    mk_ok = rc == 0;
    free(s);
    free(salt);
    printf("{\"a\":\"minit\",\"rc\":%d,\"size\":%zu,\"calls\":%ld}\n", rc, rc == 0 ? bpak_merkle_get_size(mk) : 0, io_calls);
}

LOCAL uint8_t *mk_data;
LOCAL size_t mk_data_n;
static void c_mdata(int argc, char **argv)
{
    free(mk_data);
    mk_data = slurp(argv[1], &mk_data_n);
    printf("{\"a\":\"mdata\"}\n");
}

/* mfeed offset length */
static void c_mfeed(int argc, char **argv)
{
    size_t o = strtoull(argv[1], NULL, 10), n = strtoull(argv[2], NULL, 10);
    if (o + n > mk_data_n) usage_error("mfeed range");
    uint8_t *c = exact(mk_data + o, n);
    int rc = mk_ok ? bpak_merkle_write_chunk(mk, c, n) : -999;
    free(c);
    printf("{\"a\":\"mfeed\",\"rc\":%d,\"calls\":%ld}\n", rc, io_calls);
}

/* mfin treefile */
static void c_mfin(int argc, char **argv)
{
    uint8_t *root = malloc(32);
    memset(root, 0x33, 32);
    int rc = mk_ok ? bpak_merkle_finish(mk, root) : -999;
    printf("{\"a\":\"mfin\",\"rc\":%d,\"outside\":%d,\"calls\":%ld,\"root\":\"", rc, mk_out, io_calls);
    print_hex(root, 32);
    printf("\",\"f\":\"%s\"}\n", argv[1]);
    free(root);
    spit(argv[1], mk_mem, mk_n);
}

/* ------------------------------------------------------------ payload verification */
LOCAL uint8_t *vp;
LOCAL size_t vp_n;
LOCAL off_t vp_base;
static ssize_t vp_rd_(off_t o, uint8_t *b, size_t n, void *u)
{
    ssize_t r;
    if (o < vp_base) return -1;
    size_t pos = o - vp_base + sizeof(struct bpak_header);
    if (pos + n > vp_n) {
        n = pos < vp_n ? vp_n - pos : 0;
        memcpy(b, vp + pos, n);
        return n;
    }
    size_t m = fault(n, &r);
    memcpy(b, vp + pos, m);
    return r;
}
static ssize_t vp_rd(off_t o, uint8_t *b, size_t n, void *u)
{
    lane_turn();
    ssize_t r = vp_rd_(o, b, n, u);
    lane_turn();
    return r;
}

/* vpay file data_offset */
static void c_vpay(int argc, char **argv)
{
    vp = slurp(argv[1], &vp_n);
    vp_base = strtoll(argv[2], NULL, 10);
    io_calls = 0;
    struct bpak_header *h = (void *)exact(vp, sizeof(*h));
    int rc = bpak_verify_payload(h, vp_rd, vp_base, NULL);
    int same = memcmp(h, vp, sizeof(*h)) == 0;
    printf("{\"a\":\"vpay\",\"rc\":%d,\"calls\":%ld,\"same\":%d}\n", rc, io_calls, same);
    free(h);
    free(vp);
    vp = NULL;
}

/* ------------------------------------------------------------ diff */
LOCAL uint8_t *gm;
LOCAL size_t gm_n, gm_cap, gm_max;
LOCAL off_t gm_base;
LOCAL int gm_gap;
static ssize_t gm_wr_(off_t o, uint8_t *b, size_t n, void *u)
{
    ssize_t r;
    if (n && o != gm_base + (off_t)gm_n) {
        gm_gap++;
        return n;
    }
    size_t m = fault(n, &r);
    if (gm_n + m > gm_max) {
        gm_gap++;
        return r;
    }
    if (gm_n + m > gm_cap) {
        gm_cap = (gm_n + m) * 2;
        gm = realloc(gm, gm_cap);
    }
    if (m) memcpy(gm + gm_n, b, m);
    gm_n += m;
    return r;
}
static ssize_t gm_wr(off_t o, uint8_t *b, size_t n, void *u)
{
    lane_turn();
    ssize_t r = gm_wr_(o, b, n, u);
    lane_turn();
    return r;
}
static void gm_reset(off_t base)
{
    gm_n = 0;
    gm_gap = 0;
    gm_base = base;
    gm_max = 1u << 28;
}

/* diff comp origin new out outoff */
static void c_diff(int argc, char **argv)
{
    size_t on, nn;
    uint8_t *o = slurp(argv[2], &on), *n = slurp(argv[3], &nn);
    uint8_t *oe = exact(o, on), *ne = exact(n, nn);
    struct bpak_bsdiff_context *c = malloc(sizeof(*c));
    ssize_t rc2 = 0;
    gm_reset(strtoll(argv[5], NULL, 10));
    io_calls = 0;
    memset(c, 0x5A, sizeof(*c));
    int rc = bpak_bsdiff_init(c, oe, on, ne, nn, gm_wr, gm_base, atoi(argv[1]), NULL);
    if (rc == 0) {
        rc2 = bpak_bsdiff(c);
        bpak_bsdiff_free(c);
    }
    int same = memcmp(o, oe, on) == 0 && memcmp(n, ne, nn) == 0;
    printf("{\"a\":\"diff\",\"init\":%d,\"rc\":%zd,\"n\":%zu,\"gap\":%d,\"same\":%d,\"calls\":%ld", rc, rc2, gm_n, gm_gap, same, io_calls);
    spit(argv[4], gm, gm_n);
    printf("}\n");
    free(c);
    free(o);
    free(n);
    free(oe);
    free(ne);
}

/* ------------------------------------------------------------ patch */
LOCAL uint8_t *og;
LOCAL size_t og_n;
LOCAL off_t og_base;
LOCAL int og_before;
static ssize_t og_rd_(off_t o, uint8_t *b, size_t n, void *u)
{
    ssize_t r;
    if (o < og_base) {
        /* as in a file: there is something else before the origin */
        og_before++;
        size_t m = (size_t)(og_base - o);
        if (o < 0 || (n > m && n - m > og_n))
            return -1;
        memset(b, 0xEE, n < m ? n : m);
        if (n > m) memcpy(b + m, og, n - m);
        return n;
    }
    size_t pos = o - og_base;
    if (pos > og_n || n > og_n - pos) {
        n = pos < og_n ? og_n - pos : 0;
        if (n) memcpy(b, og + pos, n);
        return n;
    }
    size_t m = fault(n, &r);
    if (m) memcpy(b, og + pos, m);
    return r;
}
static ssize_t og_rd(off_t o, uint8_t *b, size_t n, void *u)
{
    lane_turn();
    ssize_t r = og_rd_(o, b, n, u);
    lane_turn();
    return r;
}

/* patch comp origin patch inputlen bufsz origoff outoff out chunk... */
static void c_patch(int argc, char **argv)
{
    size_t pn, pos = 0;
    uint8_t *p = slurp(argv[3], &pn);
    og = slurp(argv[2], &og_n);
    size_t bl = strtoull(argv[5], NULL, 10);
    uint8_t *buf = malloc(bl ? bl : 1);
    struct bpak_bspatch_context *c = malloc(sizeof(*c));
    memset(c, 0x5A, sizeof(*c));
    og_base = strtoll(argv[6], NULL, 10);
    og_before = 0;
    gm_reset(strtoll(argv[7], NULL, 10));
    io_calls = 0;
    int rc = bpak_bspatch_init(c, buf, bl, strtoull(argv[4], NULL, 10), og_rd, og_base, gm_wr, gm_base, atoi(argv[1]), NULL);
    printf("{\"a\":\"patch\",\"init\":%d,\"w\":[", rc);
    ssize_t fin = 0;
    if (rc == 0) {
        for (int i = 9; i < argc; i++) {
            size_t n = strtoull(argv[i], NULL, 10);
            if (pos + n > pn) usage_error("patch chunk");
            uint8_t *e = exact(p + pos, n);
            pos += n;
            int r = bpak_bspatch_write(c, e, n);
            printf("%s%d", i > 9 ? "," : "", r);
            free(e);
        }
        fin = bpak_bspatch_final(c);
        bpak_bspatch_free(c);
    }
    printf("],\"fin\":%zd,\"n\":%zu,\"gap\":%d,\"before\":%d,\"calls\":%ld", fin, gm_n, gm_gap, og_before, io_calls);
    spit(argv[8], gm, gm_n);
    printf("}\n");
    free(c);
    free(buf);
    free(p);
    free(og);
    og = NULL;
}

/* ------------------------------------------------------------ transport decoding */
LOCAL FILE *lg;
LOCAL uint8_t *dm; /* output payload memory */
LOCAL size_t dm_n;
LOCAL off_t dm_base;
static void rec(char k, int64_t a, int64_t b, int64_t r, const uint8_t *p, int64_t n)
{
    fwrite(&k, 1, 1, lg);
    fwrite(&a, 8, 1, lg);
    fwrite(&b, 8, 1, lg);
    fwrite(&r, 8, 1, lg);
    fwrite(&n, 8, 1, lg);
    if (n) fwrite(p, 1, n, lg);
}
static ssize_t d_wr_(off_t o, uint8_t *b, size_t n, void *u)
{
    ssize_t r;
    size_t m = fault(n, &r);
    rec('W', o - dm_base, n, r, b, m);
    for (size_t i = 0; i < m; i++)
        if (o + (off_t)i >= dm_base && (size_t)(o + i - dm_base) < dm_n) dm[o + i - dm_base] = b[i];
    return r;
}
static ssize_t d_wr(off_t o, uint8_t *b, size_t n, void *u)
{
    lane_turn();
    ssize_t r = d_wr_(o, b, n, u);
    lane_turn();
    return r;
}
static ssize_t d_rd_(off_t o, uint8_t *b, size_t n, void *u)
{
    ssize_t r;
    size_t m = fault(n, &r);
    for (size_t i = 0; i < m; i++)
        b[i] = (o + (off_t)i >= dm_base && (size_t)(o + i - dm_base) < dm_n) ? dm[o + i - dm_base] : 0xEE;
    rec('R', o - dm_base, n, r, NULL, 0);
    return r;
}
static ssize_t d_rd(off_t o, uint8_t *b, size_t n, void *u)
{
    lane_turn();
    ssize_t r = d_rd_(o, b, n, u);
    lane_turn();
    return r;
}
static ssize_t d_org_(off_t o, uint8_t *b, size_t n, void *u)
{
    ssize_t r = og_rd_(o, b, n, u);
    rec('O', o - og_base, n, r, NULL, 0);
    return r;
}
static ssize_t d_org(off_t o, uint8_t *b, size_t n, void *u)
{
    lane_turn();
    ssize_t r = d_org_(o, b, n, u);
    lane_turn();
    return r;
}
static ssize_t d_hdr_(off_t o, uint8_t *b, size_t n, void *u)
{
    ssize_t r;
    size_t m = fault(n, &r);
    rec('H', o, n, r, b, m);
    return r;
}
static ssize_t d_hdr(off_t o, uint8_t *b, size_t n, void *u)
{
    lane_turn();
    ssize_t r = d_hdr_(o, b, n, u);
    lane_turn();
    return r;
}

/* dec enc origin|- bufsz outoff origoff capacity log chunk,chunk,... */
static void c_dec(int argc, char **argv)
{
    size_t en, pos = sizeof(struct bpak_header), bl = strtoull(argv[3], NULL, 10);
    uint8_t *e = slurp(argv[1], &en), *of = NULL;
    struct bpak_header *h = (void *)exact(e, sizeof(*h)), *oh = NULL;
    struct bpak_transport_decode *c = malloc(sizeof(*c));
    uint8_t *buf = malloc(bl ? bl : 1);
    long ch[16];
    int nch = 0, k = 0;
    for (char *t = strtok(argv[8], ","); t && nch < 16; t = strtok(NULL, ",")) ch[nch++] = atol(t);
    memset(c, 0x5A, sizeof(*c));
    lg = fopen(argv[7], "wb");
    if (!lg) usage_error("log");
    dm_base = strtoll(argv[4], NULL, 10);
    og_base = strtoll(argv[5], NULL, 10);
    dm_n = strtoull(argv[6], NULL, 10);
    dm = malloc(dm_n ? dm_n : 1);
    memset(dm, 0xAA, dm_n);
    io_calls = 0;
    og = NULL;
    int rc = bpak_transport_decode_init(c, buf, bl, h, d_wr, d_rd, dm_base, d_hdr, NULL);
    rec('C', 0, -1, rc, NULL, 0);
    if (rc == 0 && strcmp(argv[2], "-")) {
        size_t on;
        of = slurp(argv[2], &on);
        if (on < sizeof(*oh)) usage_error("origin");
        oh = (void *)exact(of, sizeof(*oh));
        og_n = on - sizeof(*oh);
        og = exact(of + sizeof(*oh), og_n);
        rc = bpak_transport_decode_set_origin(c, oh, d_org, og_base);
        rec('C', 1, -1, rc, NULL, 0);
    }
    for (int i = 0; rc == 0 && i < BPAK_MAX_PARTS && h->parts[i].id; i++) {
        struct bpak_part_header *p = &h->parts[i];
        rc = bpak_transport_decode_start(c, p);
        rec('C', 2, i, rc, NULL, 0);
        if (rc) break;
        size_t left = bpak_part_size(p);
        while (left && !rc) {
            size_t n = ch[k++ % nch];
            if (n > left) n = left;
            if (pos + n > en) {
                rc = -1000;
                break;
            }
            uint8_t *x = exact(e + pos, n);
            rc = bpak_transport_decode_write_chunk(c, x, n);
            free(x);
            pos += n;
            left -= n;
        }
        rec('C', 3, i, rc, NULL, 0);
        if (rc) break;
        rc = bpak_transport_decode_finish(c);
        rec('C', 4, i, rc, NULL, 0);
    }
    bpak_transport_decode_free(c);
    fclose(lg);
    printf("{\"a\":\"dec\",\"rc\":%d,\"calls\":%ld}\n", rc, io_calls);
    free(c);
    free(buf);
    free(e);
    free(h);
    free(oh);
    free(of);
    free(og);
    og = NULL;
    free(dm);
    dm = NULL;
}

void reset_all_tr(void)
{
    fault_at = 0;
    io_calls = 0;
    mk_free();
}

struct cmd tr_cmds[] = {
    {"fault", c_fault}, {"msize", c_msize}, {"minit", c_minit}, {"mdata", c_mdata}, {"mfeed", c_mfeed}, {"mfin", c_mfin},
    {"vpay", c_vpay},   {"diff", c_diff},   {"patch", c_patch}, {"dec", c_dec},     {NULL, NULL}};
