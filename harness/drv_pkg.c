/* Package (file) operations. */
#include "drv.h"
#include <unistd.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <bpak/pkg.h>
#include <bpak/id.h>
#include <bpak/utils.h>
#include <bpak/verify.h>
#include <bpak/crypto.h>
#include <bpak/keystore.h>

#define NP 8
LOCAL struct bpak_package *P[NP];
LOCAL bool opened[NP];

static int slot(const char *t)
{
    int i = atoi(t);
    if (i < 0 || i >= NP) usage_error("pkg slot");
    return i;
}

static struct bpak_package *pk(const char *t)
{
    int i = slot(t);
    if (!opened[i]) usage_error("package not open");
    return P[i];
}

static void rcj(int rc) { printf("{\"rc\":%d}\n", rc); }

LOCAL uint8_t kept_sig[8][512];
LOCAL size_t kept_len[8];

void reset_all_pkg(void)
{
    memset(kept_len, 0, sizeof(kept_len));
    for (int i = 0; i < NP; i++) {
        if (opened[i]) bpak_pkg_close(P[i]);
        opened[i] = false;
        free(P[i]);
        P[i] = NULL;
    }
}

/* open slot path mode ; a failed open leaves the slot closed */
static void c_open(int c, char **v)
{
    int i = slot(v[1]);
    if (opened[i]) usage_error("already open");
    free(P[i]);
    P[i] = malloc(sizeof(struct bpak_package));
    int rc = bpak_pkg_open(P[i], v[2], v[3]);
    opened[i] = rc == 0;
    rcj(rc);
}
static void c_close(int c, char **v)
{
    int i = slot(v[1]);
    if (!opened[i]) { rcj(0); return; }
    int rc = bpak_pkg_close(P[i]);
    opened[i] = false;
    free(P[i]);
    P[i] = NULL;
    rcj(rc);
}
static void c_addfile(int c, char **v) { rcj(bpak_pkg_add_file(pk(v[1]), v[2], v[3], atoi(v[4]))); }
static void c_addmerkle(int c, char **v) { rcj(bpak_pkg_add_file_with_merkle_tree(pk(v[1]), v[2], v[3], atoi(v[4]))); }
static void c_addkey(int c, char **v) { rcj(bpak_pkg_add_key(pk(v[1]), v[2], v[3], atoi(v[4]))); }
static void c_pdelpart(int c, char **v) { rcj(bpak_pkg_delete_part(pk(v[1]), idtok(v[2]), atoi(v[3]))); }
static void c_delall(int c, char **v) { rcj(bpak_pkg_delete_all_parts(pk(v[1]), atoi(v[2]))); }
static void c_extract(int c, char **v) { rcj(bpak_pkg_extract_file(pk(v[1]), idtok(v[2]), v[3])); }
/* xout slot id file : extraction to the standard output, which is a file meanwhile */
static void c_xout(int c, char **v)
{
    fflush(stdout);
    int keep = dup(1), fd = open(v[3], O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (keep < 0 || fd < 0 || dup2(fd, 1) < 0) usage_error("xout");
    close(fd);
    int rc = bpak_pkg_extract_file(pk(v[1]), idtok(v[2]), NULL);
    if (fcntl(1, F_GETFD) < 0) {
        fprintf(stderr, "the library closed the standard output\n");
        _exit(98);
    }
    if (fflush(stdout) != 0 && rc == 0) rc = -1000;
    if (dup2(keep, 1) < 0) usage_error("xout");
    close(keep);
    /* the file is the driver's: without anything in it, nothing was put out */
    struct stat st;
    if (rc != 0 && stat(v[3], &st) == 0 && st.st_size == 0) unlink(v[3]);
    rcj(rc);
}
static void c_wrheader(int c, char **v) { rcj(bpak_pkg_write_header(pk(v[1]))); }
static void c_updhash(int c, char **v)
{
    /* with less room than a digest needs nothing may lie behind it */
    size_t n = c > 3 ? strtoul(v[3], NULL, 10) : 64;
    uint8_t *out = malloc(n);
    int rc = c > 2 ? bpak_pkg_update_hash(pk(v[1]), (char *)out, &n) : bpak_pkg_update_hash(pk(v[1]), NULL, NULL);
    printf("{\"rc\":%d,\"h\":\"", rc);
    if (rc == 0 && c > 2) print_hex(out, n);
    free(out);
    printf("\"}\n");
}
static void c_rawsig(int c, char **v)
{
    size_t n;
    uint8_t *b = unhex(v[2], &n);
    int rc = bpak_pkg_write_raw_signature(pk(v[1]), b, n);
    free(b);
    rcj(rc);
}
/* keepsig slot n : remember the signature; rawsigk slot n : install a remembered one */
static void c_keepsig(int c, char **v)
{
    struct bpak_header *h = bpak_pkg_header(pk(v[1]));
    int n = atoi(v[2]) & 7;
    kept_len[n] = h->signature_sz > 512 ? 512 : h->signature_sz;
    memcpy(kept_sig[n], h->signature, kept_len[n]);
    rcj(0);
}
static void c_rawsigk(int c, char **v)
{
    int n = atoi(v[2]) & 7;
    int rc = bpak_pkg_write_raw_signature(pk(v[1]), kept_sig[n], kept_len[n]);
    printf("{\"rc\":%d,\"sig\":\"", rc);
    print_hex(kept_sig[n], kept_len[n]);
    printf("\"}\n");
}
/* vfile path key : open for reading, verify, close */
static void c_vfile(int c, char **v)
{
    struct bpak_package *p = malloc(sizeof(*p));
    struct bpak_key *k = NULL;
    int rc = bpak_pkg_open(p, v[1], "rb");
    if (rc == 0) {
        rc = bpak_crypto_load_public_key(v[2], &k);
        if (rc == 0) {
            rc = bpak_pkg_verify(p, k);
            bpak_free(k);
        }
        bpak_pkg_close(p);
    }
    free(p);
    rcj(rc);
}
static void c_sign(int c, char **v) { rcj(bpak_pkg_sign(pk(v[1]), v[2])); }
static void c_verify(int c, char **v)
{
    struct bpak_key *k = NULL;
    struct bpak_package *p = pk(v[1]);
    int rc = bpak_crypto_load_public_key(v[2], &k);
    if (rc != 0) { printf("{\"rc\":%d,\"nokey\":true}\n", rc); return; }
    rc = bpak_pkg_verify(p, k);
    bpak_free(k);
    rcj(rc);
}
static void c_loadpub(int c, char **v)
{
    struct bpak_key *k = NULL;
    int rc = bpak_crypto_load_public_key(v[1], &k);
    printf("{\"rc\":%d,\"kind\":%d,\"k\":\"", rc, rc == 0 ? (int)k->kind : 0);
    if (rc == 0) print_hex(k->data, k->size);
    printf("\"}\n");
    if (rc == 0) bpak_free(k);
}
static void c_loadpri(int c, char **v)
{
    struct bpak_key *k = NULL;
    int rc = bpak_crypto_load_private_key(v[1], &k);
    printf("{\"rc\":%d,\"kind\":%d}\n", rc, rc == 0 ? (int)k->kind : 0);
    if (rc == 0) bpak_free(k);
}
static void c_parsepub(int c, char **v)
{
    struct bpak_key *k = NULL;
    size_t n;
    uint8_t *b = unhex(v[1], &n);
    int rc = bpak_crypto_parse_public_key(b, n, &k);
    printf("{\"rc\":%d,\"kind\":%d,\"k\":\"", rc, rc == 0 ? (int)k->kind : 0);
    if (rc == 0) print_hex(k->data, k->size);
    printf("\"}\n");
    if (rc == 0) bpak_free(k);
    free(b);
}
/* take the signature out of the header, into a buffer of the given size */
static void c_ptakesig(int c, char **v)
{
    struct bpak_package *p = pk(v[1]);
    size_t n = strtoul(v[2], NULL, 10);
    uint8_t *b = malloc(n ? n : 1);
    int rc = bpak_copyz_signature(bpak_pkg_header(p), b, &n);
    if (rc == 0) rc = bpak_pkg_write_header(p);
    printf("{\"rc\":%d,\"sig\":\"", rc);
    if (rc == 0) print_hex(b, n);
    printf("\"}\n");
    free(b);
}
static void c_psha(int c, char **v)
{
    size_t n = c > 3 ? strtoul(v[3], NULL, 10) : 32;
    uint8_t *out = malloc(n);
    int rc = bpak_pkg_part_sha256(pk(v[1]), out, n, idtok(v[2]));
    printf("{\"rc\":%d,\"h\":\"", rc);
    if (rc == 0) print_hex(out, 32);
    free(out);
    printf("\"}\n");
}
/* hsame slot file: is the header in the handle that of the file */
static void c_hsame(int c, char **v)
{
    char b[4096];
    fflush(NULL);
    FILE *f = fopen(v[2], "rb");
    size_t n = f ? fread(b, 1, sizeof(b), f) : 0;
    if (f) fclose(f);
    printf("{\"rc\":0,\"same\":%s}\n", n == sizeof(b) && !memcmp(b, bpak_pkg_header(pk(v[1])), n) ? "true" : "false");
}
static void c_psize(int c, char **v)
{
    printf("{\"rc\":0,\"size\":%zu,\"inst\":%zu}\n", bpak_pkg_size(pk(v[1])), bpak_pkg_installed_size(pk(v[1])));
}
/* padd slot id ref hexdata : the way the tools add metadata: header op + write */
static void c_paddmeta(int c, char **v)
{
    struct bpak_package *p = pk(v[1]);
    struct bpak_header *h = bpak_pkg_header(p);
    struct bpak_meta_header *m = NULL;
    size_t n;
    uint8_t *b = unhex(v[4], &n);
    int rc = bpak_add_meta(h, idtok(v[2]), idtok(v[3]), n, &m);
    if (rc == 0) {
        memcpy(bpak_get_meta_ptr(h, m, uint8_t), b, n);
        rc = bpak_pkg_write_header(p);
    }
    free(b);
    rcj(rc);
}
static void c_pdelmeta(int c, char **v)
{
    struct bpak_package *p = pk(v[1]);
    struct bpak_header *h = bpak_pkg_header(p);
    struct bpak_meta_header *m = NULL;
    int rc = bpak_get_meta(h, idtok(v[2]), idtok(v[3]), &m);
    if (rc == 0) {
        bpak_del_meta(h, m);
        rc = bpak_pkg_write_header(p);
    }
    rcj(rc);
}
static void c_paddtm(int c, char **v)
{
    struct bpak_package *p = pk(v[1]);
    int rc = bpak_add_transport_meta(bpak_pkg_header(p), idtok(v[2]), idtok(v[3]), idtok(v[4]));
    if (rc == 0) rc = bpak_pkg_write_header(p);
    rcj(rc);
}
/* pset slot field value : header fields the tools let a user set */
static void c_pset(int c, char **v)
{
    struct bpak_package *p = pk(v[1]);
    struct bpak_header *h = bpak_pkg_header(p);
    int rc = 0;
    if (!strcmp(v[2], "keyid")) rc = bpak_set_key_id(h, idtok(v[3]));
    else if (!strcmp(v[2], "ksid")) rc = bpak_set_keystore_id(h, idtok(v[3]));
    else if (!strcmp(v[2], "hash")) {
        h->hash_kind = atoi(v[3]);
        rc = bpak_pkg_update_hash(p, NULL, NULL);
    } else if (!strcmp(v[2], "sigkind")) h->signature_kind = atoi(v[3]);
    else usage_error("field");
    if (rc == 0) rc = bpak_pkg_write_header(p);
    rcj(rc);
}
static void c_phdr(int c, char **v)
{
    printf("{\"rc\":0,\"raw\":\"");
    print_hex((uint8_t *)bpak_pkg_header(pk(v[1])), sizeof(struct bpak_header));
    printf("\"}\n");
}
static void c_tenc(int c, char **v)
{
    rcj(bpak_pkg_transport_encode(pk(v[1]), pk(v[2]), !strcmp(v[3], "-") ? NULL : pk(v[3])));
}
static void c_tdec(int c, char **v)
{
    rcj(bpak_pkg_transport_decode(pk(v[1]), pk(v[2]), !strcmp(v[3], "-") ? NULL : pk(v[3])));
}
/* keystore ------------------------------------------------------------- */
LOCAL int chk_rc;
LOCAL int chk_calls;
static int chk_cb(struct bpak_header *h, void *user)
{
    chk_calls++;
    lane_turn();
    if (h->magic != BPAK_HEADER_MAGIC || user != (void *)&chk_rc) return -1;
    return chk_rc;
}
/* ksload file ksid keyid chk  (chk: "-" no callback, else rc it returns) */
static void c_ksload(int c, char **v)
{
    struct bpak_key *k = NULL;
    chk_calls = 0;
    bool cb = strcmp(v[4], "-") != 0;
    chk_rc = cb ? atoi(v[4]) : 0;
    int rc = bpak_keystore_load_key_from_file(v[1], idtok(v[2]), idtok(v[3]), cb ? chk_cb : NULL, &chk_rc, &k);
    printf("{\"rc\":%d,\"calls\":%d,\"id\":\"%08x\",\"kind\":%d,\"k\":\"", rc, chk_calls,
           rc == 0 && k ? k->id : 0, rc == 0 && k ? (int)k->kind : 0);
    if (rc == 0 && k) print_hex(k->data, k->size);
    printf("\"}\n");
    if (rc == 0 && k) bpak_free(k);
}
/* ksget verified id,id,.. wanted */
static void c_ksget(int c, char **v)
{
    struct bpak_keystore *ks = calloc(1, sizeof(*ks) + 64 * sizeof(struct bpak_key *));
    ks->verified = atoi(v[1]);
    int n = 0;
    struct bpak_key *store[64];
    if (strcmp(v[2], "-"))
        for (char *t = strtok(v[2], ","); t && n < 64; t = strtok(NULL, ",")) {
            store[n] = calloc(1, sizeof(struct bpak_key) + 4);
            store[n]->id = idtok(t);
            ks->keys[n] = store[n];
            n++;
        }
    ks->no_of_keys = n;
    struct bpak_key *k = (struct bpak_key *)0x1;
    int rc = bpak_keystore_get(ks, idtok(v[3]), &k);
    int idx = 0;
    for (int i = 0; i < n; i++)
        if (store[i] == k) idx = i + 1;
    printf("{\"rc\":%d,\"k\":%d,\"null\":%s}\n", rc, idx, k ? "false" : "true");
    for (int i = 0; i < n; i++) free(store[i]);
    free(ks);
}

/* snap slot|- src dst : what is in the file now (after flushing an open package) */
static void c_snap(int c, char **v)
{
    LOCAL uint8_t buf[65536];
    bool open_ = strcmp(v[1], "-") && opened[slot(v[1])];
    if (open_) fflush(P[slot(v[1])]->fp);
    int in = open(v[2], O_RDONLY), out = open(v[3], O_WRONLY | O_CREAT | O_TRUNC, 0644);
    ssize_t n;
    if (out < 0) usage_error("snap");
    if (open_ && write(out, bpak_pkg_header(P[slot(v[1])]), 4096) != 4096) usage_error("snap write");
    struct stat st;
    if (in >= 0 && fstat(in, &st) == 0 && st.st_size > 1 << 26) {
        /* a file with holes keeps them */
        off_t shift = open_ ? 4096 : 0, end = st.st_size;
        for (off_t at = lseek(in, 0, SEEK_DATA), stop; at >= 0 && at < end; at = lseek(in, stop, SEEK_DATA)) {
            stop = lseek(in, at, SEEK_HOLE);
            for (off_t p = at; p < stop; p += n) {
                n = pread(in, buf, stop - p < (off_t)sizeof(buf) ? stop - p : (off_t)sizeof(buf), p);
                if (n <= 0) usage_error("snap holes");
                if (!buf[0] && !memcmp(buf, buf + 1, n - 1)) continue;
                if (pwrite(out, buf, n, p + shift) != n) usage_error("snap holes");
            }
        }
        if (ftruncate(out, end + shift)) usage_error("snap size");
        lseek(in, 0, SEEK_END);
    }
    while (in >= 0 && (n = read(in, buf, sizeof(buf))) > 0)
        if (write(out, buf, n) != n) usage_error("snap write");
    if (in >= 0) close(in);
    close(out);
    printf("{\"rc\":0,\"there\":%s,\"open\":%s}\n", in >= 0 ? "true" : "false", open_ ? "true" : "false");
}
/* cp src dst / poke file offset hex / trunc file size : changes from outside */
static void c_cp(int c, char **v)
{
    char *w[] = {"snap", "-", v[1], v[2]};
    c_snap(4, w);
}
static void c_poke(int c, char **v)
{
    size_t n;
    uint8_t *b = unhex(v[3], &n);
    int fd = open(v[1], O_WRONLY);
    if (fd < 0 || pwrite(fd, b, n, strtoull(v[2], NULL, 10)) != (ssize_t)n) usage_error("poke");
    close(fd);
    free(b);
    rcj(0);
}
/* flip file offset mask : change one byte; flipp file part offset mask: one stored byte of a part */
static void flip(const char *file, off_t at, int mask)
{
    uint8_t b;
    int fd = open(file, O_RDWR);
    if (fd < 0 || pread(fd, &b, 1, at) != 1) usage_error("flip");
    b ^= mask;
    if (pwrite(fd, &b, 1, at) != 1) usage_error("flip write");
    close(fd);
    rcj(0);
}
static void c_flip(int c, char **v) { flip(v[1], strtoull(v[2], NULL, 10), atoi(v[3])); }
static void c_flipp(int c, char **v)
{
    uint8_t h[4096];
    uint32_t id = idtok(v[2]);
    uint64_t off = 4096, at = strtoull(v[3], NULL, 10);
    int fd = open(v[1], O_RDONLY);
    if (fd < 0 || read(fd, h, 4096) != 4096) usage_error("flipp");
    close(fd);
    for (int k = 0; k < 32; k++) {
        uint8_t *p = h + 520 + 32 * k;
        uint32_t i;
        uint64_t s, t, n;
        uint16_t d;
        memcpy(&i, p, 4);
        memcpy(&s, p + 4, 8);
        memcpy(&t, p + 20, 8);
        memcpy(&d, p + 28, 2);
        n = p[30] & 2 ? t : s + d;
        if (i == id && n) {
            flip(v[1], off + at % n, atoi(v[4]));
            return;
        }
        off += n;
    }
    rcj(1);
}
static void c_trunc(int c, char **v)
{
    if (truncate(v[1], strtoull(v[2], NULL, 10)) != 0) usage_error("trunc");
    rcj(0);
}

struct cmd pkg_cmds[] = {
    {"keepsig", c_keepsig}, {"rawsigk", c_rawsigk}, {"vfile", c_vfile}, {"flip", c_flip}, {"flipp", c_flipp},
    {"snap", c_snap}, {"ptakesig", c_ptakesig}, {"cp", c_cp}, {"poke", c_poke}, {"trunc", c_trunc},
    {"open", c_open}, {"close", c_close}, {"addfile", c_addfile}, {"addmerkle", c_addmerkle},
    {"addkey", c_addkey}, {"pdelpart", c_pdelpart}, {"delall", c_delall}, {"extract", c_extract}, {"xout", c_xout},
    {"wrheader", c_wrheader}, {"updhash", c_updhash}, {"rawsig", c_rawsig}, {"sign", c_sign},
    {"verify", c_verify}, {"loadpub", c_loadpub}, {"loadpri", c_loadpri}, {"parsepub", c_parsepub},
    {"psha", c_psha}, {"psize", c_psize}, {"hsame", c_hsame}, {"paddmeta", c_paddmeta}, {"pdelmeta", c_pdelmeta},
    {"paddtm", c_paddtm}, {"pset", c_pset}, {"phdr", c_phdr}, {"tenc", c_tenc}, {"tdec", c_tdec},
    {"ksload", c_ksload}, {"ksget", c_ksget}, {NULL, NULL}};
