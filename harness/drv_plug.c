/* A program's own hash and key functions, plugged into the library.  They keep
 * a book of what they are asked to do and can be told to refuse a request. */
#include "drv.h"
#include <bpak/crypto.h>
#include <bpak/key.h>
#include <mbedtls/sha256.h>
#include <mbedtls/sha512.h>

struct life {
    struct life *next;
    char calls[256]; /* I U F X, repeated U once; small letters: refused */
    bool told;
    enum bpak_hash_kind kind;
    mbedtls_sha256_context s;
    mbedtls_sha512_context l;
};
static struct life *lives;
static uint8_t mask;
static bool light; /* hashes that are quick over zeros, and of which no book is kept */
static long ncalls, nrefused, refuse_at, nkey, nmarks;
static bool nasty, by_mark;
static char marks[2000];

static void note(struct life *h, char c)
{
    size_t n = strlen(h->calls);
    h->told = false;
    if ((c == 'U' && n && h->calls[n - 1] == 'U') || n + 1 >= sizeof(h->calls)) return;
    h->calls[n] = c;
}
/* mark: any request but the second and later pieces fed to a hash in a row */
static bool refuse(bool mark)
{
    ncalls++;
    if (mark) {
        nmarks++;
        if (strlen(marks) + 20 < sizeof(marks)) sprintf(marks + strlen(marks), "%s%ld", *marks ? "," : "", ncalls);
    }
    if (!refuse_at || nrefused || (by_mark ? nmarks : ncalls) != refuse_at) return false;
    nrefused++;
    return true;
}
/* the light hash: the number of bytes, and a sum over those that are not zero */
struct sum {
    enum bpak_hash_kind kind;
    uint64_t n, acc;
};
static void sum_feed(struct sum *s, const uint8_t *b, size_t n)
{
    if (n && !b[0] && (n == 1 || !memcmp(b, b + 1, n - 1))) {
        s->n += n;
        return;
    }
    for (size_t k = 0; k < n; k++, s->n++) {
        if (!b[k]) continue;
        uint64_t x = s->n * 0x9e3779b97f4a7c15u + b[k] * 0xc2b2ae3d27d4eb4fu;
        x ^= x >> 29;
        s->acc += x * 0x165667b19e3779f9u;
    }
}
static int size_of(enum bpak_hash_kind k) { return k == BPAK_HASH_SHA256 ? 32 : k == BPAK_HASH_SHA384 ? 48 : k == BPAK_HASH_SHA512 ? 64 : 0; }

static int h_init(struct bpak_hash_context *c)
{
    if (!size_of(c->kind)) return -BPAK_UNSUPPORTED_HASH_ALG;
    if (light) {
        struct sum *s = calloc(1, sizeof(*s));
        s->kind = c->kind;
        c->backend.user_ctx = s;
        return 0;
    }
    struct life *h = calloc(1, sizeof(*h));
    h->next = lives;
    lives = h;
    if (refuse(true)) {
        note(h, 'i');
        return -BPAK_FAILED;
    }
    h->kind = c->kind;
    if (h->kind == BPAK_HASH_SHA256) {
        mbedtls_sha256_init(&h->s);
        mbedtls_sha256_starts(&h->s, 0);
    } else {
        mbedtls_sha512_init(&h->l);
        mbedtls_sha512_starts(&h->l, h->kind == BPAK_HASH_SHA384);
    }
    note(h, 'I');
    c->backend.user_ctx = h;
    return 0;
}
/* the book entry behind a context, also when it was never started */
static struct life *of(struct bpak_hash_context *c)
{
    for (struct life *h = lives; h; h = h->next)
        if (h == c->backend.user_ctx) return h;
    return NULL;
}
static struct life *stray(void)
{
    struct life *h = calloc(1, sizeof(*h));
    h->next = lives;
    lives = h;
    return h;
}
static int h_update(struct bpak_hash_context *c, const uint8_t *b, size_t n)
{
    if (light) {
        sum_feed(c->backend.user_ctx, b, n);
        return 0;
    }
    struct life *h = of(c);
    if (!h) {
        note(stray(), 'U');
        return -BPAK_FAILED;
    }
    size_t m = strlen(h->calls);
    if (refuse(!m || h->calls[m - 1] != 'U')) {
        note(h, 'u');
        return -BPAK_FAILED;
    }
    note(h, 'U');
    if (h->kind == BPAK_HASH_SHA256) mbedtls_sha256_update(&h->s, b, n);
    else mbedtls_sha512_update(&h->l, b, n);
    return 0;
}
static int h_final(struct bpak_hash_context *c, uint8_t *b, size_t room, size_t *n)
{
    uint8_t d[64];
    if (light) {
        struct sum *s = c->backend.user_ctx;
        size_t z = size_of(s->kind), m = s->n ? 16 : 0;
        uint8_t t[16];
        if (room < z) return -BPAK_SIZE_ERROR;
        for (int k = 0; k < 8; k++) {
            t[k] = s->n >> 8 * k;
            t[8 + k] = s->acc >> 8 * k;
        }
        if (z == 32) mbedtls_sha256(t, m, d, 0);
        else mbedtls_sha512(t, m, d, z == 48);
        memcpy(b, d, z);
        if (n) *n = z;
        return 0;
    }
    struct life *h = of(c);
    if (!h) {
        note(stray(), 'F');
        return -BPAK_FAILED;
    }
    int z = size_of(h->kind);
    if (refuse(true)) {
        note(h, 'f');
        if (nasty) {
            memset(b, 0xa5, room < 64 ? room : 64);
            if (n) *n = room < (size_t)z ? room : (size_t)z;
        }
        return -BPAK_FAILED;
    }
    if (room < (size_t)z) {
        note(h, 'f');
        return -BPAK_SIZE_ERROR;
    }
    note(h, 'F');
    if (h->kind == BPAK_HASH_SHA256) mbedtls_sha256_finish(&h->s, d);
    else mbedtls_sha512_finish(&h->l, d);
    for (int k = 0; k < z; k++) b[k] = d[k] ^ mask;
    if (n) *n = z;
    return 0;
}
static void h_free(struct bpak_hash_context *c)
{
    if (light) {
        free(c->backend.user_ctx);
        c->backend.user_ctx = NULL;
        return;
    }
    struct life *h = of(c);
    /* what never started holds nothing */
    if (h) note(h, 'X');
}

/* keys: the text of the file is "name:public" or "name:secret"; a signature
 * is T and the digest of name, hash and kind */
static int load(const char *text, size_t n, const char *want, struct bpak_key **out)
{
    const char *c = memchr(text, ':', n);
    if (!c || n - (c + 1 - text) != 6 || memcmp(c + 1, want, 6)) return -BPAK_KEY_DECODE;
    struct bpak_key *k = bpak_calloc(1, sizeof(*k) + n);
    if (!k) return -BPAK_FAILED;
    k->kind = BPAK_KEY_PUB_PRIME256v1;
    k->size = n;
    memcpy(k->data, text, n);
    *out = k;
    return 0;
}
static int k_file(const char *name, const char *want, struct bpak_key **out)
{
    char b[1000];
    nkey++;
    if (refuse(true)) {
        static char junk[64];
        if (nasty) *out = (struct bpak_key *)junk;
        return -BPAK_FAILED;
    }
    FILE *f = fopen(name, "rb");
    if (!f) return -BPAK_NOT_FOUND;
    size_t n = fread(b, 1, sizeof(b), f);
    fclose(f);
    return load(b, n, want, out);
}
static int k_pub(const char *f, struct bpak_key **out) { return k_file(f, "public", out); }
static int k_pri(const char *f, struct bpak_key **out) { return k_file(f, "secret", out); }
static int k_parse(const uint8_t *b, size_t n, struct bpak_key **out)
{
    nkey++;
    if (refuse(true)) return -BPAK_FAILED;
    return load((const char *)b, n, "public", out);
}
static void toy(const uint8_t *hash, size_t n, enum bpak_hash_kind kind, struct bpak_key *key, uint8_t out[33])
{
    mbedtls_sha256_context s;
    uint8_t k = kind;
    const uint8_t *c = memchr(key->data, ':', key->size);
    mbedtls_sha256_init(&s);
    mbedtls_sha256_starts(&s, 0);
    mbedtls_sha256_update(&s, key->data, c ? c - key->data : 0);
    mbedtls_sha256_update(&s, hash, n);
    mbedtls_sha256_update(&s, &k, 1);
    out[0] = 'T';
    mbedtls_sha256_finish(&s, out + 1);
}
static int k_verify(const uint8_t *sig, size_t sn, const uint8_t *hash, size_t n, enum bpak_hash_kind kind, struct bpak_key *key, bool *ok)
{
    uint8_t t[33];
    nkey++;
    if (refuse(true)) {
        *ok = nasty;
        return -BPAK_FAILED;
    }
    toy(hash, n, kind, key, t);
    *ok = sn == 33 && !memcmp(t, sig, 33);
    return 0;
}
static int k_sign(const uint8_t *hash, size_t n, enum bpak_hash_kind kind, struct bpak_key *key, uint8_t *sig, size_t *sn)
{
    nkey++;
    if (refuse(true)) {
        if (nasty) {
            memset(sig, 0x5a, *sn);
            *sn = 100;
        }
        return -BPAK_FAILED;
    }
    if (*sn < 33) return -BPAK_SIZE_ERROR;
    toy(hash, n, kind, key, sig);
    *sn = 33;
    return 0;
}

/* plug h|k|hk|hkl mask n|mn nasty : the program's functions are in place; the n-th
 * request (mark) from here on is refused.  unplug h|k: there are no such functions */
static void c_plug(int c, char **v)
{
    if (strchr(v[1], 'h')) bpak_hash_setup(h_init, h_update, h_final, h_free);
    if (strchr(v[1], 'k')) bpak_crypto_setup(k_verify, k_sign, k_pub, k_pri, k_parse);
    mask = strtoul(v[2], NULL, 16);
    light = strchr(v[1], 'l') != NULL;
    ncalls = nrefused = nkey = nmarks = 0;
    marks[0] = 0;
    by_mark = c > 3 && v[3][0] == 'm';
    refuse_at = c > 3 ? atol(v[3] + by_mark) : 0;
    nasty = c > 4 && v[4][0] == '1';
    printf("{\"rc\":0}\n");
}
static void c_unplug(int c, char **v)
{
    if (strchr(v[1], 'h')) bpak_hash_setup(NULL, NULL, NULL, NULL);
    if (strchr(v[1], 'k')) bpak_crypto_setup(NULL, NULL, NULL, NULL, NULL);
    printf("{\"rc\":0}\n");
}
/* plugres: every history that went on since the last time, each kind once */
static void c_plugres(int c, char **v)
{
    bool first = true;
    refuse_at = 0;
    printf("{\"rc\":0,\"asked\":%ld,\"declined\":%ld,\"keys\":%ld,\"marks\":[%s],\"lives\":[", ncalls, nrefused, nkey, marks);
    for (struct life *h = lives; h; h = h->next) {
        bool dup = h->told;
        for (struct life *g = lives; g != h && !dup; g = g->next)
            if (!strcmp(g->calls, h->calls)) dup = true;
        h->told = true;
        if (dup) continue;
        printf("%s[", first ? "" : ",");
        for (char *p = h->calls; *p; p++) printf("%s\"%c%s\"", p == h->calls ? "" : ",", *p >= 'a' ? *p - 32 : *p, *p >= 'a' ? "!" : "");
        putchar(']');
        first = false;
    }
    printf("]}\n");
}
void reset_all_plug(void)
{
    while (lives) {
        struct life *h = lives;
        lives = h->next;
        free(h);
    }
    refuse_at = 0;
}
struct cmd plug_cmds[] = {{"plug", c_plug}, {"unplug", c_unplug}, {"plugres", c_plugres}, {NULL, NULL}};
