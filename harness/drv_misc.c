/* identifiers and printed forms */
#include "drv.h"
#include <bpak/crc.h>
#include <bpak/id.h>
#include <bpak/utils.h>

static char *text(const char *hex)
{
    size_t n;
    uint8_t *b = unhex(hex, &n);
    char *t = malloc(n + 1);
    memcpy(t, b, n);
    t[n] = 0;
    free(b);
    return t;
}

static void val(uint32_t v) { printf("{\"v\":%u}\n", v); }

/* bpid namehex */
static void c_bpid(int c, char **v) { char *t = text(v[1]); val(bpak_id(t)); free(t); }
/* bpcrc start hex */
static void c_bpcrc(int c, char **v)
{
    size_t n;
    uint8_t *b = unhex(v[2], &n);
    val(bpak_crc32(idtok(v[1]), b, n));
    free(b);
}
static void c_bptree(int c, char **v) { val(bpak_part_id_to_hash_tree_id(idtok(v[1]))); }
static void c_bptreename(int c, char **v) { char *t = text(v[1]); val(bpak_part_name_to_hash_tree_id(t)); free(t); }
/* bpfind wanted id id id ..  (ids put into the part table as they are) */
static void c_bpfind(int c, char **v)
{
    struct bpak_header *h = calloc(1, sizeof(*h));
    bpak_init_header(h);
    for (int i = 2; i < c; i++) h->parts[i - 2].id = idtok(v[i]);
    val(bpak_hash_tree_id_to_part_id(h, idtok(v[1])));
    free(h);
}
static void c_bpname(int c, char **v)
{
    const char *t = bpak_id_to_string(idtok(v[1]));
    printf("{\"t\":\"");
    if (t) print_hex((const uint8_t *)t, strlen(t));
    printf("\",\"null\":%s}\n", t ? "false" : "true");
}

#define GUARD 64
static uint8_t *room(size_t n)
{
    uint8_t *b = malloc(n + GUARD);
    memset(b, 'Z', n);
    memset(b + n, 0xa5, GUARD);
    return b;
}
static void told(int rc, uint8_t *b, size_t n)
{
    bool intact = true;
    for (int i = 0; i < GUARD; i++) intact = intact && b[n + i] == 0xa5;
    size_t k = 0;
    while (k < n && b[k]) k++;
    printf("{\"rc\":%d,\"intact\":%s,\"end\":%s,\"t\":\"", rc, intact ? "true" : "false", k < n ? "true" : "false");
    print_hex(b, k);
    printf("\"}\n");
    free(b);
}
/* bphex datahex size */
static void c_bphex(int c, char **v)
{
    size_t n, m = strtoul(v[2], NULL, 10);
    uint8_t *d = unhex(v[1], &n), *b = room(m);
    told(bpak_bin2hex(d, n, (char *)b, m), b, m);
    free(d);
}
static void c_bpuuid(int c, char **v)
{
    size_t n, m = strtoul(v[2], NULL, 10);
    uint8_t *d = unhex(v[1], &n), *b = room(m);
    told(bpak_uuid_to_string(d, (char *)b, m), b, m);
    free(d);
}
/* bpmeta id before datahex after size: an entry between others of 'before'
   and 'after' bytes (0: none) */
static void c_bpmeta(int c, char **v)
{
    struct bpak_header *h = calloc(1, sizeof(*h));
    struct bpak_meta_header *m, *x;
    size_t n, sz = strtoul(v[5], NULL, 10);
    uint8_t *d = unhex(v[3], &n);
    uint16_t pre = atoi(v[2]), post = atoi(v[4]);
    bpak_init_header(h);
    int rc = 0;
    if (pre) {
        rc |= bpak_add_meta(h, 1, 0, pre, &x);
        if (!rc) memset(bpak_get_meta_ptr(h, x, uint8_t), 'P', pre);
    }
    rc |= bpak_add_meta(h, idtok(v[1]), 7, n, &m);
    if (!rc && n) memcpy(bpak_get_meta_ptr(h, m, uint8_t), d, n);
    if (post && !rc) {
        rc |= bpak_add_meta(h, 2, 0, post, &x);
        if (!rc) memset(bpak_get_meta_ptr(h, x, uint8_t), 'Q', post);
    }
    if (rc) usage_error("bpmeta");
    uint8_t *b = room(sz);
    told(bpak_meta_to_string(h, m, (char *)b, sz), b, sz);
    free(d);
    free(h);
}

struct cmd misc_cmds[] = {{"bpid", c_bpid}, {"bpcrc", c_bpcrc}, {"bptree", c_bptree}, {"bptreename", c_bptreename}, {"bpfind", c_bpfind},
                          {"bpname", c_bpname}, {"bphex", c_bphex}, {"bpuuid", c_bpuuid}, {"bpmeta", c_bpmeta}, {NULL, NULL}};
