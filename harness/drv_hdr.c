/* In-memory header operations. */
#include "drv.h"
#include <bpak/id.h>
#include <bpak/utils.h>

#define NH 8
LOCAL struct bpak_header *H[NH];

struct bpak_header *hdr_slot(const char *tok)
{
    int i = atoi(tok);
    if (i < 0 || i >= NH) usage_error("slot");
    if (!H[i]) {
        H[i] = malloc(sizeof(struct bpak_header));
        memset(H[i], 0xa5, sizeof(struct bpak_header));
    }
    return H[i];
}

void reset_all_hdr(void)
{
    for (int i = 0; i < NH; i++) {
        free(H[i]);
        H[i] = NULL;
    }
}

/* Abstract projection of a header.  Reads the table directly, bounded. */
static uint64_t fnv(const uint8_t *p, size_t n)
{
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < n; i++) h = (h ^ p[i]) * 1099511628211ull;
    return h;
}

static void proj(struct bpak_header *h)
{
    int n = 0;
    printf("\"m\":[");
    for (int i = 0; i < BPAK_MAX_META; i++) {
        struct bpak_meta_header m = h->meta[i];
        if (!m.id) {
            /* anything behind the first free slot is listed as a stray */
            bool used = false;
            for (int j = i; j < BPAK_MAX_META; j++) used |= h->meta[j].id != 0;
            if (!used) break;
        }
        printf("%s{\"i\":\"%08x\",\"r\":\"%08x\",\"s\":%u,\"o\":%u,\"d\":\"", n++ ? "," : "", m.id,
               m.part_id_ref, m.size, m.offset);
        if ((unsigned)m.offset + m.size > BPAK_METADATA_BYTES)
            printf("oob");
        else if (m.size <= 16)
            print_hex(&h->metadata[m.offset], m.size);
        else
            printf("#%016llx", (unsigned long long)fnv(&h->metadata[m.offset], m.size));
        printf("\"}");
    }
    n = 0;
    printf("],\"p\":[");
    for (int i = 0; i < BPAK_MAX_PARTS; i++) {
        struct bpak_part_header p = h->parts[i];
        if (!p.id) {
            bool used = false;
            for (int j = i; j < BPAK_MAX_PARTS; j++) used |= h->parts[j].id != 0;
            if (!used) break;
        }
        printf("%s{\"i\":\"%08x\",\"s\":%llu,\"o\":%llu,\"t\":%llu,\"d\":%u,\"f\":%u}", n++ ? "," : "", p.id,
               (unsigned long long)p.size, (unsigned long long)p.offset,
               (unsigned long long)p.transport_size, p.pad_bytes, p.flags);
    }
    /* everything that is neither table nor metadata nor signature */
    uint8_t *b = (uint8_t *)h;
    size_t o = offsetof(struct bpak_header, hash_kind);
    uint64_t x = fnv(b, 8) ^ fnv(b + o, offsetof(struct bpak_header, signature) - o);
    uint64_t s = fnv(b + offsetof(struct bpak_header, signature), 514);
    /* free slots that are not blank */
    int r = 0;
    for (int i = 0; i < BPAK_MAX_META; i++) {
        static const struct bpak_meta_header blank;
        if (!h->meta[i].id && memcmp(&h->meta[i], &blank, sizeof(blank))) r++;
    }
    for (int i = 0; i < BPAK_MAX_PARTS; i++) {
        static const struct bpak_part_header blank;
        if (!h->parts[i].id && memcmp(&h->parts[i], &blank, sizeof(blank))) r++;
    }
    printf("],\"x\":\"%016llx\",\"g\":\"%016llx\",\"left\":%d", (unsigned long long)x, (unsigned long long)s, r);
}

static void state(struct bpak_header *h, int rc)
{
    printf("{\"rc\":%d,", rc);
    proj(h);
    printf("}\n");
}

static void c_hinit(int c, char **v)
{
    struct bpak_header *h = hdr_slot(v[1]);
    int rc = bpak_init_header(h);
    state(h, rc);
}
static void c_hload(int c, char **v)
{
    struct bpak_header *h = hdr_slot(v[1]);
    size_t n;
    uint8_t *b = unhex(v[2], &n);
    if (n != sizeof(*h)) usage_error("header size");
    memcpy(h, b, n);
    free(b);
    printf("{\"rc\":0}\n");
}
static void c_hraw(int c, char **v)
{
    printf("{\"raw\":\"");
    print_hex((uint8_t *)hdr_slot(v[1]), sizeof(struct bpak_header));
    printf("\"}\n");
}
/* addmeta slot id ref size fillhex : the caller's bytes go in only on success */
static void c_addmeta(int c, char **v)
{
    struct bpak_header *h = hdr_slot(v[1]);
    struct bpak_meta_header *m = NULL;
    unsigned size = atoi(v[4]);
    size_t n;
    uint8_t *b = unhex(v[5], &n);
    int rc = bpak_add_meta(h, idtok(v[2]), idtok(v[3]), size, &m);
    if (rc == 0) {
        if (m < h->meta || m >= h->meta + BPAK_MAX_META || (unsigned)m->offset + size > BPAK_METADATA_BYTES) {
            printf("{\"rc\":0,\"wild\":1}\n");
            free(b);
            return;
        }
        uint8_t *d = bpak_get_meta_ptr(h, m, uint8_t);
        for (unsigned i = 0; i < size; i++) d[i] = n ? b[i % n] : 0;
    }
    free(b);
    state(h, rc);
}
static void c_getmeta(int c, char **v)
{
    struct bpak_header *h = hdr_slot(v[1]);
    struct bpak_meta_header *m = NULL;
    int rc;
    if (!strcmp(v[3], "any"))
        rc = bpak_get_meta_anyref(h, idtok(v[2]), &m);
    else
        rc = bpak_get_meta(h, idtok(v[2]), idtok(v[3]), &m);
    printf("{\"rc\":%d,\"k\":%ld,", rc, rc == 0 && m ? (long)(m - h->meta) + 1 : 0L);
    proj(h);
    printf("}\n");
}
static void c_delmeta(int c, char **v)
{
    struct bpak_header *h = hdr_slot(v[1]);
    struct bpak_meta_header *m = NULL;
    int rc = bpak_get_meta(h, idtok(v[2]), idtok(v[3]), &m);
    if (rc == 0) bpak_del_meta(h, m);
    state(h, rc);
}
/* addpart slot id size pad flags tsize */
static void c_addpart(int c, char **v)
{
    struct bpak_header *h = hdr_slot(v[1]);
    struct bpak_part_header *p = NULL;
    int rc = bpak_add_part(h, idtok(v[2]), &p);
    bool blank = true;
    if (rc == 0) {
        if (p < h->parts || p >= h->parts + BPAK_MAX_PARTS) {
            printf("{\"rc\":0,\"wild\":1}\n");
            return;
        }
        blank = !p->size && !p->offset && !p->transport_size && !p->pad_bytes && !p->flags;
        p->size = strtoull(v[3], NULL, 10);
        p->pad_bytes = atoi(v[4]);
        p->flags = atoi(v[5]);
        p->transport_size = strtoull(v[6], NULL, 10);
    }
    printf("{\"rc\":%d,\"blank\":%s,", rc, blank ? "true" : "false");
    proj(h);
    printf("}\n");
}
static void c_delpart(int c, char **v)
{
    struct bpak_header *h = hdr_slot(v[1]);
    struct bpak_part_header *p = NULL;
    int rc = bpak_get_part(h, idtok(v[2]), &p);
    if (rc == 0) bpak_del_part(h, p);
    state(h, rc);
}
static void c_getpart(int c, char **v)
{
    struct bpak_header *h = hdr_slot(v[1]);
    struct bpak_part_header *p = NULL;
    int rc = bpak_get_part(h, idtok(v[2]), &p);
    if (rc == 0 && p)
        printf("{\"rc\":0,\"k\":%ld,\"off\":%lld,\"sz\":%llu,\"szn\":%llu,", (long)(p - h->parts) + 1,
               (long long)bpak_part_offset(h, p), (unsigned long long)bpak_part_size(p),
               (unsigned long long)bpak_part_size_wo_pad(p));
    else
        printf("{\"rc\":%d,\"k\":0,\"off\":0,\"sz\":0,\"szn\":0,", rc);
    proj(h);
    printf("}\n");
}
static void c_valid(int c, char **v) { struct bpak_header *h = hdr_slot(v[1]); state(h, bpak_valid_header(h)); }
static void c_addtm(int c, char **v)
{
    struct bpak_header *h = hdr_slot(v[1]);
    int rc = bpak_add_transport_meta(h, idtok(v[2]), idtok(v[3]), idtok(v[4]));
    state(h, rc);
}
static void c_setsig(int c, char **v)
{
    struct bpak_header *h = hdr_slot(v[1]);
    size_t n;
    uint8_t *b = unhex(v[2], &n);
    memset(h->signature, 0, sizeof(h->signature));
    memcpy(h->signature, b, n > 512 ? 512 : n);
    h->signature_sz = atoi(v[3]);
    free(b);
    state(h, 0);
}
/* copyz slot bufsize */
static void c_copyz(int c, char **v)
{
    struct bpak_header *h = hdr_slot(v[1]);
    size_t size = strtoul(v[2], NULL, 10);
    uint8_t *b = malloc(size ? size : 1);
    int rc = bpak_copyz_signature(h, b, &size);
    printf("{\"rc\":%d,\"n\":%lu,\"sig\":\"", rc, rc == 0 ? (unsigned long)size : 0ul);
    if (rc == 0) print_hex(b, size);
    bool z = h->signature_sz == 0;
    for (int i = 0; i < 512; i++) z &= h->signature[i] == 0;
    printf("\",\"z\":%s,", z ? "true" : "false");
    proj(h);
    printf("}\n");
    free(b);
}
static void c_hcopy(int c, char **v)
{
    struct bpak_header *d = hdr_slot(v[1]), *h = hdr_slot(v[2]);
    memcpy(d, h, sizeof(*h));
    state(h, 0);
}
static void c_setids(int c, char **v)
{
    struct bpak_header *h = hdr_slot(v[1]);
    int rc = bpak_set_key_id(h, idtok(v[2]));
    rc |= bpak_set_keystore_id(h, idtok(v[3]));
    printf("{\"rc\":%d,\"kid\":\"%08x\",\"sid\":\"%08x\"}\n", rc, h->key_id, h->keystore_id);
}

struct cmd hdr_cmds[] = {
    {"hinit", c_hinit}, {"hload", c_hload}, {"hraw", c_hraw}, {"addmeta", c_addmeta},
    {"getmeta", c_getmeta}, {"delmeta", c_delmeta}, {"addpart", c_addpart}, {"delpart", c_delpart},
    {"getpart", c_getpart}, {"valid", c_valid}, {"addtm", c_addtm}, {"setsig", c_setsig},
    {"copyz", c_copyz}, {"setids", c_setids}, {"hcopy", c_hcopy}, {NULL, NULL}};
