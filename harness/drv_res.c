/* What is held: the allocator a program can install, open files, mappings;
 * keys handed to the caller. */
#include "drv.h"
#include <dirent.h>
#include <unistd.h>
#include <bpak/crypto.h>
#include <bpak/key.h>
#include <bpak/keystore.h>
extern size_t __sanitizer_get_current_allocated_bytes(void);

#define MARK 0x6b616c6c6f637633ull
#define FRONT 32
static bool installed;
static long live, calls, refused, refuse_at, foreign;
static long files0, maps0; /* lost by scripts before this one */

static void *count_calloc(size_t n, size_t m)
{
    calls++;
    if (refuse_at && calls == refuse_at) {
        refused++;
        return NULL;
    }
    uint8_t *p = calloc(1, n * m + FRONT);
    if (!p) return NULL;
    *(uint64_t *)p = MARK;
    live++;
    return p + FRONT;
}

static void count_free(void *q)
{
    if (!q) return;
    uint8_t *p = (uint8_t *)q - FRONT;
    /* nothing this allocator gave: the sanitizer tells */
    if (*(uint64_t *)p != MARK) foreign++;
    else live--;
    *(uint64_t *)p = 0;
    free(p);
}

static long files(void)
{
    DIR *d = opendir("/proc/self/fd");
    struct dirent *e;
    long n = -4; /* standard streams and the directory itself */
    while (d && (e = readdir(d)))
        if (e->d_name[0] != '.') n++;
    if (d) closedir(d);
    return n;
}

static long maps(void)
{
    static char line[4096], exe[1024];
    FILE *f = fopen("/proc/self/maps", "r");
    ssize_t m = readlink("/proc/self/exe", exe, sizeof(exe) - 1);
    long n = 0;
    exe[m > 0 ? m : 0] = 0;
    while (f && fgets(line, sizeof(line), f)) {
        char *p = strchr(line, '/');
        if (p && !strstr(p, ".so") && strncmp(p, exe, strlen(exe)) && strncmp(p, "/usr/", 5) && strncmp(p, "/lib", 4)) n++;
    }
    if (f) fclose(f);
    return n;
}

/* alloc n : the allocator is installed; the n-th request from here on is refused */
static void c_alloc(int c, char **v)
{
    if (!installed) bpak_set_calloc_free(count_calloc, count_free);
    if (!installed) live = 0;
    installed = true;
    calls = refused = 0;
    refuse_at = atol(v[1]);
    printf("{\"rc\":0}\n");
}

static void c_res(int c, char **v)
{
    refuse_at = 0;
    printf("{\"rc\":0,\"files\":%ld,\"maps\":%ld,\"live\":%ld,\"calls\":%ld,\"refused\":%ld,\"foreign\":%ld}\n", files() - files0, maps() - maps0, live, calls, refused, foreign);
}

static void c_heap(int c, char **v) { printf("{\"rc\":0,\"heap\":%zu,\"files\":%ld,\"maps\":%ld,\"live\":%ld}\n", __sanitizer_get_current_allocated_bytes(), files() - files0, maps() - maps0, live); }

/* keys ------------------------------------------------------------------ */
#define NK 8
LOCAL struct bpak_key *K[NK];
static void key_out(int rc, struct bpak_key *k)
{
    uint32_t h = 2166136261u;
    for (int i = 0; k && i < (int)k->size; i++) h = (h ^ k->data[i]) * 16777619u;
    printf("{\"rc\":%d", rc);
    if (k) printf(",\"kind\":%d,\"size\":%d,\"key\":\"%08x\"", (int)k->kind, (int)k->size, h);
    printf("}\n");
}
static void kj(int n, int rc, struct bpak_key *k)
{
    if (rc == 0) K[n] = k;
    key_out(rc, K[n]);
}
static void c_kfree(int c, char **v)
{
    int n = atoi(v[1]) % NK;
    key_out(0, K[n]);
    bpak_free(K[n]);
    K[n] = NULL;
}
/* kget n pub|pri path, kget n parse hex, kget n store file ksid keyid */
static void c_kget(int c, char **v)
{
    struct bpak_key *k = NULL;
    int n = atoi(v[1]) % NK, rc = -1;
    if (K[n]) usage_error("key slot in use");
    if (!strcmp(v[2], "pub")) rc = bpak_crypto_load_public_key(v[3], &k);
    else if (!strcmp(v[2], "pri")) rc = bpak_crypto_load_private_key(v[3], &k);
    else if (!strcmp(v[2], "store")) rc = bpak_keystore_load_key_from_file(v[3], idtok(v[4]), idtok(v[5]), NULL, NULL, &k);
    else if (!strcmp(v[2], "parse")) {
        size_t m;
        uint8_t *b = unhex(v[3], &m);
        rc = bpak_crypto_parse_public_key(b, m, &k);
        free(b);
    } else usage_error("kget");
    kj(n, rc, k);
}

void reset_all_res(bool base)
{
    for (int n = 0; n < NK; n++) {
        if (K[n]) bpak_free(K[n]);
        K[n] = NULL;
    }
    if (installed) bpak_set_calloc_free(calloc, free);
    installed = false;
    live = foreign = refuse_at = calls = refused = 0;
    if (base) {
        files0 = files();
        maps0 = maps();
    }
}

struct cmd res_cmds[] = {{"alloc", c_alloc}, {"res", c_res}, {"heap", c_heap}, {"kget", c_kget}, {"kfree", c_kfree}, {NULL, NULL}};
