/* Lanes: sequences of commands, each with objects of its own, that go on in
 * turns.  Only one of them runs at a time; who is next at each turn is what the
 * schedule says. */
#include "drv.h"
#include <pthread.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <bpak/crypto.h>
#include <lzma.h>

#define MAXLANES 8
#define MAXCMDS 400
__thread FILE *lane_out;
__thread char *lane_tok;
static __thread int me = -1;

static struct lane {
    int n;
    char *cmd[MAXCMDS];
    char *out[MAXCMDS];
    bool over;
} L[MAXLANES];
static int nlanes, cur;
static long turns, switches;
static const char *sched;
static size_t sched_n;
static uint64_t rnd;
static long alone[MAXLANES], stint[MAXLANES], taken[MAXLANES];   /* turns */
static int nalone;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv[MAXLANES];
static char *order;
static size_t order_n, order_cap;

/* the one to go on with: the schedule is a ring of lane numbers, or "r" and a number to draw from,
 * or "p" and how far (of 1000) each one gets before it has to wait for the others to end */
static int next(void)
{
    int n;
    long t = turns++;
    if (sched[0] == 'r') {
        rnd = rnd * 6364136223846793005ull + 1442695040888963407ull;
        n = (rnd >> 33) % nlanes;
    } else if (sched[0] == 'p') {
        for (n = 0; n < nlanes - 1 && (L[n].over || taken[n] >= stint[n]); n++)
            ;
        for (; n > 0 && L[n].over; n--)
            ;
    } else n = (sched[t % sched_n] - '0') % nlanes;
    for (int k = 0; k < nlanes; k++, n = (n + 1) % nlanes)
        if (!L[n].over) {
            taken[n]++;
            return n;
        }
    return -1;
}

static void hand(void)
{
    int n = next();
    if (n == me) return;
    switches++;
    cur = n;
    if (n >= 0) pthread_cond_signal(&cv[n]);
    if (L[me].over) return;
    while (cur != me) pthread_cond_wait(&cv[me], &mu);
}

void lane_turn(void)
{
    if (me >= 0) hand();
}

static void *lane(void *arg)
{
    pthread_mutex_lock(&mu);
    me = (intptr_t)arg;
    while (cur != me) pthread_cond_wait(&cv[me], &mu);
    struct lane *l = &L[me];
    char **argv = malloc(sizeof(char *) * MAXTOK);
    for (int k = 0; k < l->n; k++) {
        int argc = 0;
        size_t n;
        lane_turn();
        lane_out = open_memstream(&l->out[k], &n);
        for (char *t = strtok(l->cmd[k], " "); t; t = strtok(NULL, " ")) {
            if (argc == MAXTOK) usage_error("too many tokens");
            argv[argc++] = t;
        }
        run_command(argc, argv);
        fclose(lane_out);
        lane_out = NULL;
        if (order_n + 1 >= order_cap) order = realloc(order, order_cap = order_cap * 2 + 100);
        order[order_n++] = '0' + me;
    }
    free(argv);
    reset_all_hdr();
    reset_all_pkg();
    reset_all_tr();
    l->over = true;
    hand();
    me = -1;
    pthread_mutex_unlock(&mu);
    return NULL;
}

/* lane k command... */
static void c_lane(int c, char **v)
{
    int k = atoi(v[1]);
    if (k < 0 || k >= MAXLANES || L[k].n == MAXCMDS) usage_error("lane");
    size_t n = 1;
    for (int i = 2; i < c; i++) n += strlen(v[i]) + 1;
    char *s = malloc(n), *p = s;
    for (int i = 2; i < c; i++) p += sprintf(p, "%s%s", i > 2 ? " " : "", v[i]);
    L[k].cmd[L[k].n++] = s;
    if (k >= nlanes) nlanes = k + 1;
    printf("{\"rc\":0}\n");
}

/* go schedule */
static void c_go(int c, char **v)
{
    pthread_t th[MAXLANES];
    sched = v[1];
    sched_n = strlen(sched);
    rnd = sched[0] == 'r' ? strtoull(sched + 1, NULL, 10) * 2 + 1 : 0;
    for (int i = 0; i < 5; i++) rnd = rnd * 6364136223846793005ull + 1442695040888963407ull;
    if (sched[0] == 'p') {
        char *p = (char *)sched;
        for (int k = 0; k < nlanes; k++)
            stint[k] = *p ? strtol(p + 1, &p, 10) * alone[k] / 1000 + 1 : 0;
    }
    memset(taken, 0, sizeof(taken));
    turns = switches = order_n = 0;
    pthread_mutex_lock(&mu);
    cur = -1;
    for (int k = 0; k < nlanes; k++) {
        L[k].over = false;
        pthread_cond_init(&cv[k], NULL);
        if (pthread_create(&th[k], NULL, lane, (void *)(intptr_t)k)) usage_error("thread");
    }
    cur = next();
    pthread_cond_signal(&cv[cur]);
    pthread_mutex_unlock(&mu);
    for (int k = 0; k < nlanes; k++) pthread_join(th[k], NULL);
    printf("{\"rc\":0,\"turns\":%ld,\"switches\":%ld,\"order\":\"%.*s\",\"lanes\":[", turns, switches, (int)order_n, order ? order : "");
    for (int k = 0; k < nlanes; k++) {
        printf("%s[", k ? "," : "");
        for (int i = 0; i < L[k].n; i++) {
            size_t n = strlen(L[k].out[i]);
            while (n && L[k].out[i][n - 1] == '\n') n--;
            printf("%s%.*s", i ? "," : "", (int)n, L[k].out[i]);
            free(L[k].out[i]);
            free(L[k].cmd[i]);
        }
        printf("]");
        L[k].n = 0;
        pthread_cond_destroy(&cv[k]);
    }
    if (nlanes == 1 && nalone < MAXLANES) alone[nalone++] = turns;
    nlanes = 0;
    printf("]}\n");
}
void reset_all_lane(void) { nalone = 0; }

/* turns where the library asks the system, the compressors, the hash functions or for memory */
#define TURNS(type, name, params, args) \
    type __real_##name params;          \
    type __wrap_##name params           \
    {                                   \
        lane_turn();                    \
        type r_ = __real_##name args;   \
        lane_turn();                    \
        return r_;                      \
    }
TURNS(size_t, fread, (void *p, size_t s, size_t n, FILE *f), (p, s, n, f))
TURNS(size_t, fwrite, (const void *p, size_t s, size_t n, FILE *f), (p, s, n, f))
TURNS(int, fseek, (FILE * f, long o, int w), (f, o, w))
TURNS(FILE *, fopen, (const char *n, const char *m), (n, m))
TURNS(int, ftruncate, (int f, off_t n), (f, n))
TURNS(int, lzma_code, (lzma_stream * s, lzma_action a), (s, a))
TURNS(int, bpak_hash_init, (struct bpak_hash_context * c, enum bpak_hash_kind k), (c, k))
TURNS(int, bpak_hash_update, (struct bpak_hash_context * c, const uint8_t *b, size_t n), (c, b, n))
TURNS(int, bpak_hash_final, (struct bpak_hash_context * c, uint8_t *b, size_t r, size_t *n), (c, b, r, n))
TURNS(void *, bpak_calloc, (size_t n, size_t m), (n, m))
TURNS(int, bpak_crypto_verify, (const uint8_t *s, size_t n, const uint8_t *h, size_t m, enum bpak_hash_kind k, struct bpak_key *p, bool *v), (s, n, h, m, k, p, v))
TURNS(int, bpak_crypto_sign, (const uint8_t *h, size_t m, enum bpak_hash_kind k, struct bpak_key *p, uint8_t *s, size_t *n), (h, m, k, p, s, n))

/* the same for functions whose types are not needed here: integers and pointers all the way */
#define W long
#define TURNS_AS_IS(name)                                                              \
    W __real_##name(W a, W b, W c, W d, W e, W f, W g, W h);                           \
    W __wrap_##name(W a, W b, W c, W d, W e, W f, W g, W h)                            \
    {                                                                                  \
        lane_turn();                                                                   \
        W r_ = __real_##name(a, b, c, d, e, f, g, h);                                  \
        lane_turn();                                                                   \
        return r_;                                                                     \
    }
TURNS_AS_IS(bpak_crypto_load_public_key)
TURNS_AS_IS(bpak_crypto_load_private_key)
TURNS_AS_IS(bpak_crypto_parse_public_key)
TURNS_AS_IS(mbedtls_pk_init)
TURNS_AS_IS(mbedtls_pk_free)
TURNS_AS_IS(mbedtls_pk_parse_key)
TURNS_AS_IS(mbedtls_pk_parse_keyfile)
TURNS_AS_IS(mbedtls_pk_parse_public_key)
TURNS_AS_IS(mbedtls_pk_parse_public_keyfile)
TURNS_AS_IS(mbedtls_pk_sign)
TURNS_AS_IS(mbedtls_pk_verify)
TURNS_AS_IS(mbedtls_pk_write_pubkey_der)
TURNS_AS_IS(mbedtls_pk_write_key_der)
TURNS_AS_IS(mbedtls_ctr_drbg_seed)
TURNS_AS_IS(fclose)
TURNS_AS_IS(fflush)
TURNS_AS_IS(fileno)
TURNS_AS_IS(ftell)

struct cmd lane_cmds[] = {{"lane", c_lane}, {"go", c_go}, {NULL, NULL}};
