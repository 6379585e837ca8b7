/* Thin command interpreter over the bpak library: one command per line on
 * stdin, one JSON reply per line on stdout.  It decides nothing. */
#include "drv.h"

void usage_error(const char *msg)
{
    fprintf(stderr, "driver: %s\n", msg);
    exit(3);
}

static int hv(int c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    usage_error("bad hex");
    return 0;
}

uint8_t *unhex(const char *s, size_t *len)
{
    size_t n = strcmp(s, "-") == 0 ? 0 : strlen(s) / 2;
    uint8_t *b = malloc(n ? n : 1);
    for (size_t i = 0; i < n; i++)
        b[i] = hv(s[2 * i]) * 16 + hv(s[2 * i + 1]);
    *len = n;
    return b;
}

void print_hex(const uint8_t *p, size_t n)
{
    static const char d[] = "0123456789abcdef";
    for (size_t i = 0; i < n; i++) {
        putchar(d[p[i] >> 4]);
        putchar(d[p[i] & 15]);
    }
}

uint32_t idtok(const char *s) { return (uint32_t)strtoul(s, NULL, 16); }

void run_command(int argc, char **argv)
{
    struct cmd *tabs[] = {hdr_cmds, pkg_cmds, tr_cmds, misc_cmds, res_cmds, plug_cmds, lane_cmds};
    for (int t = 0; t < 7; t++)
        for (struct cmd *c = tabs[t]; c->name; c++)
            if (!strcmp(c->name, argv[0])) {
                c->fn(argc, argv);
                return;
            }
    usage_error(argv[0]);
}

int main(void)
{
    char *line = NULL;
    size_t cap = 0;
    static char *argv[MAXTOK];
    while (getline(&line, &cap, stdin) > 0) {
        int argc = 0;
        for (char *t = strtok(line, " \n"); t; t = strtok(NULL, " \n")) {
            if (argc == MAXTOK) usage_error("too many tokens");
            argv[argc++] = t;
        }
        if (!argc) continue;
        if (!strcmp(argv[0], "reset")) {
            reset_all_hdr();
            reset_all_pkg();
            reset_all_tr();
            reset_all_res(true);
            reset_all_lane();
            reset_all_plug();
            printf("{\"reset\":%s}\n", argv[1]);
            fflush(stdout);
            continue;
        }
        /* everything is let go, within a script */
        if (!strcmp(argv[0], "fresh")) {
            reset_all_hdr();
            reset_all_pkg();
            reset_all_tr();
            reset_all_res(false);
            reset_all_plug();
            printf("{\"rc\":0}\n");
            fflush(stdout);
            continue;
        }
        run_command(argc, argv);
        fflush(stdout);
    }
    reset_all_pkg();
    return 0;
}
