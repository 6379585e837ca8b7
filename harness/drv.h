#ifndef DRV_H
#define DRV_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <sys/types.h>
#include <bpak/bpak.h>
#define MAXTOK 4096
/* replies and working objects belong to the lane (drv_lane.c) that runs */
#define LOCAL static __thread
extern __thread FILE *lane_out;
extern __thread char *lane_tok;
#define printf(...) fprintf(lane_out ? lane_out : stdout, __VA_ARGS__)
#define putchar(c) fputc(c, lane_out ? lane_out : stdout)
#define strtok(s, d) strtok_r(s, d, &lane_tok)
/* where another lane may go on */
void lane_turn(void);
void run_command(int argc, char **argv);
struct cmd {
    const char *name;
    void (*fn)(int argc, char **argv);
};
extern struct cmd hdr_cmds[], pkg_cmds[], tr_cmds[], misc_cmds[], res_cmds[], plug_cmds[], lane_cmds[];
void usage_error(const char *msg);
/* decode hex ("-" is empty) into a fresh exact-size heap buffer */
uint8_t *unhex(const char *s, size_t *len);
void print_hex(const uint8_t *p, size_t n);
void reset_all_hdr(void);
void reset_all_pkg(void);
void reset_all_tr(void);
void reset_all_res(bool base);
void reset_all_plug(void);
void reset_all_lane(void);
struct bpak_header *hdr_slot(const char *tok);
uint32_t idtok(const char *s);
#endif
