/* Common parts of the enumeration harnesses. */
#ifndef H_H
#define H_H
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include "model.h"

typedef int (*kp_f)(uint8_t *, uint8_t *);
typedef int (*enc_f)(uint8_t *, uint8_t *, const uint8_t *);
typedef int (*dec_f)(uint8_t *, const uint8_t *, const uint8_t *);
typedef struct {
    par_t p; void *dl; kp_f kp; enc_f enc; dec_f dec;
    size_t pkb, skb, ctb, cb, mub, rndb;
} lib_t;

lib_t lib_open(const char *so, int set, int n, int gen);
void *lib_sym(lib_t *L, const char *name);        /* NULL when absent */

/* scripted random source */
extern long rnd_calls, rnd_used, rnd_fail_call;    /* rnd_fail_call: index of the request that fails, -1 none */
extern int rnd_fail_code, rnd_fail_fill;               /* what the failing request returns; 1, 2: fills half, all of the buffer before */
void rnd_feed(const uint8_t *b, size_t n);
extern int rnd_over;                               /* more bytes drawn than fed */

/* bookkeeping */
void h_start(void);
void h_case(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void h_fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void h_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void h_sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
extern long *h_callsp;                     /* lies in the case file: its growth shows progress */
#define h_calls (*h_callsp)
extern long h_cases, h_aux;      /* cases, calls of the code under test, extra counter */
extern int h_fails;
extern long h_cmps;                       /* comparisons of results of the real code with the oracle */
static inline int h_ne(const void *a, const void *b, size_t n) { h_cmps++; return memcmp(a, b, n); }
void h_count(const char *name, long v);   /* additional named counter */
void h_done(void) __attribute__((noreturn));
extern int h_thorough;
extern uint64_t h_seed;
extern int h_shard, h_nshard;             /* this process' share of the enumeration */
int  h_mine(void);                        /* advances the global case index, true when ours */

void h_bytes(uint8_t *out, size_t n, const char *label, ...) __attribute__((format(printf, 3, 4))); /* base inputs */
long h_diff(const uint8_t *a, const uint8_t *b, size_t n);   /* first difference or -1 */
#endif
