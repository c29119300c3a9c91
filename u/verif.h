/* Contract verification layer (CBMC side).
 *
 * A unit is:  requires  = the construction of arbitrary inputs (in_*) and ASSUME
 *             the call of the real function, whose loops are cut by invariants (see loops.h, generated) and whose
 *             callees are either the real code or replaced by their contracts (USE_<function> stubs below)
 *             ensures   = CHECK(...)
 * REACH marks points that must be reachable: an assertion that has to FAIL, so that a contradictory precondition or a
 * contract stub that excludes everything cannot pass for a proof.
 */
#ifndef VERIF_H
#define VERIF_H
#include <stdbool.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "id3v2lib.compat.h"
#include "modules/utils.private.h"
#include "modules/char_stream.private.h"
#include "modules/frame.private.h"
#include "modules/frame_header.private.h"
#include "modules/frame_list.private.h"
#include "modules/frames/apic_frame.private.h"
#include "modules/frames/comment_frame.private.h"
#include "modules/frames/text_frame.private.h"
#include "modules/tag.private.h"
#include "modules/tag_header.private.h"

/* no safety obligations for the contract layer itself */
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "signed-overflow"
#pragma CPROVER check disable "pointer-overflow"
#pragma CPROVER check disable "pointer-primitive"
#pragma CPROVER check disable "undefined-shift"
#define CHECK(c, label) __CPROVER_assert((c), "ensures: " label)
#define REQUIRES(c, label) __CPROVER_assert((c), "requires: " label)
/* what the unit itself relies on in the way the code is written: failing, the unit decides nothing */
#define SHAPE(c, label) __CPROVER_assert((c), "shape: " label)
#define INV(c, label) __CPROVER_assert((c), "invariant: " label)
#define ASSUME(c) __CPROVER_assume(c)
#define REACH(label) __CPROVER_assert(0, "reach: " label)

int nondet_int(void);
long nondet_long(void);
unsigned nondet_unsigned(void);
char nondet_char(void);
unsigned char nondet_uchar(void);
_Bool nondet_bool(void);
size_t nondet_size_t(void);
void *nondet_ptr(void);

#ifndef MAXLEN
#define MAXLEN 0x0FFFFFF0 /* 2^28 - 16 */
#endif

static int in_int(int lo, int hi) { int v = nondet_int(); ASSUME(lo <= v && v <= hi); return v; }
static long in_long(long lo, long hi) { long v = nondet_long(); ASSUME(lo <= v && v <= hi); return v; }
static char in_char(void) { return nondet_char(); }
static _Bool in_bool(void) { return nondet_bool(); }
/* a block of n arbitrary bytes, of exactly that size */
static char *in_bytes(int n) { return (char *) malloc(n); }

/* ---- ghost strings ------------------------------------------------------------------------------------------- */
static _Bool u_bom(const char *s, long avail)
{
    return avail >= 2 && (((unsigned char) s[0] == 0xFF && (unsigned char) s[1] == 0xFE) ||
                          ((unsigned char) s[0] == 0xFE && (unsigned char) s[1] == 0xFF));
}
static _Bool u_term(const char *s, _Bool wide, long i) { return wide ? (s[i] == 0 && s[i + 1] == 0) : s[i] == 0; }

#ifndef NSTR
#define NSTR 4
#endif
#ifndef FILL_MAX
#define FILL_MAX 4
#endif
#ifndef CAND_PQ
#define CAND_PQ 1 /* earlier results as possible terminator positions */
#endif
#ifndef NLEN
#define NLEN 3
#endif
typedef struct { const char *p; long len; _Bool wide; } gstring; /* p[0..len+term) ends at its first terminator */
static gstring GS[NSTR];
static int GSn = 0;
/* Prophecies: the j-th call of a length function returns PQ[j], chosen before anything else happens. So "no terminator
 * before the end" can be instantiated at the results of all calls to come, when a string is met. */
static long PQ[NLEN];
static int PQn = 0;
static _Bool PQinit = 0;
static void pq_init(void)
{
    if (!PQinit)
    {
        PQinit = 1;
        for (int k = 0; k < NLEN; k++) { PQ[k] = nondet_long(); ASSUME(0 <= PQ[k] && PQ[k] <= 0x20000000L); }
    }
}
/* "no terminator before len", instantiated at index i */
static void gs_fact(const char *p, long len, _Bool wide, long i)
{
    if (i >= 0 && i < len)
    {
        if (!wide) ASSUME(p[i] != 0);
        else if ((i & 1) == 0) ASSUME(!(p[i] == 0 && p[i + 1] == 0));
    }
}
static void gs_fact_all(const char *p, long len, _Bool wide)
{
    for (int k = 0; k < NLEN; k++) gs_fact(p, len, wide, PQ[k]);
    gs_fact(p, len, wide, 0); gs_fact(p, len, wide, 1);
}
/* the same for the input strings, at an index of interest to the unit */
static void gs_facts(long i)
{
    for (int k = 0; k < NSTR; k++)
        if (k < GSn) gs_fact(GS[k].p, GS[k].len, GS[k].wide, i);
}

/* an arbitrary terminated string, in a block of exactly its size (so any read behind the terminator is out of bounds) */
static char *in_string_len(long *len_out, _Bool *wide_out, long max)
{
    pq_init();
    long len = nondet_long();
    _Bool wide = nondet_bool();
    ASSUME(0 <= len && len <= max);
    if (wide) ASSUME(len >= 2 && (len & 1) == 0);
    char *p = (char *) malloc(len + (wide ? 2 : 1));
    if (wide) ASSUME(u_bom(p, len + 2));
    else ASSUME(!u_bom(p, len + 1));
    ASSUME(p[len] == 0);
    if (wide) ASSUME(p[len + 1] == 0);
    gs_fact_all(p, len, wide);
    GS[GSn].p = p; GS[GSn].len = len; GS[GSn].wide = wide;
    GSn++;
    *len_out = len; *wide_out = wide;
    return p;
}
#define U_TERM(wide) ((wide) ? 2 : 1)

/* contract of the string length functions:
 *   requires  a terminator in the block s points into
 *   ensures   the index r of the first one ("first" instantiated at every length known so far or to come) */
static long u_strlen_contract(const char *s, _Bool wide)
{
    pq_init();
    long avail = (long) __CPROVER_OBJECT_SIZE(s) - (long) __CPROVER_POINTER_OFFSET(s);
    int t = wide ? 2 : 1;
    _Bool ok = 0;
    SHAPE(PQn < NLEN, "string length: number of calls within the unit's prophecies");
    ASSUME(PQn < NLEN);
    long r = PQ[PQn];
    ASSUME(r <= avail - t && (!wide || (r & 1) == 0));
    for (int k = 0; k < NSTR; k++)
        if (k < GSn)
        {
            long c = GS[k].len;
            if (c <= avail - t && (!wide || (c & 1) == 0) && u_term(s, wide, c)) { ok = 1; ASSUME(r <= c); }
        }
    for (int k = 0; k < NLEN; k++)
        if (k < PQn && CAND_PQ)
        {
            long c = PQ[k];
            if (c <= avail - t && (!wide || (c & 1) == 0) && u_term(s, wide, c)) { ok = 1; ASSUME(r <= c); }
        }
    for (int d = 1; d <= FILL_MAX; d++)
    {
        long c = avail - d;
        if (d >= t && c >= 0 && (!wide || (c & 1) == 0) && u_term(s, wide, c)) { ok = 1; ASSUME(r <= c); }
    }
    REQUIRES(ok, "string length: the string is terminated within its block");
    ASSUME(ok);
    ASSUME(u_term(s, wide, r));
#ifndef NO_STUB_FACTS
    gs_fact_all(s, r, wide);
#endif
    PQn++;
    return r;
}

/* the length of a string again, for contracts that depend on it: the same number if it was asked for before at this
 * address and its terminator is still there, else any first terminator */
static const char *LM_p[NLEN]; static long LM_r[NLEN]; static int LM_n = 0;
static long u_strlen_again(const char *s, _Bool wide)
{
    for (int k = 0; k < NLEN; k++)
        if (k < LM_n && LM_p[k] == s && u_term(s, wide, LM_r[k])) return LM_r[k];
    return u_strlen_contract(s, wide);
}
#ifdef USE_strlen
size_t strlen(const char *s) { REQUIRES(__CPROVER_r_ok(s, 1), "strlen: readable string"); return (size_t) u_strlen_contract(s, 0); }
#endif
#ifdef USE_ID3v2_strlen
int ID3v2_strlen(const char *s)
{
    REQUIRES(__CPROVER_r_ok(s, 1), "ID3v2_strlen: readable string");
    long avail = (long) __CPROVER_OBJECT_SIZE(s) - (long) __CPROVER_POINTER_OFFSET(s);
    long r = u_strlen_contract(s, u_bom(s, avail));
    LM_p[LM_n] = s; LM_r[LM_n] = r; LM_n++;
    return (int) r;
}
#endif

/* ---- loop cutting (call-backs generated into loops.h) ---------------------------------------------------------- */
#define V_NB 6
static long VB[V_NB] = {-1, -1, -1, -1, -1, -1}; /* bounds the unit offers for iteration counts; -1: not offered */
static long V_T;                                  /* current iteration count, for the hooks */
#ifndef V_HOOK_ENTER
#define V_HOOK_ENTER(loop)
#endif
#ifndef V_HOOK_HAVOC
#define V_HOOK_HAVOC(loop, t)
#endif
#ifndef V_HOOK_STEP
#define V_HOOK_STEP(loop, t)
#endif
#ifndef V_INT_GHOST
#define V_INT_GHOST(loop, var, value) 0 /* unit specific relation of an integer to the ghost state */
#endif
#ifndef V_INT_GHOST2
#define V_INT_GHOST2(loop, var, value) 0
#endif
#ifndef V_INT_GHOST3
#define V_INT_GHOST3(loop, var, value) 0
#endif
#ifndef V_INT_GHOST4
#define V_INT_GHOST4(loop, var, value) 0
#endif
#ifndef V_INT_GHOST5
#define V_INT_GHOST5(loop, var, value) 0
#endif
#ifndef V_INT_GHOST6
#define V_INT_GHOST6(loop, var, value) 0
#endif
#ifndef V_PTR_GHOST
#define V_PTR_GHOST(loop, var, value) 0 /* unit specific value of a pointer */
#define V_PTR_GHOST_VALUE nondet_ptr()
#endif
#ifndef V_NODE_GHOST
#define V_NODE_GHOST(loop, var, value) 0
#define V_NODE_GHOST_VALUE nondet_ptr()
#endif
#ifndef V_HOOK_PRE
#define V_HOOK_PRE(loop, t) /* the unit's ghost state at iteration t, before the variables are set */
#endif
#ifndef V_BOUNDED
#define V_BOUNDED(loop) 0
#endif
/* first byte of the block a pointer points into */
#define V_BASE(ptr) ((char *) (ptr) - __CPROVER_POINTER_OFFSET(ptr))
#ifndef V_CAND0
#define V_CAND0(loop) 0 /* a candidate of the unit's own */
#endif
#ifndef V_WATCH
#define V_WATCH(ptr, upto) 0 /* content of a block the loop writes, up to a byte count, at the watched index */
#endif
#ifndef V_WATCHZ
#define V_WATCHZ(ptr, from) 0 /* zero from a byte count on, at the watched index */
#endif
#ifndef V_FNODE
#define V_FNODE(i) ((ID3v2_FrameList *) 0)
#define V_FIDX(p) (-1L)
#endif
#ifndef V_CNODE
#define V_CNODE(i) ((ID3v2_frame_list *) 0)
#define V_CIDX(p) (-1L)
#endif
#endif
