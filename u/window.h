/* Lists of any length: windows.
 *
 * A list of any length is represented by a window: up to NK concrete nodes at arbitrary increasing positions IX[], the
 * first and the last among them; between them the list goes on through nodes that are not represented (GAP: a pointer
 * nobody may dereference). Every unit is proved for all windows, so in particular for those that hold the nodes an
 * iteration touches and any other node one cares to watch. */
#ifdef COMPAT
#define V_CNODE(i) lnode(i)
#define V_CIDX(p) lidx(p)
#else
#define V_FNODE(i) lnode(i)
#define V_FIDX(p) lidx(p)
#endif
#ifndef V_HOOK_HAVOC
#define V_HOOK_HAVOC(loop, t) l_havoc(t)
#endif
#define V_HOOK_STEP(loop, t) l_step(t)
#include "verif.h"
#ifdef COMPAT
typedef ID3v2_frame_list LT;
typedef ID3v2_frame FT;
#define FID(f) ((f)->frame_id)
#else
typedef ID3v2_FrameList LT;
typedef ID3v2_Frame FT;
#define FID(f) ((f)->header->id)
#endif
#ifndef NK
#define NK 6
#endif
/* not in the public header */
ID3v2_frame_list *new_frame_list();
void add_to_list(ID3v2_frame_list *main, ID3v2_frame *frame);
void add_uniq_to_list(ID3v2_frame_list *head, ID3v2_frame *frame);
ID3v2_frame *get_from_list(ID3v2_frame_list *list, const char *frame_id);
#define SMALL (MAXLEN < 100)
static LT *ND[NK], *NX[NK], *GAP, *HEAD; static FT *FR[NK]; static long IX[NK]; static _Bool MT[NK]; static long CN[NK];
static int KK;         /* window nodes */
static long NF, NN, M; /* frames, nodes, first match (NF: none) */
static char ID[5];
static LT *lnode(long i)
{
    if (i == NN) return NULL;
    for (int s = 0; s < NK; s++) if (s < KK && IX[s] == i) return ND[s];
    return GAP;
}
static long lidx(const LT *p)
{
    for (int s = 0; s < NK; s++) if (s < KK && ND[s] == p) return IX[s];
    return -1;
}
static int slot(long i)
{
    for (int s = 0; s < NK; s++) if (s < KK && IX[s] == i) return s;
    return -1;
}
/* a search that goes on to the loop's condition after its match: flag, frame and node found so far (V_T iterations done) */
#define FOUND_ (V_T > M && M < NF)
static FT *found_frame(void) { return FOUND_ && slot(M) >= 0 ? FR[slot(M)] : (FT *) NULL; }
static LT *found_node(void) { return FOUND_ && slot(M) >= 0 ? ND[slot(M)] : (LT *) NULL; }
#ifndef OWN_PTR_GHOST
#undef V_PTR_GHOST
#undef V_PTR_GHOST_VALUE
#define V_PTR_GHOST(loop, var, value) ((value) == (void *) found_frame())
#define V_PTR_GHOST_VALUE ((void *) found_frame())
#define V_NODE_GHOST(loop, var, value) ((value) == (void *) found_node())
#define V_NODE_GHOST_VALUE ((void *) found_node())
#endif
#ifndef OWN_INT_GHOST
#undef V_INT_GHOST
#undef V_INT_GHOST2
#define V_INT_GHOST(loop, var, value) ((value) == (long) FOUND_)
#define V_INT_GHOST2(loop, var, value) ((value) == (long) !FOUND_)
#endif
static _Bool eqid(const char *a, const char *b) { return a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3]; }
static FT *in_frame(void)
{
    FT *f = (FT *) malloc(sizeof(FT));
#ifndef COMPAT
    f->header = (ID3v2_FrameHeader *) malloc(sizeof(ID3v2_FrameHeader));
    f->data = NULL;
#else
    f->data = (char *) malloc(1);
#endif
    return f;
}
static void free_in_frame(FT *f)
{
#ifndef COMPAT
    free(f->header);
#else
    free(f->data);
#endif
    free(f);
}
static void in_list(void)
{
    LT *g = (LT *) malloc(sizeof(LT)); free(g); GAP = g;
    KK = in_int(1, NK);
    for (int s = 0; s < NK; s++) if (s < KK) ND[s] = (LT *) malloc(sizeof(LT));
    HEAD = ND[0]; IX[0] = 0;
    NN = 1; NF = 0;
    if (KK == 1 && in_bool())
    {
        HEAD->frame = NULL; HEAD->next = NULL; HEAD->start = NULL; NX[0] = NULL;
#ifdef COMPAT
        HEAD->last = NULL;
#endif
        return;
    }
    for (int s = 1; s < NK; s++)
        if (s < KK) { IX[s] = nondet_long(); ASSUME(IX[s] > IX[s - 1] && IX[s] < 0x7ffffff0L); if (SMALL) ASSUME(IX[s] == s); }
    for (int s = 0; s < NK; s++)
        if (s < KK)
        {
            FR[s] = in_frame(); ND[s]->frame = FR[s]; ND[s]->start = HEAD;
#ifdef COMPAT
            ND[s]->last = s == 0 ? ND[KK - 1] : (LT *) NULL;
#endif
            NX[s] = s + 1 == KK ? (LT *) NULL : IX[s + 1] == IX[s] + 1 ? ND[s + 1] : GAP;
            ND[s]->next = NX[s];
        }
    NF = NN = IX[KK - 1] + 1;
}
/* first match by identifier */
static void in_match_id(void)
{
    for (int k = 0; k < 4; k++) { ID[k] = in_char(); ASSUME(ID[k] != 0); }
    ID[4] = 0;
    M = in_long(0, NF); ASSUME(M == NF || slot(M) >= 0);
    for (int s = 0; s < NK; s++)
        if (s < KK && NF > 0) { MT[s] = eqid(FID(FR[s]), ID); if (IX[s] < M) ASSUME(!MT[s]); if (IX[s] == M) ASSUME(MT[s]); }
}
/* the only match, by frame */
static void in_match_frame(void)
{
    M = in_long(0, NF); ASSUME(M == NF || slot(M) >= 0);
    for (int s = 0; s < NK; s++) MT[s] = s < KK && NF > 0 && IX[s] == M;
}
static _Bool node_same(int s)
{
    return __CPROVER_r_ok(ND[s], sizeof(LT)) && ND[s]->next == NX[s] && ND[s]->frame == (NF > 0 ? FR[s] : (FT *) NULL)
#ifdef COMPAT
        && ((NF > 0) == (ND[s]->start != NULL) || s != 0)
#else
        && ((NF > 0) == (ND[s]->start != NULL))
#endif
        ;
}
static void check_same(void)
{
    for (int s = 0; s < NK; s++) if (s < KK) CHECK(node_same(s), "the list is left as it was");
}
static void bounds(void) { VB[0] = M; VB[1] = NF; VB[2] = NF > 0 ? NF - 1 : 0; VB[3] = NN; VB[4] = M < NF ? M : NN; VB[5] = M < NF ? M + 1 : NN; }
static void free_nodes(void) { for (int s = 0; s < NK; s++) if (s < KK) free(ND[s]); }
static void free_frames(void) { for (int s = 0; s < NK; s++) if (s < KK && NF > 0) free_in_frame(FR[s]); }

