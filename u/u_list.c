/* Units: the frame lists (main interface, and UNIT_c_*: the compatibility layer's). */
#define NSTR 1
#define NLEN 1
#if defined(UNIT_c_get) || defined(UNIT_c_add) || defined(UNIT_c_uniq) || defined(UNIT_c_free)
#define COMPAT
#endif
#include "window.h"
static void l_havoc(long t);
static void l_step(long t);
#define WINDOW(t) ASSUME(((t) == NN || slot(t) >= 0) && ((t) == 0 || slot((t) - 1) >= 0))
#include "loops.h"

#if defined(UNIT_l_get) || defined(UNIT_c_get)
static void l_havoc(long t) { WINDOW(t); }
static void l_step(long t) { check_same(); }
void harness(void)
{
    in_list(); in_match_id(); bounds();
#ifdef COMPAT
    FT *f = get_from_list(HEAD, ID);
#else
    FT *f = FrameList_get_frame_by_id(HEAD, ID);
#endif
    CHECK(f == (M == NF ? (FT *) NULL : FR[slot(M)]), "the first frame with the identifier, or nothing");
    check_same();
    if (f != NULL && M > 1000) REACH("found");
    if (f == NULL && NF > 1000) REACH("not found");
    if (NF == 0) REACH("empty");
    free_nodes(); free_frames();
}
#endif

#ifdef UNIT_l_getall
/* cnt(i): matches before position i */
static long cnt(long i)
{
    if (i == NN) return NF == 0 ? 0 : CN[KK - 1] + MT[KK - 1];
    return CN[slot(i)];
}
static long ADDN = 0; static LT *ADDL; static FT *WF; static int W;
void FrameList_add_frame(ID3v2_FrameList *list, ID3v2_Frame *frame)
{
    REQUIRES(__CPROVER_w_ok(list, sizeof(*list)) && slot(lidx(list)) < 0, "FrameList_add_frame: to a list of its own");
    REQUIRES(frame != NULL, "FrameList_add_frame: a frame");
    REQUIRES(ADDL == NULL || ADDL == list, "FrameList_add_frame: always to the same list");
    ADDL = list;
    if (MT[W] && ADDN == CN[W]) WF = frame;
    ADDN++;
}
static _Bool sub_inv(long t) { return ADDN == cnt(t) && (NF == 0 || !MT[W] || t <= IX[W] || WF == FR[W]); }
static void l_havoc(long t)
{
    WINDOW(t);
    ADDN = nondet_long(); WF = (FT *) nondet_ptr();
    if (W >= 0 && NF > 0 && MT[W] && t > IX[W]) WF = FR[W];
    ASSUME(sub_inv(t));
}
static void l_step(long t)
{
    ASSUME(t == NN || slot(t) >= 0);
    CHECK(sub_inv(t), "every match so far, in order, and nothing else, is in the result");
    check_same();
}
void harness(void)
{
    in_list(); in_match_id(); bounds();
    W = in_int(0, NK - 1); ASSUME(W < KK);
    CN[0] = 0;
    for (int s = 1; s < NK; s++)
        if (s < KK && NF > 0)
        {
            long d = IX[s] - IX[s - 1];
            CN[s] = nondet_long();
            ASSUME(CN[s - 1] + MT[s - 1] <= CN[s] && CN[s] <= CN[s - 1] + MT[s - 1] + d - 1);
        }
    ID3v2_FrameList *r = FrameList_get_frames_by_id(HEAD, ID);
    CHECK(__CPROVER_r_ok(r, sizeof(*r)) && r != HEAD && (ADDL == NULL || ADDL == r), "a list of its own is returned");
    CHECK(ADDN == cnt(NN), "as many frames as match");
    if (NF > 0 && MT[W]) { CHECK(WF == FR[W], "each of them at its place"); if (CN[W] > 5) REACH("all"); }
    CHECK(r->frame == NULL && r->next == NULL && r->start == NULL, "the result starts as an empty list");
    check_same();
    if (ADDN == 0 && NF > 10) REACH("none");
    free_nodes(); free_frames(); free(r);
}
#endif

#if defined(UNIT_l_add) || defined(UNIT_c_add)
static void l_havoc(long t) { WINDOW(t); }
static void l_step(long t) { check_same(); }
void harness(void)
{
    in_list(); M = NF; bounds();
    FT *f = in_frame();
    if (NF > 10) REACH("add");
#ifdef COMPAT
    add_to_list(HEAD, f);
#else
    FrameList_add_frame(HEAD, f);
#endif
    for (int s = 0; s < NK - 1; s++) if (s + 1 < KK) CHECK(__CPROVER_r_ok(ND[s], sizeof(LT)) && ND[s]->next == NX[s] && ND[s]->frame == FR[s], "the frames before stay where they are");
    LT *l = ND[KK - 1], *n = NF == 0 ? HEAD : l->next;
    CHECK(__CPROVER_r_ok(n, sizeof(LT)) && n->frame == f && n->next == NULL, "the frame comes last");
    SHAPE(n->start != NULL && HEAD->start != NULL, "a list with frames has a start");
#ifdef COMPAT
    SHAPE(HEAD->last == n, "the last node is known");
#endif
    if (NF > 0) CHECK(l->frame == FR[KK - 1], "the frames before stay where they are");
    if (NF > 10) REACH("added");
    if (NF == 0) REACH("first");
    if (NF > 0) free(n);
    free_nodes(); free_frames(); free_in_frame(f);
}
#endif

#if defined(UNIT_l_rmid) || defined(UNIT_l_rm)
static void l_havoc(long t) { WINDOW(t); }
static void l_step(long t) { check_same(); }
void harness(void)
{
    in_list();
#ifdef UNIT_l_rmid
    in_match_id();
#else
    in_match_frame();
#endif
    bounds();
    FT *x = M < NF ? FR[slot(M)] : (FT *) NULL;
    if (M < NF) ASSUME((M == 0 || slot(M - 1) >= 0) && (M + 1 == NF || slot(M + 1) >= 0));
#ifdef UNIT_l_rmid
    FT *f = FrameList_remove_frame_by_id(HEAD, ID);
#else
    FT *y = x != NULL ? x : in_frame();
    FT *f = FrameList_remove_frame(HEAD, y);
    if (x == NULL) free_in_frame(y);
#endif
    CHECK(f == x, "the frame removed, or nothing");
    if (x == NULL)
    {
        check_same();
        if (NF > 1000) REACH("nothing removed");
        if (NF == 0) REACH("nothing to remove");
        free_nodes();
    }
    else
    {
        int m = slot(M), p = M == 0 ? -1 : slot(M - 1), q = M + 1 == NF ? -1 : slot(M + 1);
        /* the node now holding the frame that followed */
        if (p >= 0) CHECK(__CPROVER_r_ok(ND[p], sizeof(LT)) && ND[p]->frame == FR[p], "the frame before stays");
        LT *r = p >= 0 ? ND[p]->next : HEAD;
        if (q >= 0)
        {
            CHECK(__CPROVER_r_ok(r, sizeof(LT)) && r->frame == FR[q] && r->next == NX[q], "the frames behind move up, in order");
            SHAPE(r == ND[m] || r == ND[q], "the remaining nodes are the list's");
            SHAPE(r->start != NULL, "a list with frames has a start");
            ASSUME(r == ND[m] || r == ND[q]);
        }
        else if (p >= 0) CHECK(r == NULL, "the list ends with the frame before");
        else { CHECK(__CPROVER_r_ok(HEAD, sizeof(LT)) && HEAD->frame == NULL && HEAD->next == NULL, "the list is empty"); SHAPE(HEAD->start == NULL, "an empty list has no start"); }
        for (int s = 0; s < NK; s++) if (s < KK && s != p && s != m && s != q) CHECK(node_same(s), "the other frames stay");
        if (M > 1000 && NF - M > 1000) REACH("removed");
        if (M > 1000 && NF - M == 1) REACH("last removed");
        if (M == 0 && NF > 1000) REACH("first removed");
        if (NF == 1) REACH("only one removed");
        for (int s = 0; s < NK; s++) if (s < KK && s != m && s != q) free(ND[s]);
        if (q >= 0) free(r);
        else if (p < 0) free(HEAD);
    }
    free_frames();
}
#endif

#ifdef UNIT_l_repl
static void l_havoc(long t) { WINDOW(t); }
static void l_step(long t) { check_same(); }
void harness(void)
{
    in_list(); in_match_frame(); bounds();
    FT *n = in_frame(), *o = M < NF ? FR[slot(M)] : in_frame();
    FrameList_replace_frame(HEAD, o, n);
    for (int s = 0; s < NK; s++)
        if (s < KK)
        {
            if (MT[s]) CHECK(__CPROVER_r_ok(ND[s], sizeof(LT)) && ND[s]->next == NX[s] && ND[s]->frame == n && ND[s]->start != NULL, "the new frame takes the place of the old one");
            else CHECK(node_same(s), "the other frames stay");
        }
    if (M > 1000 && NF - M > 1000) REACH("replaced");
    if (M == NF) REACH("not replaced");
    if (M == NF) free_in_frame(o);
    free_nodes(); free_frames(); free_in_frame(n);
}
#endif

#if defined(UNIT_l_free) || defined(UNIT_l_unlink)
/* positions before t are gone already when iteration t starts */
static int FC[NK];
static int want(long t, int s) {
#ifdef UNIT_l_free
    return NF > 0 && IX[s] < t;
#else
    return 0;
#endif
}
#ifdef UNIT_l_free
void ID3v2_Frame_free(ID3v2_Frame *frame)
{
    REQUIRES(frame == NULL || __CPROVER_r_ok(frame, sizeof(*frame)), "ID3v2_Frame_free: a frame that was not freed before");
    for (int s = 0; s < NK; s++) if (s < KK && NF > 0 && frame == FR[s]) { FC[s]++; free_in_frame(frame); }
}
#endif
static void l_havoc(long t)
{
    WINDOW(t);
    for (int s = 0; s < NK; s++) if (s < KK && IX[s] < t) { free(ND[s]); FC[s] = want(t, s); if (FC[s]) free_in_frame(FR[s]); }
}
static void check_gone(long t)
{
    for (int s = 0; s < NK; s++)
        if (s < KK)
        {
            CHECK(FC[s] == want(t, s), "each frame is freed once, when its turn comes");
            if (IX[s] < t) CHECK(__CPROVER_memory_leak != (const void *) ND[s], "each node is freed");
            else CHECK(node_same(s), "what comes next is still there");
        }
}
static void l_step(long t) { check_gone(t); }
void harness(void)
{
    in_list(); M = NF; bounds();
#ifdef UNIT_l_free
    ID3v2_FrameList_free(HEAD);
#else
    ID3v2_FrameList_unlink(HEAD);
#endif
    check_gone(NN);
    if (NF > 1000) REACH("freed");
    if (NF == 0) REACH("empty freed");
#ifndef UNIT_l_free
    free_frames();
#endif
}
#endif

#ifdef UNIT_c_uniq
static int ADDC = 0; static LT *ADDL; static FT *ADDF;
void add_to_list(ID3v2_frame_list *list, ID3v2_frame *frame)
{
    REQUIRES(__CPROVER_w_ok(list, sizeof(*list)) && frame != NULL, "add_to_list: a list and a frame");
    ADDL = list; ADDF = frame; ADDC++;
}
static void l_havoc(long t) { WINDOW(t); }
static void l_step(long t) { check_same(); CHECK(ADDC == 0, "nothing is added before the end of the list"); }
void harness(void)
{
    in_list(); in_match_id(); bounds();
    FT *f = in_frame();
    for (int k = 0; k < 4; k++) f->frame_id[k] = ID[k];
    add_uniq_to_list(HEAD, f);
    for (int s = 0; s < NK; s++)
        if (s < KK)
        {
            if (NF > 0 && IX[s] == M) CHECK(__CPROVER_r_ok(ND[s], sizeof(LT)) && ND[s]->next == NX[s] && ND[s]->frame == f, "the first frame with the identifier is replaced in place");
            else CHECK(node_same(s), "the other frames stay");
        }
    if (M < NF) { CHECK(ADDC == 0, "nothing is added as well"); if (M > 1000) REACH("replaced"); }
    else { CHECK(ADDC == 1 && ADDL == HEAD && ADDF == f, "a new identifier is appended"); if (NF > 1000) REACH("appended"); }
    for (int s = 0; s < NK; s++) if (s < KK && NF > 0 && IX[s] != M) free_in_frame(FR[s]); /* the replaced one is freed by the call: leak check */
    free_nodes(); free_in_frame(f);
}
#endif

#ifdef UNIT_c_free
static char *FD[NK]; static int TF = 0; static ID3v2_Tag *TT;
void ID3v2_Tag_free(ID3v2_Tag *tag)
{
    REQUIRES(tag == TT && TF == 0, "ID3v2_Tag_free: the tag underneath, once");
    TF++; free(tag);
}
static void l_havoc(long t)
{
    WINDOW(t);
    for (int s = 0; s < NK; s++) if (s < KK && IX[s] < t) { free(ND[s]); if (NF > 0) { free(FD[s]); free(FR[s]); } }
}
static void check_gone(long t)
{
    for (int s = 0; s < NK; s++)
        if (s < KK)
        {
            if (IX[s] < t) CHECK(__CPROVER_memory_leak != (const void *) ND[s] && __CPROVER_memory_leak != (const void *) FR[s] && __CPROVER_memory_leak != (const void *) FD[s], "each node, frame and its data is freed");
            else CHECK(node_same(s), "what comes next is still there");
        }
}
static void l_step(long t) { check_gone(t); }
void harness(void)
{
    in_list(); M = NF; bounds();
    for (int s = 0; s < NK; s++) if (s < KK && NF > 0) FD[s] = FR[s]->data; else FD[s] = (char *) 1;
    for (int s = 0; s < NK; s++) if (!(s < KK && NF > 0)) FR[s] = (FT *) 1;
    ID3v2_tag *tag = (ID3v2_tag *) malloc(sizeof(ID3v2_tag));
    tag->raw = in_bool() ? NULL : in_bytes(in_int(0, MAXLEN));
    tag->tag_header = (ID3v2_header *) malloc(sizeof(ID3v2_header));
    tag->frames = HEAD;
    tag->tag = TT = (ID3v2_Tag *) malloc(sizeof(ID3v2_Tag));
    free_tag(tag);
    CHECK(TF == 1, "the tag underneath is freed");
    if (NF > 1000) REACH("freed");
    if (NF == 0) REACH("empty freed");
}
#endif
