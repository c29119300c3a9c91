/* Units: a whole tag read from / written to a stream. Single frames go by contract (units p_*, z_*). */
#define NSTR 1
#define NLEN 1
#if defined(UNIT_g_parse)
#define NK 2
#define OWN_INT_GHOST
#define OWN_PTR_GHOST
#define V_INT_GHOST(loop, var, value) ((value) == G_POS)
#define V_INT_GHOST2(loop, var, value) ((value) == G_PREV)
/* flags: the last entry has been seen / no further entry is looked for */
#define V_INT_GHOST3(loop, var, value) ((value) == (long) G_NULL)
#define V_INT_GHOST4(loop, var, value) ((value) == (long) !G_NULL)
#define V_INT_GHOST5(loop, var, value) ((value) == (long) (G_NULL || G_POS >= LIM))
#define V_INT_GHOST6(loop, var, value) ((value) == (long) !(G_NULL || G_POS >= LIM))
#define V_PTR_GHOST(loop, var, value) ((value) == (void *) G_LAST)
#define V_PTR_GHOST_VALUE ((void *) G_LAST)
#define V_HOOK_PRE(loop, t) g_pre(t)
#define V_HOOK_ENTER(loop) g_enter()
#define V_HOOK_HAVOC(loop, t)
#define V_BOUNDED(loop) (G_POS > G_POS0 || (G_NULL && !G_NULL0)) /* each round goes on, or is the last */
#define V_CAND0(loop) (CALLS0 != 0 || !G_NULL)
static long G_POS, G_PREV, G_POS0, LIM, CALLS0; static _Bool G_NULL, G_NULL0; static struct _ID3v2_Frame *G_LAST;
static void g_pre(long t); static void g_enter(void);
#elif !defined(NK)
#define NK 4
#endif
#include "window.h"
static void l_havoc(long t);
static void l_step(long t);
#define WINDOW(t) ASSUME(((t) == NN || slot(t) >= 0) && ((t) == 0 || slot((t) - 1) >= 0))
#include "loops.h"

static CharStream *CSX; static int N;

#ifdef UNIT_g_parse
static long G_CALLS = 0, G_ADDS = 0, P0; static LT *ADDL;
static int V, TSZ, EXT; static _Bool HEADER;
static ID3v2_Frame TOK[8]; static ID3v2_FrameHeader TOKH;
/* contract (unit taghdr_cs) */
ID3v2_TagHeader *TagHeader_parse(CharStream *cs)
{
    REQUIRES(cs == CSX && cs->cursor == 0 && cs->size == N, "TagHeader_parse: from the start of the stream");
    if (!HEADER) { int c = nondet_int(); ASSUME(0 <= c && c <= N); cs->cursor = c; return NULL; }
    ID3v2_TagHeader *h = (ID3v2_TagHeader *) malloc(sizeof(*h));
    h->major_version = V; h->tag_size = TSZ; h->extended_header_size = EXT;
    cs->cursor = 10;
    if ((h->flags & 0x40) != 0 && TSZ >= 4) cs->cursor = N < 14 ? N : 14; else ASSUME(EXT == 0);
    LIM = N < TSZ + 10L ? N : TSZ + 10L;
    P0 = EXT == 0 ? cs->cursor : 10L + (V == 3 ? 4 : 0) + EXT;
    if (P0 > LIM) P0 = LIM;
    G_POS = P0; G_PREV = P0;
    return h;
}
/* contract (units fhdr, p_*): nothing, or the frame at the cursor, which is left right behind it */
ID3v2_Frame *Frame_parse(CharStream *cs, int version)
{
    CHECK(HEADER && !G_NULL, "no frame is looked for without a header or behind the last one");
    CHECK(cs == CSX && cs->cursor == G_POS, "frames are read one after the other, from the end of the header on");
    CHECK(cs->size == LIM, "no frame is read from beyond the tag");
    CHECK(version == V, "frames are read in the tag's version");
#ifndef REAL
    CHECK(G_LAST == NULL, "every frame read is kept");
#endif
    if (LIM - G_POS < 10 || in_bool()) { int c = nondet_int(); ASSUME(0 <= c && c <= LIM); cs->cursor = c; G_NULL = 1; G_LAST = NULL; return NULL; }
    int c = nondet_int();
    ASSUME(G_POS + 10 <= c && c <= LIM);
    cs->cursor = c;
    G_PREV = G_POS; G_POS = c;
    G_LAST = &TOK[G_CALLS & 7]; G_LAST->header = &TOKH;
    G_CALLS++;
    return G_LAST;
}
#ifdef USE_FrameList_add_frame
void FrameList_add_frame(ID3v2_FrameList *list, ID3v2_Frame *frame)
{
    CHECK(frame != NULL && frame == G_LAST, "each frame read is added once, in order");
    REQUIRES(__CPROVER_w_ok(list, sizeof(*list)), "FrameList_add_frame: a list");
    CHECK(ADDL == NULL || ADDL == list, "all frames go to one list");
    ADDL = list; G_ADDS++; G_LAST = NULL;
}
#endif
static _Bool g_inv(void)
{
    return CSX->size == LIM && P0 <= G_POS && G_POS <= LIM && G_PREV <= G_POS && (G_NULL || CSX->cursor == G_POS)
        && (CALLS0 == 0 || G_NULL || G_LAST != NULL) && (CALLS0 != 0 || G_LAST == NULL);
}
static void g_enter(void) { CALLS0 = G_CALLS + G_NULL; INV(g_inv(), "tag reading: state at the loop"); }
static void g_pre(long t)
{
    G_POS = nondet_long(); G_PREV = nondet_long(); G_POS0 = G_POS;
    CSX->cursor = nondet_int(); G_NULL = nondet_bool(); G_CALLS = nondet_long(); G_ADDS = nondet_long();
    ASSUME(G_CALLS >= 0 && G_ADDS >= 0 && G_CALLS < 0x7fffffff);
    if (t == 0) ASSUME(G_POS == P0 || CALLS0 > 0);
    if (CALLS0 != 0 && !G_NULL) { G_LAST = &TOK[7]; G_LAST->header = &TOKH; } else G_LAST = NULL;
    ASSUME(g_inv());
    G_POS0 = G_POS; G_NULL0 = G_NULL;
}
static void l_havoc(long t) {}
static void l_step(long t) { INV(g_inv(), "tag reading: state at the loop"); }
void harness(void)
{
    N = in_int(0, MAXLEN); V = in_bool() ? 4 : 3; TSZ = in_int(0, 0x3fffffff); EXT = in_int(0, 0x3fffffff);
    HEADER = in_bool(); if (N < 10) HEADER = 0;
    CSX = (CharStream *) malloc(sizeof(CharStream));
    CSX->stream = in_bytes(N); CSX->size = N; CSX->cursor = 0;
    ID3v2_Tag *t = Tag_parse(CSX);
    CHECK((t != NULL) == HEADER, "a tag exactly when there is a header");
    if (t != NULL)
    {
        CHECK(t->header->major_version == V && t->header->tag_size == TSZ && t->header->extended_header_size == EXT, "the tag has the header read");
        CHECK(G_NULL || LIM - G_POS < 10, "all frames are read");
        CHECK(N < TSZ + 10L || t->padding_size == LIM - G_POS, "the padding is what remains of the tag");
#ifndef REAL
        CHECK(G_LAST == NULL, "every frame read is kept");
        CHECK(ADDL == NULL || ADDL == t->frames, "the frames are the tag's");
        CHECK(t->frames->frame == NULL && t->frames->next == NULL, "the list starts empty");
#else
        LT *l = t->frames; int n = 0;
        for (int k = 0; k < 8; k++) if (l != NULL && l->frame != NULL) { CHECK(l->frame == &TOK[k], "the frames in order"); n++; l = l->next; }
        CHECK(n == G_CALLS, "every frame read is kept");
        l = t->frames->next;
        for (int k = 0; k < 8; k++) if (l != NULL) { LT *x = l->next; free(l); l = x; }
#endif
        if (G_POS - P0 > (MAXLEN < 100 ? 10 : 5000) && G_NULL) REACH("tag");
        if (EXT > 0) REACH("extended header");
        free(t->header); free(t->frames); free(t);
    }
    else REACH("no tag");
    free(CSX->stream); free(CSX);
}
#endif

#ifdef UNIT_g_buf
static ID3v2_Tag *RT; static const char *BUF; static long K; static int PN = 0; static char KB;
ID3v2_Tag *Tag_parse(CharStream *cs)
{
    REQUIRES(__CPROVER_r_ok(cs, sizeof(*cs)) && (cs->size == 0 || __CPROVER_r_ok(cs->stream, cs->size)), "Tag_parse: a stream");
    CHECK(cs->cursor == 0 && cs->size == N, "the whole buffer is read, from its start");
    if (0 <= K && K < N) CHECK(cs->stream[K] == KB, "what is read are the buffer's bytes");
    PN++;
    return RT;
}
static void l_havoc(long t) {}
static void l_step(long t) {}
void harness(void)
{
    N = in_int(0, MAXLEN); char *b = in_bytes(N); BUF = b; K = nondet_long(); if (0 <= K && K < N) KB = b[K];
    RT = in_bool() ? (ID3v2_Tag *) NULL : (ID3v2_Tag *) malloc(sizeof(ID3v2_Tag));
    ID3v2_Tag *t = ID3v2_read_tag_from_buffer(b, N);
    CHECK(PN == 1 && t == RT, "the tag parsed is returned");
    if (0 <= K && K < N) { CHECK(b[K] == KB, "the buffer is not modified"); REACH("buffer"); }
    free(b); free(RT);
}
#endif

#ifdef UNIT_g_ser
/* output byte KT is watched; it lies in the header, in the frame of window slot W, or behind the last frame */
static long OFF[NK], TOT, KT, K; static int W, V; static char WB; static ID3v2_Tag *TAG; static unsigned TSZ; static int SN = 0;
static char want_header(long k)
{
    ID3v2_TagHeader *h = TAG->header;
    return k < 3 ? h->identifier[k] : k == 3 ? h->major_version : k == 4 ? h->minor_version : k == 5 ? (char) (h->flags & ~0x40) : (char) (TSZ >> (7 * (9 - k)) & 0x7f);
}
static char want_frame(void)
{
    ID3v2_FrameHeader *h = FR[W]->header;
    return K >= 4 && K < 8 && V == 4 ? (char) (h->size >> (7 * (7 - K)) & 0x7f) : WB;
}
static char want(long t) { return KT < 10 ? want_header(KT) : K >= 0 && NF > 0 && t > IX[W] ? want_frame() : 0; }
static long off(long t) { return t == NN ? TOT : OFF[slot(t)]; }
/* contract of CharStream_new (unit z_hdr and others): so many zero bytes; instantiated at the watched one for the output */
CharStream *CharStream_new(const int size)
{
    REQUIRES(size >= 0, "CharStream_new: a size");
    CharStream *cs = (CharStream *) malloc(sizeof(CharStream));
    cs->stream = (char *) malloc(size); cs->size = size; cs->cursor = 0;
    if (SN++ == 0) { CHECK(size == (long) TSZ + 10, "as many bytes as announced, and the header"); CSX = cs; if (KT < size) ASSUME(cs->stream[KT] == 0); }
    else SHAPE(0, "one stream");
    return cs;
}
/* contract of Frame_to_char_stream (units z_*): header and body, of the size in the header; instantiated at byte K for slot W */
CharStream *Frame_to_char_stream(ID3v2_Frame *frame)
{
    REQUIRES(__CPROVER_r_ok(frame, sizeof(*frame)), "Frame_to_char_stream: a frame");
    CharStream *cs = (CharStream *) malloc(sizeof(CharStream));
    int n = frame->header->size + 10;
    cs->stream = (char *) malloc(n); cs->size = n; cs->cursor = nondet_int(); ASSUME(0 <= cs->cursor && cs->cursor <= n);
    if (frame == FR[W] && 0 <= K && K < n) ASSUME(cs->stream[K] == WB);
    return cs;
}
static _Bool z_inv(long t) { return CSX->size == (long) TSZ + 10 && CSX->cursor == off(t) && CSX->stream[KT] == want(t); }
static void l_havoc(long t)
{
    WINDOW(t);
    __CPROVER_havoc_object(CSX->stream); CSX->cursor = (int) off(t);
    ASSUME(z_inv(t));
}
static void l_step(long t)
{
    ASSUME(t == NN || slot(t) >= 0);
    CHECK(CSX->cursor == off(t), "frames are written one after the other");
    CHECK(CSX->stream[KT] == want(t), "each byte at its place, the others untouched");
    CHECK(CSX->size == (long) TSZ + 10, "the size stays");
    check_same();
}
void harness(void)
{
    in_list(); M = NF; bounds();
    TAG = (ID3v2_Tag *) malloc(sizeof(ID3v2_Tag)); TAG->header = (ID3v2_TagHeader *) malloc(sizeof(ID3v2_TagHeader)); TAG->frames = HEAD;
    V = in_bool() ? 4 : 3; TAG->header->major_version = V;
    TSZ = in_int(0, MAXLEN); TAG->header->tag_size = TSZ;
    TOT = 10;
    for (int s = 0; s < NK; s++)
        if (s < KK && NF > 0)
        {
            int z = FR[s]->header->size; ASSUME(0 <= z && z <= MAXLEN);
            OFF[s] = s == 0 ? 10 : nondet_long();
            if (s > 0) { long d = IX[s] - IX[s - 1]; ASSUME(OFF[s] >= TOT && OFF[s] <= (long) TSZ + 10); if (d == 1) ASSUME(OFF[s] == TOT); }
            TOT = OFF[s] + 10 + z;
        }
    ASSUME(TOT <= (long) TSZ + 10);
    W = in_int(0, NK - 1); ASSUME(W < KK);
    KT = in_long(0, MAXLEN + 10L); ASSUME(KT < (long) TSZ + 10);
    K = NF > 0 && KT >= OFF[W] && KT < OFF[W] + 10 + FR[W]->header->size ? KT - OFF[W] : -1;
    ASSUME(KT < 10 || K >= 0 || KT >= TOT);
    WB = in_char();
    if (K >= 0 && K < 4) ASSUME(WB == FR[W]->header->id[K]);
    CharStream *cs = Tag_to_char_stream(TAG);
    CHECK(cs == CSX && cs->size == (long) TSZ + 10 && __CPROVER_r_ok(cs->stream, cs->size), "a stream of the announced size");
    char x = cs->stream[KT];
    if (KT < 10) CHECK(x == want_header(KT), "the header's bytes");
    else if (K >= 0) CHECK(x == want_frame(), "every frame's bytes at its place");
    else CHECK(x == 0, "zero bytes behind the last frame");
    CHECK(TAG->header->tag_size == TSZ && TAG->frames == HEAD, "the tag is left alone");
    check_same();
    if (K >= 0 && OFF[W] > 5000) REACH("frame"); if (KT > TOT) REACH("padding"); if (KT < 10) REACH("header"); if (V == 4 && K == 5) REACH("v4");
    free_nodes(); free_frames(); free(TAG->header); free(TAG); free(cs->stream); free(cs);
}
#endif
