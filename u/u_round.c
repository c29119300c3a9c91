/* Units: a frame serialised and read again is the same frame (both directions are the real code; a v2.4 size field is put in as
 * Tag_to_char_stream does it, unit g_ser). Position within the tag: units p_* and g_parse (any position), g_ser. */
#if defined(UNIT_r_comm)
#define NLEN 1
#define NSTR 1
#define CAND_PQ 0
#elif defined(UNIT_r_apic)
#define NLEN 6
#define NSTR 2
#define FILL_MAX 0
#define CAND_PQ 0
#else
#define NLEN 1
#define NSTR 1
#endif
#include "verif.h"
#include "loops.h"
static ID3v2_FrameHeader *H; static int V;
static ID3v2_FrameHeader *in_header(long size)
{
    H = (ID3v2_FrameHeader *) malloc(sizeof(ID3v2_FrameHeader));
    H->size = (int) size;
    return H;
}
#define IS(a, b, c, d) (H->id[0] == a && H->id[1] == b && H->id[2] == c && H->id[3] == d)
/* written, and read again */
static ID3v2_Frame *round_trip(ID3v2_Frame *f)
{
    V = in_bool() ? 4 : 3;
    CharStream *cs = Frame_to_char_stream(f);
    CHECK(cs != NULL && cs->size == H->size + 10, "the frame's bytes");
    ASSUME(cs != NULL && cs->size == H->size + 10);
    if (V == 4) for (int k = 0; k < 4; k++) cs->stream[4 + k] = (char) ((unsigned) H->size >> (21 - 7 * k) & 0x7f);
    cs->cursor = 0;
    ID3v2_Frame *g = Frame_parse(cs, V);
    CHECK(g != NULL, "the frame is found again");
    CHECK(cs->cursor == H->size + 10, "all its bytes are used");
    CharStream_free(cs);
    ASSUME(g != NULL);
    ID3v2_FrameHeader *h = g->header;
    CHECK(h->id[0] == H->id[0] && h->id[1] == H->id[1] && h->id[2] == H->id[2] && h->id[3] == H->id[3], "same identifier");
    CHECK(h->flags[0] == H->flags[0] && h->flags[1] == H->flags[1], "same flags");
    CHECK(h->size == H->size, "same size");
    return g;
}
#ifdef UNIT_r_text
void harness(void)
{
    int n = in_int(0, MAXLEN);
    ID3v2_TextFrame *f = (ID3v2_TextFrame *) malloc(sizeof(ID3v2_TextFrame));
    f->header = in_header(n + 1);
    ASSUME(H->id[0] == 'T');
    f->data = (ID3v2_TextFrameData *) malloc(sizeof(ID3v2_TextFrameData));
    f->data->size = n; f->data->text = in_bytes(n);
    ID3v2_TextFrame *g = (ID3v2_TextFrame *) round_trip((ID3v2_Frame *) f);
    long K = in_long(0, MAXLEN);
    CHECK(g->data->size == n && g->data->encoding == f->data->encoding, "same encoding and text size");
    CHECK(__CPROVER_r_ok(g->data->text, n), "text readable");
    if (K < n) CHECK(g->data->text[K] == f->data->text[K], "same text");
    REACH("text"); if (V == 4 && n > 5000) REACH("v2.4");
    ID3v2_Frame_free((ID3v2_Frame *) f); ID3v2_Frame_free((ID3v2_Frame *) g);
}
#endif
#ifdef UNIT_r_other
void harness(void)
{
    int n = in_int(0, MAXLEN);
    ID3v2_Frame *f = (ID3v2_Frame *) malloc(sizeof(ID3v2_Frame));
    f->header = in_header(n);
    ASSUME(H->id[0] != 'T' && !IS('C', 'O', 'M', 'M') && !IS('A', 'P', 'I', 'C') && !IS(0, 0, 0, 0));
    f->data = in_bytes(n);
    ID3v2_Frame *g = round_trip(f);
    long K = in_long(0, MAXLEN);
    CHECK(n == 0 || __CPROVER_r_ok(g->data, n), "data readable");
    if (K < n) CHECK(((char *) g->data)[K] == ((char *) f->data)[K], "same data");
    REACH("other"); if (V == 4 && n > 5000) REACH("v2.4");
    ID3v2_Frame_free(f); ID3v2_Frame_free(g);
}
#endif
#ifdef UNIT_r_comm
static long K;
/* contract (unit z_comm), instantiated at the bytes of interest */
CharStream *Frame_to_char_stream(ID3v2_Frame *frame)
{
    ID3v2_CommentFrameData *a = (ID3v2_CommentFrameData *) frame->data;
    CharStream *cs = (CharStream *) malloc(sizeof(CharStream));
    int n = H->size + 10; long D = GS[0].len, dt = U_TERM(GS[0].wide);
    char *b = (char *) malloc(n), *d = a->short_description;
    for (int k = 0; k < 4; k++) { b[k] = "COMM"[k]; b[4 + k] = (char) ((unsigned) H->size >> (24 - 8 * k)); }
    b[8] = H->flags[0]; b[9] = H->flags[1]; b[10] = a->encoding;
    for (int k = 0; k < 3; k++) b[11 + k] = a->language[k];
    long w[7] = {0, 1, D, D + 1, PQ[0], PQ[0] + 1, K};
    for (int k = 0; k < 7; k++) if (w[k] < D + dt) ASSUME(b[14 + w[k]] == d[w[k]]);
    if (K < a->size) ASSUME(b[14 + D + dt + K] == a->comment[K]);
    cs->stream = b; cs->size = n; cs->cursor = n;
    return cs;
}
void harness(void)
{
    long D; _Bool DW;
    K = in_long(0, MAXLEN);
    char *d = in_string_len(&D, &DW, MAXLEN / 4);
    int n = in_int(0, MAXLEN / 4), dt = U_TERM(DW);
    ID3v2_CommentFrame *f = (ID3v2_CommentFrame *) malloc(sizeof(ID3v2_CommentFrame));
    f->header = in_header(4 + D + dt + n);
    ASSUME(IS('C', 'O', 'M', 'M'));
    f->data = (ID3v2_CommentFrameData *) malloc(sizeof(ID3v2_CommentFrameData));
    f->data->size = n; f->data->comment = in_bytes(n); f->data->short_description = d;
    ID3v2_CommentFrame *g = (ID3v2_CommentFrame *) round_trip((ID3v2_Frame *) f);
    CHECK(g->data->size == n && g->data->encoding == f->data->encoding, "same encoding and comment size");
    CHECK(g->data->language[0] == f->data->language[0] && g->data->language[1] == f->data->language[1] && g->data->language[2] == f->data->language[2], "same language");
    CHECK(__CPROVER_r_ok(g->data->comment, n) && __CPROVER_r_ok(g->data->short_description, D + dt), "strings readable");
    if (K < D + dt) CHECK(g->data->short_description[K] == d[K], "same description");
    if (K < n) CHECK(g->data->comment[K] == f->data->comment[K], "same comment");
    REACH("comment"); if (V == 4 && n > 5000 && DW) REACH("v2.4");
    ID3v2_Frame_free((ID3v2_Frame *) f); ID3v2_Frame_free((ID3v2_Frame *) g);
}
#endif
