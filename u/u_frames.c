/* Units: construction of frames from the caller's data, serialisation of frames */
#if defined(UNIT_n_text)
#define NLEN 2
#define NSTR 1
#define FILL_MAX 0
#define CAND_PQ 0
#elif defined(UNIT_n_comm) || defined(UNIT_n_apic)
#define NLEN 4
#define NSTR 2
#define FILL_MAX 0
#define CAND_PQ 0
#elif defined(UNIT_z_comm)
#define NLEN 1
#define NSTR 1
#define FILL_MAX 0
#define CAND_PQ 0
#elif defined(UNIT_r_apic)
#define NLEN 2
#define NSTR 2
#define FILL_MAX 0
#define CAND_PQ 0
#elif defined(UNIT_z_apic)
#define NLEN 2
#define NSTR 2
#define FILL_MAX 0
#define CAND_PQ 0
#endif
#include "verif.h"
#include "loops.h"
#define UC(x) ((unsigned char) (x))
#define BE(v, k) ((unsigned char) ((unsigned) (v) >> (24 - 8 * (k))))

#ifdef UNIT_n_text
void harness(void)
{
    long L; _Bool W;
    char *s = in_string_len(&L, &W, MAXLEN);
    char *id = in_bytes(4), *fl = in_bytes(2);
    int t = U_TERM(W);
    long K = in_long(0, MAXLEN + 2); ASSUME(K < L + t);
    char before = s[K];
    ID3v2_TextFrame *f = TextFrame_new(id, fl, s);
    CHECK(f != NULL, "a frame");
    CHECK(f->header->id[0] == id[0] && f->header->id[1] == id[1] && f->header->id[2] == id[2] && f->header->id[3] == id[3], "identifier as given");
    CHECK(f->header->flags[0] == fl[0] && f->header->flags[1] == fl[1], "flags as given");
    CHECK(f->header->size == 1 + L + t, "size: encoding, text and terminator");
    CHECK(f->data->encoding == (W ? 1 : 0), "encoding of the text");
    CHECK(f->data->size == L + t, "text size");
    CHECK(__CPROVER_r_ok(f->data->text, L + t), "text readable for its size");
    CHECK(f->data->text[K] == before, "text as given");
    CHECK(!__CPROVER_same_object(f->data->text, s), "the text is a copy");
    CHECK(s[K] == before, "the argument is not modified");
    REACH("text");
    if (W) REACH("text wide");
    free(s); free(id); free(fl);
    CHECK(__CPROVER_r_ok(f->header, sizeof(ID3v2_FrameHeader)) && __CPROVER_r_ok(f->data, sizeof(ID3v2_TextFrameData)) && __CPROVER_r_ok(f->data->text, L + t), "the frame does not depend on the caller's memory");
    TextFrame_free(f);
}
#endif
#ifdef UNIT_n_comm
void harness(void)
{
    long L, D; _Bool W, DW;
    char *s = in_string_len(&L, &W, MAXLEN / 4), *d = in_string_len(&D, &DW, MAXLEN / 4);
    char *fl = in_bytes(2), *lg = in_bytes(3);
    int t = U_TERM(W), dt = U_TERM(DW);
    long K = in_long(0, MAXLEN);
    ID3v2_CommentFrame *f = CommentFrame_new(fl, lg, d, s);
    CHECK(f != NULL, "a frame");
    CHECK(f->header->id[0] == 'C' && f->header->id[1] == 'O' && f->header->id[2] == 'M' && f->header->id[3] == 'M', "identifier COMM");
    CHECK(f->header->flags[0] == fl[0] && f->header->flags[1] == fl[1], "flags as given");
    CHECK(f->header->size == 1 + 3 + D + dt + L + t, "size: encoding, language, description, comment");
    CHECK(f->data->encoding == (W ? 1 : 0), "encoding of the comment");
    CHECK(f->data->language[0] == lg[0] && f->data->language[1] == lg[1] && f->data->language[2] == lg[2], "language as given");
    CHECK(f->data->size == L + t, "comment size");
    CHECK(__CPROVER_r_ok(f->data->comment, L + t) && __CPROVER_r_ok(f->data->short_description, D + dt), "strings readable");
    if (K < L + t) CHECK(f->data->comment[K] == s[K], "comment as given");
    if (K < D + dt) CHECK(f->data->short_description[K] == d[K], "description as given");
    CHECK(!__CPROVER_same_object(f->data->comment, s) && !__CPROVER_same_object(f->data->short_description, d), "the strings are copies");
    REACH("comment");
    free(s); free(d); free(fl); free(lg);
    CHECK(__CPROVER_r_ok(f->data->comment, L + t) && __CPROVER_r_ok(f->data->short_description, D + dt) && __CPROVER_r_ok(f->header, sizeof(ID3v2_FrameHeader)), "the frame does not depend on the caller's memory");
    CommentFrame_free(f);
}
#endif
#ifdef UNIT_n_apic
void harness(void)
{
    long M, D; _Bool MW, DW;
    char *m = in_string_len(&M, &MW, MAXLEN / 8), *d = in_string_len(&D, &DW, MAXLEN / 8);
    char *fl = in_bytes(2), pt = nondet_char();
    int mt = U_TERM(MW), dt = U_TERM(DW), ps = in_int(0, MAXLEN / 2);
    char *p = in_bytes(ps);
    long K = in_long(0, MAXLEN);
    ID3v2_ApicFrame *f = ApicFrame_new(fl, d, pt, m, ps, p);
    CHECK(f != NULL, "a frame");
    CHECK(f->header->id[0] == 'A' && f->header->id[1] == 'P' && f->header->id[2] == 'I' && f->header->id[3] == 'C', "identifier APIC");
    CHECK(f->header->flags[0] == fl[0] && f->header->flags[1] == fl[1], "flags as given");
    CHECK(f->header->size == 1 + M + mt + 1 + D + dt + ps, "size: encoding, MIME type, picture type, description, picture");
    CHECK(f->data->encoding == (DW ? 1 : 0), "encoding of the description");
    CHECK(f->data->picture_type == pt, "picture type as given");
    CHECK(f->data->picture_size == ps, "picture size as given");
    CHECK(__CPROVER_r_ok(f->data->mime_type, M + mt) && __CPROVER_r_ok(f->data->description, D + dt) && (ps == 0 || __CPROVER_r_ok(f->data->data, ps)), "strings and picture readable");
    if (K < M + mt) CHECK(f->data->mime_type[K] == m[K], "MIME type as given");
    if (K < D + dt) CHECK(f->data->description[K] == d[K], "description as given");
    if (K < ps) CHECK(f->data->data[K] == p[K], "picture as given");
    CHECK(!__CPROVER_same_object(f->data->mime_type, m) && !__CPROVER_same_object(f->data->description, d) && !__CPROVER_same_object(f->data->data, p), "strings and picture are copies");
    REACH("picture");
    free(m); free(d); free(fl); free(p);
    CHECK(__CPROVER_r_ok(f->data->mime_type, M + mt) && __CPROVER_r_ok(f->data->description, D + dt) && __CPROVER_r_ok(f->header, sizeof(ID3v2_FrameHeader)), "the frame does not depend on the caller's memory");
    ApicFrame_free(f);
}
#endif

/* ---- serialisation: frames satisfying the representation invariant (which the parse and the construction units prove) ---- */
static ID3v2_FrameHeader *H; static char *ID_, *FL_;
static ID3v2_FrameHeader *in_header(int size)
{
    ID3v2_FrameHeader *h = (ID3v2_FrameHeader *) malloc(sizeof(ID3v2_FrameHeader));
    h->size = size;
    H = h;
    return h;
}
static char hb(long k) { return k < 4 ? H->id[k] : k < 8 ? (char) BE(H->size, k - 4) : H->flags[k - 8]; }
#define IS(a, b, c, d) (H->id[0] == a && H->id[1] == b && H->id[2] == c && H->id[3] == d)

#ifdef UNIT_z_hdr
void harness(void)
{
    in_header(in_int(0, 0x7fffffff));
    CharStream *cs = FrameHeader_to_char_stream(H);
    long K = in_long(0, 9);
    CHECK(cs != NULL && cs->size == 10 && __CPROVER_r_ok(cs->stream, 10), "ten bytes");
    CHECK(cs->stream[K] == hb(K), "identifier, big-endian size, flags");
    REACH("header");
    CharStream_free(cs); FrameHeader_free(H);
}
#endif
#ifdef UNIT_z_text
void harness(void)
{
    int n = in_int(0, MAXLEN);
    ID3v2_TextFrame *f = (ID3v2_TextFrame *) malloc(sizeof(ID3v2_TextFrame));
    f->header = in_header(n + 1);
    ASSUME(H->id[0] == 'T');
    f->data = (ID3v2_TextFrameData *) malloc(sizeof(ID3v2_TextFrameData));
    f->data->size = n; f->data->text = in_bytes(n);
    CharStream *cs = Frame_to_char_stream((ID3v2_Frame *) f);
    long K = in_long(0, MAXLEN + 11); ASSUME(K < n + 11);
    CHECK(cs != NULL && cs->size == n + 11, "stream size: header and body");
    CHECK(__CPROVER_r_ok(cs->stream, n + 11), "all bytes there");
    CHECK(cs->stream[K] == (K < 10 ? hb(K) : K == 10 ? f->data->encoding : f->data->text[K - 11]), "header, encoding, text");
    REACH("text");
    CharStream_free(cs); ID3v2_Frame_free((ID3v2_Frame *) f);
}
#endif
#ifdef UNIT_z_other
void harness(void)
{
    int n = in_int(0, MAXLEN);
    ID3v2_Frame *f = (ID3v2_Frame *) malloc(sizeof(ID3v2_Frame));
    f->header = in_header(n);
    ASSUME(H->id[0] != 'T' && !IS('C', 'O', 'M', 'M') && !IS('A', 'P', 'I', 'C'));
    f->data = in_bytes(n);
    CharStream *cs = Frame_to_char_stream(f);
    long K = in_long(0, MAXLEN + 10); ASSUME(K < n + 10);
    CHECK(cs != NULL && cs->size == n + 10, "stream size: header and body");
    CHECK(__CPROVER_r_ok(cs->stream, n + 10), "all bytes there");
    CHECK(cs->stream[K] == (K < 10 ? hb(K) : ((char *) f->data)[K - 10]), "header, raw bytes");
    REACH("other");
    CharStream_free(cs); ID3v2_Frame_free(f);
}
#endif
#ifdef UNIT_z_comm
void harness(void)
{
    long D; _Bool DW;
    char *d = in_string_len(&D, &DW, MAXLEN / 4);
    int n = in_int(0, MAXLEN / 4), dt = U_TERM(DW);
    ID3v2_CommentFrame *f = (ID3v2_CommentFrame *) malloc(sizeof(ID3v2_CommentFrame));
    f->header = in_header(4 + D + dt + n);
    ASSUME(IS('C', 'O', 'M', 'M'));
    f->data = (ID3v2_CommentFrameData *) malloc(sizeof(ID3v2_CommentFrameData));
    f->data->size = n; f->data->comment = in_bytes(n); f->data->short_description = d;
    CharStream *cs = Frame_to_char_stream((ID3v2_Frame *) f);
    long K = in_long(0, MAXLEN), S = 14 + D + dt;
    CHECK(cs != NULL && cs->size == S + n, "stream size: header and body");
    CHECK(__CPROVER_r_ok(cs->stream, S + n), "all bytes there");
    if (K < 10) CHECK(cs->stream[K] == hb(K), "header");
    if (K == 10) CHECK(cs->stream[K] == f->data->encoding, "encoding");
    if (K > 10 && K < 14) CHECK(cs->stream[K] == f->data->language[K - 11], "language");
    if (K >= 14 && K < S) CHECK(cs->stream[K] == d[K - 14], "description");
    if (K >= S && K < S + n) CHECK(cs->stream[K] == f->data->comment[K - S], "comment");
    REACH("comment");
    CharStream_free(cs); ID3v2_Frame_free((ID3v2_Frame *) f);
}
#endif
#ifdef UNIT_r_apic
/* lemma: what is written for a picture frame satisfies the precondition of units p_apic1-4 (the frame there is read with
 * exactly the fields its bytes lay out), with the lengths of the frame's own strings. Together with z_apic (which bytes) and
 * p_apic1-4 (which fields): a picture frame written and read again is the same. MIME types without byte order mark. */
void harness(void)
{
    long D, M, J = in_long(0, MAXLEN); _Bool DW, MW;
    char *m = in_string_len(&M, &MW, MAXLEN / 8), *d = in_string_len(&D, &DW, MAXLEN / 8);
    ASSUME(!MW);
    gs_facts(J);
    int n = in_int(0, MAXLEN / 4), dt = U_TERM(DW);
    ID3v2_ApicFrame *f = (ID3v2_ApicFrame *) malloc(sizeof(ID3v2_ApicFrame));
    f->header = in_header(2 + M + 1 + D + dt + n);
    ASSUME(IS('A', 'P', 'I', 'C'));
    f->data = (ID3v2_ApicFrameData *) malloc(sizeof(ID3v2_ApicFrameData));
    f->data->picture_size = n; f->data->data = in_bytes(n); f->data->description = d; f->data->mime_type = m;
    CharStream *cs = Frame_to_char_stream((ID3v2_Frame *) f);
    ASSUME(cs != NULL && __CPROVER_r_ok(cs->stream, 10 + f->header->size));
    long content = f->header->size - 1, dc = content - M - 2;
    char *x = cs->stream + 11, *e = x + M + 2;
    int part = in_int(0, 5);
    if (part == 0) { CHECK(f->header->size >= 1 && cs->size == 10 + f->header->size, "size"); CHECK(M + 2 <= content && x[M] == 0, "MIME type terminated inside"); }
    if (part == 1 && J < M) CHECK(x[J] != 0, "MIME type not terminated before");
    if (part == 2) CHECK(!u_bom(x, content), "MIME type without byte order mark");
    if (part == 3) CHECK(u_bom(e, dc) == DW, "description's byte order mark");
    if (part == 4) CHECK(D + dt <= dc && (!DW || (D & 1) == 0) && u_term(e, DW, D), "description terminated inside");
    if (part == 5 && J < D && (!DW || (J & 1) == 0)) CHECK(!u_term(e, DW, J), "description not terminated before");
    REACH("picture"); if (DW && D > 2 && M > 1 && n > 1) REACH("picture wide");
    CharStream_free(cs); ID3v2_Frame_free((ID3v2_Frame *) f);
}
#endif
#ifdef UNIT_z_apic
void harness(void)
{
    long D, M; _Bool DW, MW;
    char *m = in_string_len(&M, &MW, MAXLEN / 8), *d = in_string_len(&D, &DW, MAXLEN / 8);
    int n = in_int(0, MAXLEN / 4), dt = U_TERM(DW), mt = U_TERM(MW);
    ID3v2_ApicFrame *f = (ID3v2_ApicFrame *) malloc(sizeof(ID3v2_ApicFrame));
    f->header = in_header(2 + M + mt + D + dt + n);
    ASSUME(IS('A', 'P', 'I', 'C'));
    f->data = (ID3v2_ApicFrameData *) malloc(sizeof(ID3v2_ApicFrameData));
    f->data->picture_size = n; f->data->data = in_bytes(n); f->data->description = d; f->data->mime_type = m;
    CharStream *cs = Frame_to_char_stream((ID3v2_Frame *) f);
    long K = in_long(0, MAXLEN), T = 11 + M + mt, S = T + 1 + D + dt;
    CHECK(cs != NULL && cs->size == S + n, "stream size: header and body");
    CHECK(__CPROVER_r_ok(cs->stream, S + n), "all bytes there");
    if (K < 10) CHECK(cs->stream[K] == hb(K), "header");
    if (K == 10) CHECK(cs->stream[K] == f->data->encoding, "encoding");
    if (K > 10 && K < T) CHECK(cs->stream[K] == m[K - 11], "MIME type");
    if (K == T) CHECK(cs->stream[K] == f->data->picture_type, "picture type");
    if (K > T && K < S) CHECK(cs->stream[K] == d[K - T - 1], "description");
    if (K >= S && K < S + n) CHECK(cs->stream[K] == f->data->data[K - S], "picture");
    REACH("picture");
    CharStream_free(cs); ID3v2_Frame_free((ID3v2_Frame *) f);
}
#endif
