/* Units: decoding of headers and single frames from arbitrary bytes */
#if defined(UNIT_p_comm)
#define NLEN 1
#define NSTR 1
#elif defined(UNIT_p_apic1) || defined(UNIT_p_apic2) || defined(UNIT_p_apic3) || defined(UNIT_p_apic4)
#define UNIT_p_apic
#define NLEN 2
#define NSTR 2
#define NO_STUB_FACTS
#define FILL_MAX 0
#define CAND_PQ 0
#elif defined(UNIT_p_apicx)
#define NLEN 4
#define NSTR 0
#define NO_STUB_FACTS
#define CAND_PQ 0
#endif
#include "verif.h"
#include "loops.h"
#if defined(UNIT_p_text)
#define C_ID(k) ((k) == 0 ? 'T' : B[k])
#elif defined(UNIT_p_comm)
#define C_ID(k) ("COMM"[k])
#elif defined(UNIT_p_apic) || defined(UNIT_p_apicx)
#define C_ID(k) ("APIC"[k])
#endif
#define UC(x) ((unsigned) (unsigned char) (x))

static CharStream *CSX; static int N, C, V; static int HSX; static _Bool EXACT;
/* an arbitrary stream: n arbitrary bytes (block of exactly n), a cursor inside */
static void in_stream(void)
{
    N = in_int(0, MAXLEN); C = in_int(0, N); V = in_bool() ? 4 : 3;
    CSX = (CharStream *) malloc(sizeof(CharStream));
    CSX->stream = in_bytes(N); CSX->size = N; CSX->cursor = C;
    HSX = nondet_int(); EXACT = 1;
}
static void free_stream(void) { free(CSX->stream); free(CSX); }

/* size field at p: plain in v2.3, syncsafe in v2.4; *exact is false when the field is no valid syncsafe integer */
static long size_field(const char *p, int v, _Bool *exact)
{
    unsigned a = UC(p[0]), b = UC(p[1]), c = UC(p[2]), d = UC(p[3]);
    *exact = v == 3 || ((a | b | c | d) & 0x80) == 0;
    return v == 3 ? ((long) a << 24 | b << 16 | c << 8 | d) : ((long) a << 21 | b << 14 | c << 7 | d);
}

#ifdef UNIT_taghdr
void harness(void)
{
    char *b = in_bytes(10);
    ID3v2_TagHeader *h = ID3v2_read_tag_header_from_buffer(b);
    _Bool is = b[0] == 'I' && b[1] == 'D' && b[2] == '3' && (b[3] == 3 || b[3] == 4);
    CHECK((h != NULL) == is, "tag header reported exactly for ID3 and major version 3 or 4");
    if (h != NULL)
    {
        _Bool exact; long size = size_field(b + 6, 4, &exact);
        CHECK(h->identifier[0] == 'I' && h->identifier[1] == 'D' && h->identifier[2] == '3', "identifier");
        CHECK(h->major_version == b[3], "major version as stored");
        CHECK(h->minor_version == b[4], "minor version as stored");
        CHECK(h->flags == b[5], "flags as stored");
        CHECK(!exact || h->tag_size == size, "tag size as stored");
        CHECK(h->tag_size < 0x40000000, "tag size within int range");
        CHECK(h->extended_header_size == 0, "no extended header bytes available: size 0");
        REACH("taghdr");
        ID3v2_TagHeader_free(h);
    }
    else REACH("taghdr none");
    free(b);
}
#endif

#ifdef UNIT_taghdr_cs
void harness(void)
{
    N = in_int(0, MAXLEN);
    CSX = (CharStream *) malloc(sizeof(CharStream));
    CSX->stream = in_bytes(N); CSX->size = N; CSX->cursor = 0;
    char *b = CSX->stream;
    ID3v2_TagHeader *h = TagHeader_parse(CSX);
    _Bool is = N >= 10 && b[0] == 'I' && b[1] == 'D' && b[2] == '3' && (b[3] == 3 || b[3] == 4);
    CHECK((h != NULL) == is, "tag header reported exactly for ten bytes, ID3 and major version 3 or 4");
    CHECK(CSX->size == N && 0 <= CSX->cursor && CSX->cursor <= N, "stream stays within its limits");
    if (h != NULL)
    {
        _Bool exact; long size = size_field(b + 6, 4, &exact);
        CHECK(h->identifier[0] == 'I' && h->identifier[1] == 'D' && h->identifier[2] == '3', "identifier");
        CHECK(h->major_version == b[3] && h->minor_version == b[4] && h->flags == b[5], "versions and flags as stored");
        CHECK(!exact || h->tag_size == size, "tag size as stored");
        CHECK(h->tag_size < 0x40000000 && h->extended_header_size < 0x40000000, "sizes within int range");
        if ((b[5] & 0x40) == 0 || h->tag_size < 4) CHECK(h->extended_header_size == 0 && CSX->cursor == 10, "no extended header: nothing skipped");
        else if (N >= 14)
        {
            long e = size_field(b + 10, 4, &exact);
            /* in v2.3 the field is a plain integer: the two readings agree below 128 */
            if (b[3] == 3 && e >= 128) exact = 0;
            CHECK(!exact || h->extended_header_size == e, "extended header size as stored");
            CHECK(CSX->cursor == 14, "extended header size field consumed");
            REACH("extended header");
        }
        REACH("taghdr_cs");
        ID3v2_TagHeader_free(h);
    }
    free_stream();
}
#endif

/* ---- frames ------------------------------------------------------------------------------------------------------ */
static char *B;        /* frame bytes at the cursor */
static long HS;        /* announced body size */
/* EXACT: size field is well formed; HSX: the size taken from an ill-formed field */
static _Bool frame_fits(void)
{
    B = CSX->stream + C;
    if (N - C < 10) return 0;
    if (B[0] == 0 && B[1] == 0 && B[2] == 0 && B[3] == 0) return 0;
    HS = size_field(B + 4, V, &EXACT);
    return HS <= (long) N - C - 10;
}
#define ID_IS(a, b, c, d) (B[0] == a && B[1] == b && B[2] == c && B[3] == d)
static void check_header(ID3v2_FrameHeader *h)
{
    CHECK(h->id[0] == B[0] && h->id[1] == B[1] && h->id[2] == B[2] && h->id[3] == B[3], "frame id as stored");
    CHECK(h->flags[0] == B[8] && h->flags[1] == B[9], "frame flags as stored");
    CHECK(h->size == HS, "frame size as stored");
    CHECK(CSX->cursor == C + 10 + HS, "the stream is left right behind the frame");
}
static void check_stream(void) { CHECK(0 <= CSX->cursor && CSX->cursor <= N && CSX->size == N, "stream stays within its limits"); }

#ifdef UNIT_fhdr
void harness(void)
{
    in_stream();
    EXACT = 1;
    _Bool fits = frame_fits();
    ID3v2_FrameHeader *h = FrameHeader_parse(CSX, V);
    check_stream();
    if (N - C < 10 || ID_IS(0, 0, 0, 0) || EXACT) CHECK((h != NULL) == fits, "frame header decoded exactly when header and body fit");
    if (h != NULL)
    {
        CHECK(N - C >= 10 && CSX->cursor == C + 10, "header consumed");
        CHECK(h->id[0] == B[0] && h->id[1] == B[1] && h->id[2] == B[2] && h->id[3] == B[3], "frame id as stored");
        CHECK(h->flags[0] == B[8] && h->flags[1] == B[9], "frame flags as stored");
        CHECK(0 <= h->size && h->size <= N - C - 10, "the body fits");
        CHECK(!EXACT || h->size == HS, "frame size as stored");
        REACH("fhdr");
        if (V == 4 && HS > 5000) REACH("fhdr v4");
        free(h);
    }
    else { REACH("fhdr none"); }
    free_stream();
}
#endif
/* contract of FrameHeader_parse (proved by unit fhdr), at the position C */
#ifdef USE_FrameHeader_parse
#ifndef C_ID
#define C_ID(k) B[k]
#endif
ID3v2_FrameHeader *FrameHeader_parse(CharStream *cs, const int version)
{
    SHAPE(cs == CSX && cs->cursor == C && cs->size == N && version == V, "FrameHeader_parse: called at the frame's position");
    ASSUME(cs == CSX && cs->cursor == C && cs->size == N && version == V);
    EXACT = 1;
    if (!frame_fits() && (EXACT || N - C < 10 || ID_IS(0, 0, 0, 0))) { int c = nondet_int(); ASSUME(0 <= c && c <= N); cs->cursor = c; return NULL; }
    if (!EXACT)
    {   /* no valid syncsafe size: any body that fits, or none; always the same one */
        if (HSX < 0) { cs->cursor = C + 10; return NULL; }
        ASSUME(HSX <= N - C - 10);
    }
    ID3v2_FrameHeader *h = (ID3v2_FrameHeader *) malloc(sizeof(ID3v2_FrameHeader));
    h->id[0] = C_ID(0); h->id[1] = C_ID(1); h->id[2] = C_ID(2); h->id[3] = C_ID(3);
    h->flags[0] = B[8]; h->flags[1] = B[9];
    h->size = EXACT ? (int) HS : HSX;
    cs->cursor = C + 10;
    return h;
}
#endif


/* contract of CharStream_read (proved by unit cs_read): copies min(size, what is left) bytes and advances; for more than four
 * bytes the equality of the copy is instantiated at the watched offsets WO */
#ifdef USE_CharStream_read
#define NWO 24
static long WO[NWO]; static int WOn = 0;
/* X: the same bytes from stream offset XO on, as a block of its own (offsets WO are relative to it) */
static char *X; static long XO, XN;
/* at full size X stands for the body (the code gets it from CharStream_read only, whose contract speaks of X); on small inputs it is the stream itself */
static void watch(long off) { WO[WOn++] = off; }
static void in_x(void) { X = MAXLEN < 100 ? CSX->stream + XO : in_bytes((int) XN); }
static void free_x(void) { if (MAXLEN >= 100) free(X); }
#define WATCH(off) watch(off)
int CharStream_read(CharStream *cs, char *dest, const int size)
{
    int left = cs->size - cs->cursor, n = size < 0 ? 0 : size > left ? left : size;
    REQUIRES(0 <= cs->cursor && cs->cursor <= cs->size, "CharStream_read: cursor within the stream");
    REQUIRES(n == 0 || (__CPROVER_r_ok(cs->stream + cs->cursor, n) && __CPROVER_w_ok(dest, n)), "CharStream_read: room for the bytes");
    if (size <= 4) { for (int i = 0; i < 4; i++) if (i < n) dest[i] = cs->cursor == XO ? X[i] : cs->stream[cs->cursor + i]; }
    else
    {
        long o = __CPROVER_OBJECT_SIZE(dest);
        SHAPE(__CPROVER_POINTER_OFFSET(dest) == 0 && o - n <= 4, "CharStream_read: into a block of that size");
        ASSUME(__CPROVER_POINTER_OFFSET(dest) == 0 && o - n <= 4);
        char tail[4];
        for (int d = 1; d <= 4; d++) if (o - d >= n) tail[d - 1] = dest[o - d];
        __CPROVER_havoc_object(dest);
        for (int d = 1; d <= 4; d++) if (o - d >= n) ASSUME(dest[o - d] == tail[d - 1]);
        SHAPE(cs == CSX && cs->cursor == XO && n <= XN, "CharStream_read: at the body's position");
        ASSUME(cs == CSX && cs->cursor == XO && n <= XN);
        for (int k = 0; k < NWO; k++) if (k < WOn && WO[k] >= 0 && WO[k] < n) ASSUME(dest[WO[k]] == X[WO[k]]);
    }
    cs->cursor += n;
    return n;
}
#endif
#ifdef UNIT_cs_read
void harness(void)
{
    in_stream();
    int size = in_int(-5, MAXLEN), n = size < 0 ? 0 : size > N - C ? N - C : size;
    int room = in_int(0, MAXLEN); ASSUME(room >= n);
    char *d = in_bytes(room);
    long K = in_long(0, MAXLEN); ASSUME(K < room);
    char before = d[K], sb; long K2 = in_long(0, MAXLEN); ASSUME(K2 < N); sb = CSX->stream[K2];
    int r = CharStream_read(CSX, d, size);
    CHECK(r == n, "CharStream_read: number of bytes");
    CHECK(CSX->cursor == C + n && CSX->size == N, "CharStream_read: cursor behind them");
    CHECK(d[K] == (K < n ? CSX->stream[C + K] : before), "CharStream_read: exactly those bytes copied, nothing else written");
    CHECK(CSX->stream[K2] == sb, "CharStream_read: the stream is not modified");
    REACH("read");
    free(d); free_stream();
}
#endif

/* contract of ApicFrame_new (proved by unit n_apic): a frame with copies of its own of the strings and bytes given; equality
 * of the copies is instantiated at the index KW and at the terminators */
#ifdef USE_ApicFrame_new
static long KW;
static const char *AN_D, *AN_M, *AN_P; static long AN_PS; static int AN_calls = 0;
ID3v2_ApicFrame *ApicFrame_new(const char *flags, const char *description, const char picture_type, const char *mime_type, const int picture_size, const char *data)
{
    REQUIRES(__CPROVER_r_ok(flags, 2) && picture_size >= 0 && (picture_size == 0 || __CPROVER_r_ok(data, picture_size)), "ApicFrame_new: readable picture");
    ID3v2_ApicFrame *f = (ID3v2_ApicFrame *) malloc(sizeof(ID3v2_ApicFrame));
    f->data = (ID3v2_ApicFrameData *) malloc(sizeof(ID3v2_ApicFrameData));
    f->header = (ID3v2_FrameHeader *) malloc(sizeof(ID3v2_FrameHeader));
    f->header->id[0] = 'A'; f->header->id[1] = 'P'; f->header->id[2] = 'I'; f->header->id[3] = 'C';
    f->header->flags[0] = flags[0]; f->header->flags[1] = flags[1];
    long da = (long) __CPROVER_OBJECT_SIZE(description) - (long) __CPROVER_POINTER_OFFSET(description), ma = (long) __CPROVER_OBJECT_SIZE(mime_type) - (long) __CPROVER_POINTER_OFFSET(mime_type);
    _Bool dw = u_bom(description, da), mw = u_bom(mime_type, ma);
    long dl = u_strlen_again(description, dw) + U_TERM(dw), ml = u_strlen_again(mime_type, mw) + U_TERM(mw);
    f->header->size = (int) (1 + ml + 1 + dl + picture_size);
    f->data->encoding = dw ? 1 : 0; f->data->picture_type = picture_type; f->data->picture_size = picture_size;
    f->data->description = (char *) malloc(dl); f->data->mime_type = (char *) malloc(ml); f->data->data = (char *) malloc(picture_size);
    if (0 <= KW && KW < dl) ASSUME(f->data->description[KW] == description[KW]);
    if (0 <= KW && KW < ml) ASSUME(f->data->mime_type[KW] == mime_type[KW]);
    if (0 <= KW && KW < picture_size) ASSUME(f->data->data[KW] == data[KW]);
    return f;
}
#endif

#ifdef UNIT_p_none /* anything that is no frame */
void harness(void)
{
    in_stream();
    _Bool fits = frame_fits();
    ASSUME(!fits && (N - C < 10 || EXACT || ID_IS(0, 0, 0, 0)));
    ID3v2_Frame *f = Frame_parse(CSX, V);
    CHECK(f == NULL, "no frame in padding, in less than ten bytes, or when the body does not fit");
    check_stream();
    REACH("none");
    if (N - C >= 10 && !ID_IS(0, 0, 0, 0)) REACH("body does not fit");
    if (N - C >= 10 && ID_IS(0, 0, 0, 0)) REACH("padding");
    free_stream();
}
#endif
#ifdef UNIT_p_text
void harness(void)
{
    in_stream();
    ASSUME(N - C >= 10 && CSX->stream[C] == 'T');
    _Bool fits = frame_fits();
    ID3v2_TextFrame *f = (ID3v2_TextFrame *) Frame_parse(CSX, V);
    check_stream();
    if (EXACT) CHECK((f != NULL) == (fits && HS >= 1), "text frame decoded whenever it is there in full");
    if (f != NULL)
    {
        long K = nondet_long(), sz = f->data->size;
        CHECK(sz >= 0 && __CPROVER_r_ok(f->data->text, sz + 2) && f->data->text[sz] == 0 && f->data->text[sz + 1] == 0, "text readable and terminated");
        CHECK(CSX->cursor >= C + 10, "progress");
        if (EXACT)
        {
            check_header(f->header);
            CHECK(f->data->encoding == B[10] && sz == HS - 1, "encoding and size of the text");
            if (0 <= K && K < sz) CHECK(f->data->text[K] == B[11 + K], "text as stored");
            REACH("text");
            if (V == 4 && HS > 5000) REACH("text v4");
        }
        ID3v2_Frame_free((ID3v2_Frame *) f);
    }
    free_stream();
}
#endif
#ifdef UNIT_p_other
void harness(void)
{
    in_stream();
    _Bool fits = frame_fits();
    ASSUME(fits && B[0] != 'T' && !ID_IS('C', 'O', 'M', 'M') && !ID_IS('A', 'P', 'I', 'C'));
    ID3v2_Frame *f = Frame_parse(CSX, V);
    check_stream();
    CHECK(f != NULL || !EXACT, "any other frame is decoded whenever it is there in full");
    if (f != NULL)
    {
        long K = nondet_long();
        if (EXACT)
        {
            check_header(f->header);
            if (0 <= K && K < HS) CHECK(__CPROVER_r_ok(f->data, HS) && ((char *) f->data)[K] == B[10 + K], "raw bytes as stored");
            REACH("other");
        }
        ID3v2_Frame_free(f);
    }
    free_stream();
}
#endif
#ifdef UNIT_p_comm
void harness(void)
{
    pq_init();
    in_stream();
    ASSUME(N - C >= 10);
    _Bool fits = frame_fits();
    ASSUME(ID_IS('C', 'O', 'M', 'M'));
    long content = HS - 4, dl = in_long(0, MAXLEN);
    char *d = B + 14;
    _Bool wide = fits && content >= 2 && u_bom(d, content), term = in_bool();
    if (fits && content >= 0)
    {
        if (term)
        {   /* the description ends at dl, its first terminator */
            ASSUME(0 <= dl && dl + (wide ? 2 : 1) <= content && (!wide || (dl & 1) == 0) && u_term(d, wide, dl));
            gs_fact_all(d, dl, wide);
            GS[GSn].p = d; GS[GSn].len = dl; GS[GSn].wide = wide; GSn++;
        }
        else if (wide) { for (int k = 0; k < NLEN; k++) if (PQ[k] + 2 <= content && (PQ[k] & 1) == 0) ASSUME(!u_term(d, 1, PQ[k])); }
        else { for (int k = 0; k < NLEN; k++) if (PQ[k] + 1 <= content) ASSUME(!u_term(d, 0, PQ[k])); }
    }
    ID3v2_CommentFrame *f = (ID3v2_CommentFrame *) Frame_parse(CSX, V);
    check_stream();
    if (EXACT) CHECK((f != NULL) == (fits && content >= 0 && term), "comment frame decoded whenever it is there in full");
    if (f != NULL)
    {
        long K = nondet_long(), sz = f->data->size;
        CHECK(sz >= 0 && __CPROVER_r_ok(f->data->comment, sz + 2) && f->data->comment[sz] == 0 && f->data->comment[sz + 1] == 0, "comment readable and terminated");
        CHECK(CSX->cursor >= C + 10, "progress");
        if (EXACT)
        {
            check_header(f->header);
            CHECK(f->data->encoding == B[10], "encoding as stored");
            CHECK(f->data->language[0] == B[11] && f->data->language[1] == B[12] && f->data->language[2] == B[13], "language as stored");
            CHECK(sz == content - dl - (wide ? 2 : 1), "size of the comment");
            CHECK(__CPROVER_r_ok(f->data->short_description, dl + (wide ? 2 : 1)) && u_term(f->data->short_description, wide, dl), "description readable and terminated");
            if (0 <= K && K < dl + (wide ? 2 : 1)) CHECK(f->data->short_description[K] == d[K], "description as stored");
            if (0 <= K && K < sz) CHECK(f->data->comment[K] == d[dl + (wide ? 2 : 1) + K], "comment as stored");
            REACH("comment");
            if (wide) REACH("comment wide");
        }
        ID3v2_Frame_free((ID3v2_Frame *) f);
    }
    else { if (fits && content >= 0) REACH("comment unterminated"); if (fits && content < 0) REACH("comment too short"); }
    free_stream();
}
#endif
#ifdef UNIT_p_apic /* well formed picture frames */
void harness(void)
{
    pq_init(); KW = in_long(-1, MAXLEN);
    in_stream();
    _Bool fits = frame_fits();
    ASSUME(fits && EXACT && ID_IS('A', 'P', 'I', 'C') && HS >= 1);
    long content = HS - 1, ml = in_long(0, MAXLEN), dl = in_long(0, MAXLEN);
    XN = content; XO = C + 11; in_x();
    char *m = X, *d;
    /* MIME type ends at ml, description at dl, each at its first terminator */
    ASSUME(!u_bom(m, content));
    ASSUME(ml + 2 <= content && m[ml] == 0);
    gs_fact_all(m, ml, 0);
    GS[0].p = m; GS[0].len = ml; GS[0].wide = 0;
    d = m + ml + 2;
    long dc = content - ml - 2;
    _Bool wide = u_bom(d, dc);
    int t = U_TERM(wide);
    ASSUME(dl + t <= dc && (!wide || (dl & 1) == 0) && u_term(d, wide, dl));
    gs_fact_all(d, dl, wide);
    GS[1].p = d; GS[1].len = dl; GS[1].wide = wide; GSn = 2;
    {
        long dof = ml + 2;
        WATCH(0); WATCH(1); WATCH(ml); WATCH(PQ[0]);
        WATCH(dof); WATCH(dof + 1); WATCH(dof + dl); WATCH(dof + PQ[1]);
        if (wide) { WATCH(dof + dl + 1); WATCH(dof + PQ[1] + 1); }
#ifdef UNIT_p_apic1
        WATCH(ml + 1);
#elif defined(UNIT_p_apic2)
        WATCH(KW);
#elif defined(UNIT_p_apic3)
        WATCH(dof + KW);
#else
        WATCH(dof + dl + t + KW);
#endif
    }
    ID3v2_ApicFrame *f = (ID3v2_ApicFrame *) Frame_parse(CSX, V);
    check_stream();
    CHECK(f != NULL, "picture frame decoded whenever it is there in full");
    if (f != NULL)
    {
        long K = KW, sz = f->data->picture_size;
#ifdef UNIT_p_apic1
        CHECK(sz == content - ml - 2 - dl - t, "picture size");
        CHECK(sz == 0 || __CPROVER_r_ok(f->data->data, sz), "picture readable");
        check_header(f->header);
        CHECK(f->data->encoding == B[10], "encoding as stored");
        CHECK(f->data->picture_type == m[ml + 1], "picture type as stored");
        CHECK(__CPROVER_r_ok(f->data->mime_type, ml + 1), "MIME type readable");
        CHECK(__CPROVER_r_ok(f->data->description, dl + t), "description readable");
#elif defined(UNIT_p_apic2)
        if (0 <= K && K <= ml) CHECK(f->data->mime_type[K] == m[K], "MIME type as stored");
#elif defined(UNIT_p_apic3)
        if (0 <= K && K < dl + t) CHECK(f->data->description[K] == d[K], "description as stored");
#else
        ASSUME(sz == content - ml - 2 - dl - t);
        if (0 <= K && K < sz) CHECK(f->data->data[K] == d[dl + t + K], "picture as stored");
#endif
        REACH("picture");
        if (wide) REACH("picture wide");
        ID3v2_Frame_free((ID3v2_Frame *) f);
    }
    free_x(); free_stream();
}
#endif
#ifdef UNIT_p_apicx /* picture frames whatever their content */
void harness(void)
{
    pq_init();
    in_stream();
    ASSUME(N - C >= 10);
    _Bool fits = frame_fits();
    ASSUME(ID_IS('A', 'P', 'I', 'C'));
    XN = fits && HS >= 1 ? HS - 1 : 0; XO = C + 11; in_x(); if (!EXACT) { XN = N - C - 11; }
    ID3v2_ApicFrame *f = (ID3v2_ApicFrame *) Frame_parse(CSX, V);
    check_stream();
    if (EXACT && (!fits || HS < 1)) CHECK(f == NULL, "no picture frame that is not there in full");
    if (f != NULL)
    {
        long sz = f->data->picture_size;
        CHECK(sz >= 0 && (sz == 0 || __CPROVER_r_ok(f->data->data, sz)), "picture readable");
        CHECK(CSX->cursor >= C + 10, "progress");
        REACH("picture, whatever the strings");
        ID3v2_Frame_free((ID3v2_Frame *) f);
    }
    else if (fits && HS >= 1) REACH("picture: unterminated strings");
    free_x(); free_stream();
}
#endif
