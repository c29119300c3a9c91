/* Units: the file operations, over a model of the C library's streams (below): the file as it was (S, L bytes), a temporary
 * file and the file's new content (each as a length and the byte at one watched offset WX), with faults chosen in advance:
 * open failures, no temporary file, a read error from offset RE on, a temporary file that holds TC bytes only. */
#define NSTR 1
#define NLEN 1
#define V_HOOK_ENTER(loop) f_enter()
#define V_HOOK_PRE(loop, t) f_pre(t)
#define V_HOOK_STEP(loop, t) f_step()
#define V_INT_GHOST(loop, var, value) ((value) == f_pos())
#define V_INT_GHOST2(loop, var, value) ((value) == f_left())
#define V_INT_GHOST3(loop, var, value) f_ahead(value)
#define V_BOUNDED(loop) (f_prog() > P_BEFORE)
static void f_enter(void); static void f_pre(long t); static void f_step(void); static long f_pos(void), f_left(void), f_prog(void); static _Bool f_ahead(long v);
static long P_BEFORE;
#include "verif.h"
#include "loops.h"

typedef struct { _Bool open, rd, wr, eof, err; long pos; int gets; /* single bytes asked for since the last seek, up to two */ } handle;
static FILE O_SRC, O_TMP, O_DST; static handle hs, ht, hd;
static char *S; static long L;                  /* the file as it was */
static _Bool OPENR, OPENW, OPENW2, TMPOK; static long RE, TC; /* faults */
static long WX;                                 /* watched offset of temporary file and new content */
static long TL; static char TB; static _Bool TBAD;            /* temporary file */
static _Bool TRUNC; static long DL; static char DB; static _Bool TOUCH; /* new content */
static long SO;                                 /* source offset of interest (read in bulk) */
static _Bool RERR;                              /* a read error was met */
static char NAME[2];
#define SMALL_ (MAXLEN < 100)

static void in_file(void)
{
    L = in_int(0, MAXLEN); S = in_bytes((int) L);
    OPENR = in_bool(); OPENW = in_bool(); OPENW2 = in_bool(); TMPOK = in_bool();
    RE = in_bool() ? 0x7fffffffL : in_long(0, MAXLEN); TC = in_bool() ? 0x7fffffffL : in_long(0, MAXLEN);
    WX = in_long(0, 0x7fffffff);
    NAME[0] = 'f';
}
static handle *H(FILE *f)
{
    REQUIRES(f == &O_SRC || f == &O_TMP || f == &O_DST, "stream functions: an open stream");
    ASSUME(f == &O_SRC || f == &O_TMP || f == &O_DST);
    handle *h = f == &O_SRC ? &hs : f == &O_TMP ? &ht : &hd;
    REQUIRES(h->open, "stream functions: an open stream");
    return h;
}
FILE *fopen(const char *name, const char *mode)
{
    SHAPE(name == NAME, "fopen: the file given"); ASSUME(name == NAME);
    if (mode[0] == 'r')
    {
        _Bool plus = mode[1] == '+' || (mode[1] != 0 && mode[2] == '+');
        if (!OPENR || (plus && !OPENW)) return NULL;
        SHAPE(!hs.open && !TRUNC, "fopen: one stream on the old content"); ASSUME(!hs.open && !TRUNC);
        hs.open = 1; hs.rd = 1; hs.wr = plus; hs.eof = hs.err = 0; hs.pos = 0; hs.gets = 0;
        return &O_SRC;
    }
    SHAPE(mode[0] == 'w', "fopen: reading or writing"); ASSUME(mode[0] == 'w');
    if (!OPENW || !OPENW2) return NULL;
    SHAPE(!hd.open && !TRUNC, "fopen: rewritten once"); ASSUME(!hd.open && !TRUNC);
    CHECK(!hs.open, "the file is not rewritten while it is still being read");
    TRUNC = 1; DL = 0; hd.open = 1; hd.rd = 0; hd.wr = 1; hd.eof = hd.err = 0; hd.pos = 0;
    return &O_DST;
}
FILE *tmpfile(void)
{
    if (!TMPOK) return NULL;
    SHAPE(!ht.open, "tmpfile: one temporary file"); ASSUME(!ht.open);
    ht.open = 1; ht.rd = ht.wr = 1; ht.eof = ht.err = 0; ht.pos = 0; ht.gets = 0; TL = 0; TBAD = 0;
    return &O_TMP;
}
int fclose(FILE *f) { handle *h = H(f); h->open = 0; return f == &O_TMP && TBAD ? EOF : 0; }
int ferror(FILE *f) { handle *h = H(f); return h->err; }
int feof(FILE *f) { handle *h = H(f); return h->eof; }
int fflush(FILE *f)
{
    handle *h = H(f);
    if (f == &O_TMP && TBAD) { h->err = 1; return EOF; }
    return 0;
}
void clearerr(FILE *f) { handle *h = H(f); h->err = h->eof = 0; }
void perror(const char *s) {}
int fseek(FILE *f, long off, int whence)
{
    handle *h = H(f);
    long len = f == &O_SRC ? L : f == &O_TMP ? TL : DL, p = whence == SEEK_SET ? off : whence == SEEK_CUR ? h->pos + off : len + off;
    if (p < 0) return -1;
    h->pos = p; h->eof = 0; h->gets = 0;
    return 0;
}
void rewind(FILE *f) { fseek(f, 0, SEEK_SET); H(f)->err = 0; }
long ftell(FILE *f) { return H(f)->pos; }
/* how many of n bytes can be read; sets the flags */
static long can_read(FILE *f, handle *h, long n)
{
    REQUIRES(h->rd, "reading from a stream open for reading");
    SHAPE(f != &O_DST, "the new content is not read"); ASSUME(f != &O_DST);
    long end = f == &O_SRC ? L : TL, lim = f == &O_SRC && RE < end ? RE : end, a = lim > h->pos ? lim - h->pos : 0;
    if (n <= a) return n;
    if (f == &O_SRC && RE < L && h->pos < L) { h->err = 1; RERR = 1; }
    else h->eof = 1;
    return a;
}
int getc(FILE *f)
{
    handle *h = H(f);
    if (h->gets < 2) h->gets++;
    if (can_read(f, h, 1) < 1) return EOF;
    int c;
    if (f == &O_SRC) c = (unsigned char) S[h->pos];
    else { SHAPE(!TBAD, "a temporary file in order"); c = h->pos == WX ? (unsigned char) TB : nondet_uchar(); }
    h->pos++;
    return c;
}
int fgetc(FILE *f) { return getc(f); }
/* size and count: one of them is 1, or the whole is one item */
#define ITEMS(n, size) ((size) == 1 ? (size_t) (n) : (size_t) (n) / (size))
size_t fread(void *p, size_t size, size_t count, FILE *f)
{
    handle *h = H(f);
    SHAPE(size >= 1 && size <= 0x7fffffff && count <= 0x7fffffff, "fread: sizes"); ASSUME(size >= 1 && size <= 0x7fffffff && count <= 0x7fffffff);
    size_t total = size == 1 ? count : count == 1 ? size : size * count;
    SHAPE(total <= 0x7fffffff, "fread: sizes"); ASSUME(total <= 0x7fffffff);
    REQUIRES(total == 0 || __CPROVER_w_ok(p, total), "fread: room for the bytes");
    long n = can_read(f, h, (long) total);
    char *d = (char *) p;
    if (total <= 10) { for (int k = 0; k < 10; k++) if (k < n) d[k] = f == &O_SRC ? S[h->pos + k] : h->pos + k == WX ? TB : in_char(); }
    else if (n > 0)
    {
        SHAPE(__CPROVER_POINTER_OFFSET(p) == 0, "fread: into a buffer of its own"); ASSUME(__CPROVER_POINTER_OFFSET(p) == 0);
        __CPROVER_havoc_object(p);
        if (f == &O_SRC) { if (SO >= h->pos && SO < h->pos + n) ASSUME(d[SO - h->pos] == S[SO]); }
        else if (WX >= h->pos && WX < h->pos + n) ASSUME(d[WX - h->pos] == TB);
    }
    h->pos += n;
    return count == 1 && size != 1 ? (size_t) (n == (long) size) : ITEMS(n, size);
}
size_t fwrite(const void *p, size_t size, size_t count, FILE *f)
{
    handle *h = H(f);
    REQUIRES(h->wr, "writing to a stream open for writing");
    SHAPE(size >= 1 && size <= 0x7fffffff && count <= 0x7fffffff, "fwrite: sizes"); ASSUME(size >= 1 && size <= 0x7fffffff && count <= 0x7fffffff);
    long n = (long) (size == 1 ? count : count == 1 ? size : size * count);
    SHAPE(n <= 0x7fffffff, "fwrite: sizes"); ASSUME(n <= 0x7fffffff);
    REQUIRES(n == 0 || __CPROVER_r_ok(p, n), "fwrite: readable bytes");
    const char *d = (const char *) p;
    if (f == &O_SRC) { SHAPE(n == 0, "the old content is not written over"); TOUCH = 1; return count; }
    long *len = f == &O_TMP ? &TL : &DL;
    SHAPE(h->pos == *len, "content is appended"); ASSUME(h->pos == *len);
    if (f == &O_TMP && *len + n > TC) { TBAD = 1; if (in_bool()) h->err = 1; h->pos += n; *len += n; return in_bool() ? count : 0; }
    if (WX >= *len && WX < *len + n) { if (f == &O_TMP) TB = d[WX - *len]; else DB = d[WX - *len]; }
    h->pos += n; *len += n;
    return count;
}
int putc(int c, FILE *f) { char b = (char) c; return fwrite(&b, 1, 1, f) == 1 ? (unsigned char) b : EOF; }
int fputc(int c, FILE *f) { return putc(c, f); }

/* ---- copy loops --------------------------------------------------------------------------------------------------- */
/* phase 1: old content to temporary file; phase 2: temporary file to new content */
static long P0s, T0, P0t, D0; static int PHASE; static char EXPB; static _Bool RERR0 /* met before the loop, on another stream */; static _Bool EXP_OK; /* what byte WX of the temporary file has to be, if SO is there */
static long f_pos(void) { return PHASE == 1 ? hs.pos : ht.pos; }
static long f_left(void) { return PHASE == 1 ? L - hs.pos : TL - ht.pos; }
/* a loop that reads one byte ahead: LAG. ended: that byte is the end (or an error) */
static _Bool LAG, ENDED0;
static _Bool f_ended(void) { return PHASE == 1 ? hs.eof || hs.err : ht.eof; }
static long f_lag(void) { return LAG && f_ended() && !ENDED0; }
static long f_prog(void) { return f_pos() + f_lag(); }
static _Bool f_ahead(long v)
{
    long p = f_pos() - 1;
    if (!LAG) return 0;
    if (f_ended()) return v == EOF;
    if (v < 0 || v > 255 || p < 0) return 0;
    return PHASE == 1 ? p < L && v == (unsigned char) S[p] : p != WX || v == (unsigned char) TB;
}
static _Bool f_inv(void)
{
    if (LAG && ENDED0 && !(f_ended() && f_pos() == (PHASE == 1 ? P0s : P0t))) return 0;
    if (PHASE == 1)
        return hs.open && ht.open && hs.rd && !TRUNC && hs.pos >= P0s && (hs.pos <= L || hs.pos == P0s) && (RE >= L || hs.pos <= RE || hs.pos == P0s) && ht.pos == TL && TL - T0 == hs.pos - P0s + f_lag()
            && (TBAD || TL <= TC) && (TBAD || !EXP_OK || WX >= TL || WX < T0 || TB == EXPB) && (!hs.err || (RERR && RE < L)) && (!RERR || hs.err || RERR0) && (!hs.eof || hs.pos >= L) && (!ht.err || TBAD);
    return ht.open && hd.open && TRUNC && ht.pos >= P0t && ht.pos <= TL && hd.pos == DL && DL - D0 == ht.pos - P0t + f_lag() && (WX >= DL || DB == TB) && (!ht.eof || ht.pos >= TL);
}
static void f_enter(void)
{
    PHASE = hs.open ? 1 : 2;
    if (PHASE == 1) RERR0 = RERR && !hs.err;
    LAG = (PHASE == 1 ? hs.gets : ht.gets) == 1; ENDED0 = f_ended();
    P0s = hs.pos; T0 = TL; P0t = ht.pos; D0 = DL;
    INV(f_inv(), "copying: state at the loop");
}
static void f_pre(long t)
{
    if (PHASE == 1)
    {
        hs.pos = nondet_long(); hs.eof = nondet_bool(); hs.err = nondet_bool(); RERR = RERR || nondet_bool();
        long d = hs.pos - P0s;
        if (TBAD == 0) TBAD = nondet_bool();
        ht.err = nondet_bool(); TL = T0 + d + f_lag(); ht.pos = TL;
        if (WX >= T0) TB = nondet_char();
        ASSUME(!TBAD || TL > TC);
    }
    else { ht.pos = nondet_long(); ht.eof = nondet_bool(); DL = D0 + (ht.pos - P0t) + f_lag(); hd.pos = DL; DB = nondet_char(); }
    ASSUME(f_inv());
    P_BEFORE = f_prog();
}
static void f_step(void) { INV(f_inv(), "copying: state at the loop"); }

/* ---- the tag in the file --------------------------------------------------------------------------------------------- */
static _Bool HASTAG; static int OTS; /* size announced by it */
#ifdef USE_ID3v2_read_tag_header_from_buffer
/* contract (unit taghdr): decided by the ten bytes */
ID3v2_TagHeader *ID3v2_read_tag_header_from_buffer(const char *b)
{
    REQUIRES(__CPROVER_r_ok(b, 10), "ID3v2_read_tag_header_from_buffer: ten bytes");
    _Bool same = L >= 10;
    for (int k = 0; k < 10; k++) same = same && b[k] == S[k];
    CHECK(same, "the header is looked for in the first ten bytes of the file");
    if (!HASTAG) return NULL;
    ID3v2_TagHeader *h = (ID3v2_TagHeader *) malloc(sizeof(*h));
    h->tag_size = OTS;
    return h;
}
#endif
static void in_old_tag(void) { HASTAG = in_bool(); if (L < 10) HASTAG = 0; OTS = in_int(0, MAXLEN); }
static long old_size(void) { return OPENR && RE >= 10 && HASTAG ? OTS + 10L : 0; }
static _Bool readable(void) { return OPENR && L >= 10 && RE >= 10; }
static void check_closed(void) { CHECK(!hs.open && !ht.open && !hd.open, "no file is left open"); }
static void check_untouched(void) { CHECK(!TRUNC && !TOUCH, "the file keeps its content"); }

#ifdef UNIT_f_hdr
void harness(void)
{
    in_file(); in_old_tag();
    ID3v2_TagHeader *h = ID3v2_read_tag_header(NAME);
    CHECK((h != NULL) == (readable() && HASTAG), "the header in the file's first ten bytes, or nothing");
    if (h != NULL) { CHECK(h->tag_size == OTS, "the header found"); REACH("header"); } else REACH("none");
    check_closed(); check_untouched(); CHECK(!ht.open, "no temporary file");
    free(h); free(S);
}
#endif

#if defined(UNIT_f_read) || defined(UNIT_f_load)
static void *RT; static int PN = 0;
#ifdef UNIT_f_read
ID3v2_Tag *ID3v2_read_tag_from_buffer(const char *b, const int n)
#else
ID3v2_tag *load_tag_with_buffer(const char *b, int n)
#endif
{
    long m = RE < L ? RE : L, e = m < OTS + 10L ? m : OTS + 10L;
    REQUIRES(n >= 0 && (n == 0 || __CPROVER_r_ok(b, n)), "reading from a buffer: readable bytes");
    SHAPE(__CPROVER_POINTER_OFFSET(b) == 0, "reading from a buffer");
    CHECK(n == e || (n >= e && n <= m), "the whole tag is read, as far as the file goes");
    if (0 <= SO && SO < n) CHECK(b[SO] == S[SO], "what is read are the file's bytes");
    CHECK(HASTAG, "no tag is read where there is none");
    PN++;
    return RT;
}
void harness(void)
{
    in_file(); in_old_tag();
    SO = in_long(0, MAXLEN);
    RT = in_bool() ? NULL : malloc(8);
#ifdef UNIT_f_read
    void *t = ID3v2_read_tag(NAME);
#else
    void *t = load_tag(NAME);
#endif
    if (readable() && HASTAG) { CHECK(PN == 1 && t == RT, "the tag in the file's bytes"); REACH("tag"); if (L < OTS) REACH("cut off"); }
    else { CHECK(t == NULL && PN == 0, "nothing without a tag"); REACH("none"); }
    check_closed(); check_untouched();
    free(RT); free(S);
}
#endif

#ifdef UNIT_f_write
static ID3v2_Tag *TAG; static int TS, PAD; static CharStream *SER; static long SL; static char SB;
#define MAXT (MAXLEN < 100 ? MAXLEN : 0x08000000)
CharStream *Tag_to_char_stream(ID3v2_Tag *tag)
{
    REQUIRES(tag == TAG && SER == NULL, "Tag_to_char_stream: the tag");
    CHECK(tag->header->tag_size >= (unsigned) TS && tag->header->tag_size - TS == (unsigned) (tag->padding_size - PAD), "size and padding grow by the same amount");
    CHECK(tag->header->tag_size <= (unsigned) TS + 0x100000, "a sensible amount of padding");
    SL = (long) tag->header->tag_size + 10;
    SER = (CharStream *) malloc(sizeof(CharStream));
    SER->size = (int) SL; SER->cursor = nondet_int();
    SER->stream = (char *) malloc(SL);
    if (WX < SL) ASSUME(SER->stream[WX] == SB);
    /* where in the old content the watched byte of the new one comes from */
    SO = WX - SL + old_size();
    EXP_OK = WX < SL || (SO < L && SO < RE); EXPB = WX < SL ? SB : EXP_OK ? S[SO] : 0;
    return SER;
}
void harness(void)
{
    in_file(); in_old_tag();
    SB = in_char();
    TAG = (ID3v2_Tag *) malloc(sizeof(ID3v2_Tag)); TAG->header = (ID3v2_TagHeader *) malloc(sizeof(ID3v2_TagHeader));
    TS = in_int(0, MAXT); PAD = SMALL_ ? in_int(2044, 2060) : in_int(0, MAXT); TAG->header->tag_size = TS; TAG->padding_size = PAD;
    ID3v2_TagHeader h0 = *TAG->header; ID3v2_FrameList *l0 = TAG->frames;
    _Bool none = in_bool();
    ID3v2_write_tag(NAME, none ? (ID3v2_Tag *) NULL : TAG);
    check_closed();
    CHECK(TAG->header->tag_size - TS == (unsigned) (TAG->padding_size - PAD) && TAG->padding_size >= PAD, "the tag's size accounts for the padding");
    CHECK(TAG->frames == l0 && TAG->header->major_version == h0.major_version && TAG->header->minor_version == h0.minor_version && TAG->header->flags == h0.flags && TAG->header->extended_header_size == h0.extended_header_size, "the rest of the tag is left alone");
    if (none) { check_untouched(); CHECK(TAG->header->tag_size == (unsigned) TS, "nothing happens for no tag"); REACH("no tag"); }
    else if (!OPENR || !OPENW || !OPENW2 || !TMPOK || RERR || TBAD)
    {
        check_untouched();
        if (RERR) REACH("read error"); if (TBAD) REACH("disk full"); if (!TMPOK) REACH("no temporary file"); if (!OPENR) REACH("not openable");
    }
    else
    {
        long o = old_size(), rest = L > o ? L - o : 0;
        CHECK(TRUNC && !TOUCH, "the file is rewritten");
        CHECK(DL == SL + rest, "tag and audio, and nothing else");
        if (WX < DL) CHECK(DB == (WX < SL ? SB : S[SO]), "the tag's bytes, then the audio's");
        if (rest > (SMALL_ ? 1 : 5000) && WX > SL && o > 0) REACH("rewritten"); if (o == 0) REACH("first tag"); if (o > L) REACH("cut off tag");
    }
    free(TAG->header); free(TAG); free(S);
}
#endif

#ifdef UNIT_f_delete
void harness(void)
{
    in_file(); in_old_tag();
    SO = WX + old_size();
    EXP_OK = SO < L && SO < RE; EXPB = EXP_OK ? S[SO] : 0;
    ID3v2_delete_tag(NAME);
    check_closed();
    if (!readable() || !HASTAG) { check_untouched(); REACH("no tag"); }
    else if (!OPENW || !OPENW2 || !TMPOK || RERR || TBAD)
    {
        check_untouched();
        if (RERR) REACH("read error"); if (TBAD) REACH("disk full"); if (!TMPOK) REACH("no temporary file");
    }
    else
    {
        long o = old_size(), rest = L > o ? L - o : 0;
        CHECK(TRUNC && !TOUCH, "the file is rewritten");
        CHECK(DL == rest, "the audio, and nothing else");
        if (WX < DL) CHECK(DB == S[SO], "the audio's bytes");
        if (rest > (SMALL_ ? 1 : 5000)) REACH("rewritten"); if (o > L) REACH("cut off tag");
    }
    free(S);
}
#endif
