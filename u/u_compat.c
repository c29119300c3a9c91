/* Units: the compatibility layer. The main interface goes by contract (u_tag.c, u_tagio.c), and so do the lists (u_list.c). */
#define NSTR 2
#define NLEN 2
#ifndef NK
#define NK 3
#endif
#if defined(UNIT_k_get) || defined(UNIT_k_set) || defined(UNIT_k_cover)
#define COMPAT
#endif
#if defined(UNIT_k_load)
#define OWN_INT_GHOST
#define V_INT_GHOST(loop, var, value) ((value) == V_T)
#endif
#if defined(UNIT_k_content)
/* copy loops, if any: byte KI of the text */
static const char *KS; static long KI;
#define V_WATCH(ptr, upto) (!(KI < (upto)) || (KI < (long) __CPROVER_OBJECT_SIZE(ptr) && V_BASE(ptr)[KI] == KS[KI]))
#endif
#include "window.h"
static void l_havoc(long t);
static void l_step(long t);
#define WINDOW(t) ASSUME(((t) == NN || slot(t) >= 0) && ((t) == 0 || slot((t) - 1) >= 0))
#include "loops.h"
ID3v2_frame *frame_to_compat_frame(ID3v2_Frame *frame);

/* contract of Frame_to_char_stream (units z_*): header and body; instantiated at byte K */
#ifdef USE_Frame_to_char_stream
static long K; static char WB; static ID3v2_Frame *ZF;
CharStream *Frame_to_char_stream(ID3v2_Frame *frame)
{
    REQUIRES(__CPROVER_r_ok(frame, sizeof(*frame)) && __CPROVER_r_ok(frame->header, sizeof(ID3v2_FrameHeader)), "Frame_to_char_stream: a frame");
    CharStream *cs = (CharStream *) malloc(sizeof(CharStream));
    int n = frame->header->size + 10;
    cs->stream = (char *) malloc(n); cs->size = n; cs->cursor = n;
    if (frame == ZF && 0 <= K && K < n - 10) ASSUME(cs->stream[10 + K] == WB);
    return cs;
}
#endif

#ifdef UNIT_k_frame
static void l_havoc(long t) {}
static void l_step(long t) {}
void harness(void)
{
    ID3v2_Frame *f = in_frame(); ID3v2_FrameHeader h0;
    int n = in_int(0, MAXLEN); f->header->size = n; h0 = *f->header;
    K = in_long(0, MAXLEN); WB = in_char(); ZF = f;
    ID3v2_frame *c = frame_to_compat_frame(f);
    CHECK(c != NULL, "a compat frame");
    CHECK(eqid(c->frame_id, h0.id), "identifier of the frame");
    CHECK(c->size == n, "size of the frame");
    CHECK(c->flags[0] == h0.flags[0] && c->flags[1] == h0.flags[1], "both flags bytes of the frame");
    CHECK(c->frame == f, "the frame underneath");
    CHECK(n == 0 || __CPROVER_r_ok(c->data, n), "all bytes of the body are there");
    if (K < n) CHECK(c->data[K] == WB, "the body's bytes, as they are written");
    CHECK(f->header->size == n && eqid(f->header->id, h0.id), "the frame is left alone");
    REACH("frame"); if (K > 5000 && K < n) REACH("body");
    free(c->data); free(c); free_in_frame(f);
}
#endif

#ifdef UNIT_k_load
static ID3v2_Tag *TAG; static int PN = 0; static const char *BUF; static long LEN;
static LT *dummy;
static ID3v2_frame_list *ADDL; static long CONV = 0, ADDS = 0; static ID3v2_frame *LASTC; static ID3v2_Frame *LASTF;
ID3v2_Tag *ID3v2_read_tag_from_buffer(const char *b, const int n)
{
    REQUIRES(PN == 0 && n == LEN && (n == 0 || __CPROVER_r_ok(b, n)), "ID3v2_read_tag_from_buffer: the bytes given");
    SHAPE(b == BUF, "ID3v2_read_tag_from_buffer: the bytes given");
    PN++;
    return TAG;
}
#ifdef USE_frame_to_compat_frame
static ID3v2_frame CTOK;
/* contract (unit k_frame) */
ID3v2_frame *frame_to_compat_frame(ID3v2_Frame *frame)
{
    REQUIRES(__CPROVER_r_ok(frame, sizeof(*frame)), "frame_to_compat_frame: a frame");
    CHECK(LASTC == NULL, "every frame converted is kept");
    ID3v2_frame c; CTOK = c;
    for (int k = 0; k < 4; k++) CTOK.frame_id[k] = frame->header->id[k];
    CTOK.size = frame->header->size; CTOK.flags[0] = frame->header->flags[0]; CTOK.flags[1] = frame->header->flags[1]; CTOK.frame = frame;
    LASTC = &CTOK; LASTF = frame; CONV++;
    return LASTC;
}
#endif
#ifdef USE_add_to_list
void add_to_list(ID3v2_frame_list *list, ID3v2_frame *frame)
{
    REQUIRES(__CPROVER_w_ok(list, sizeof(*list)), "add_to_list: a list");
    CHECK(frame != NULL && frame == LASTC, "each frame is added once");
    int s = slot(ADDS);
    CHECK(s < 0 || LASTF == FR[s], "the frames in the order of the tag");
    CHECK(s >= 0 || LASTF != NULL, "a frame of the tag");
    CHECK(ADDL == NULL || ADDL == list, "all frames go to one list");
    ADDL = list; ADDS++; LASTC = NULL;
}
#endif
static long k_done(long t) { return NF == 0 ? 0 : t; } /* the node of an empty list holds no frame */
static _Bool k_inv(long t) { return CONV == k_done(t) && ADDS == k_done(t) && LASTC == NULL; }
static void l_havoc(long t) { WINDOW(t); CONV = ADDS = k_done(t); LASTC = NULL; }
static void l_step(long t) { INV(k_inv(t), "loading: one compat frame for each frame so far"); check_same(); }
void harness(void)
{
    in_list(); M = NF; bounds();
    LEN = in_int(0, MAXLEN); BUF = in_bytes((int) LEN);
    _Bool none = in_bool();
    TAG = none ? NULL : (ID3v2_Tag *) malloc(sizeof(ID3v2_Tag));
    ID3v2_TagHeader h;
    if (!none) { TAG->header = (ID3v2_TagHeader *) malloc(sizeof(ID3v2_TagHeader)); TAG->frames = HEAD; ASSUME((int) TAG->header->tag_size >= 0 && (int) TAG->header->extended_header_size >= 0); h = *TAG->header; }
#ifdef REAL
    for (int s = 0; s < NK; s++) if (s < KK && NF > 0) FR[s]->header->size = in_int(0, MAXLEN);
#endif
    ID3v2_tag *c = load_tag_with_buffer(BUF, (int) LEN);
    CHECK((c == NULL) == none, "a tag exactly when the main interface reads one");
    if (c == NULL) REACH("no tag");
    else
    {
        ID3v2_header *g = c->tag_header;
        CHECK(c->tag == TAG, "the tag underneath is the one read");
        CHECK(g->tag[0] == h.identifier[0] && g->tag[1] == h.identifier[1] && g->tag[2] == h.identifier[2] && g->major_version == h.major_version && g->minor_version == h.minor_version && g->flags == h.flags && g->tag_size == (int) h.tag_size && g->extended_header_size == (int) h.extended_header_size, "the same header fields");
#ifndef REAL
        CHECK(CONV == NF && ADDS == NF && LASTC == NULL, "one compat frame for each frame");
        CHECK(ADDL == NULL || ADDL == c->frames, "the frames are the tag's");
        CHECK(c->frames != NULL && c->frames->frame == NULL && c->frames->next == NULL && c->frames->start == NULL, "the list starts empty");
#else
        ID3v2_frame_list *l = c->frames; int n = 0;
        for (int k = 0; k < NK + 1; k++) if (l != NULL && l->frame != NULL) { CHECK(n < NF && l->frame->frame == FR[n], "the frames in the order of the tag"); n++; l = l->next; }
        CHECK(n == NF, "one compat frame for each frame");
        l = c->frames;
        for (int k = 0; k < NK + 1; k++) if (l != NULL) { ID3v2_frame_list *x = l->next; if (l->frame != NULL) { free(l->frame->data); free(l->frame); } free(l); l = x; }
#endif
        check_same();
        if (NF > 1000) REACH("many frames"); if (NF == 0) REACH("no frames"); if (NF == 2) REACH("two frames");
#ifndef REAL
        free(c->frames);
#endif
        free(c->raw); free(c->tag_header); free(c); free(TAG->header); free(TAG);
    }
    free((char *) BUF); free_nodes(); free_frames();
}
#endif

#ifdef UNIT_k_new
static void l_havoc(long t) {}
static void l_step(long t) {}
void harness(void)
{
    ID3v2_tag *t = new_tag();
    CHECK(t != NULL && t->tag != NULL && t->tag_header != NULL && t->frames != NULL, "a tag");
    ID3v2_header *h = t->tag_header;
    CHECK(h->tag[0] == 'I' && h->tag[1] == 'D' && h->tag[2] == '3' && h->major_version == 3 && h->minor_version == 0 && h->flags == 0 && h->tag_size == 0 && h->extended_header_size == 0, "the header of an empty v2.3 tag");
    CHECK(t->frames->frame == NULL && t->frames->next == NULL && t->frames->start == NULL, "no frames");
    ID3v2_TagHeader *g = t->tag->header;
    CHECK(g->identifier[0] == 'I' && g->identifier[1] == 'D' && g->identifier[2] == '3' && g->major_version == 3 && g->minor_version == 0 && g->flags == 0 && g->tag_size == 0 && g->extended_header_size == 0, "an empty v2.3 tag underneath");
    CHECK(t->tag->frames != NULL && t->tag->frames->frame == NULL && t->tag->frames->next == NULL && t->tag->frames->start == NULL && t->tag->padding_size == 0, "no frames underneath");
    CHECK(t->raw == NULL, "no bytes it was read from");
    free(t->tag->frames); free(t->tag->header); free(t->tag); free(t->frames); free(h); free(t);
    REACH("new");
}
#endif

#ifdef UNIT_k_content
static void l_havoc(long t) {}
static void l_step(long t) {}
void harness(void)
{
    int w = in_int(0, 3); long i = in_long(0, MAXLEN);
    ID3v2_frame c;
    if (w == 0)
    {
        ID3v2_TextFrame *f = (ID3v2_TextFrame *) malloc(sizeof(*f)); ID3v2_TextFrameData *d = f->data = (ID3v2_TextFrameData *) malloc(sizeof(*d));
        int n = d->size = in_int(0, MAXLEN); d->text = in_bytes(n); c.frame = (ID3v2_Frame *) f; char e = d->encoding;
        VB[0] = n; KS = d->text; KI = i;
        ID3v2_frame_text_content *x = parse_text_frame_content(&c);
        CHECK(x != NULL && x->encoding == e && x->size == n, "text: encoding and size");
        CHECK(n == 0 || __CPROVER_r_ok(x->data, n), "text: readable");
        if (i < n) CHECK(x->data[i] == d->text[i], "text: the same");
        CHECK(d->size == n && d->encoding == e, "the frame is left alone");
        REACH("text");
        if (x->data != d->text) free(x->data);
        free(x); free(d->text); free(d); free(f);
    }
    if (w == 1)
    {
        ID3v2_CommentFrame *f = (ID3v2_CommentFrame *) malloc(sizeof(*f)); ID3v2_CommentFrameData *d = f->data = (ID3v2_CommentFrameData *) malloc(sizeof(*d));
        long L; _Bool W; int n = d->size = in_int(0, MAXLEN); d->comment = in_bytes(n); d->short_description = in_string_len(&L, &W, MAXLEN); c.frame = (ID3v2_Frame *) f; char e = d->encoding;
        ID3v2_frame_comment_content *x = parse_comment_frame_content(&c);
        CHECK(x != NULL && x->text != NULL && x->text->encoding == e && x->text->size == n, "comment: encoding and size");
        CHECK(__CPROVER_r_ok(x->language, 3) && x->language[0] == d->language[0] && x->language[1] == d->language[1] && x->language[2] == d->language[2], "comment: language");
        CHECK(__CPROVER_r_ok(x->short_description, L + U_TERM(W)), "comment: description readable");
        if (i < L + U_TERM(W)) CHECK(x->short_description[i] == d->short_description[i], "comment: the same description");
        CHECK(n == 0 || __CPROVER_r_ok(x->text->data, n), "comment: text readable");
        if (i < n) CHECK(x->text->data[i] == d->comment[i], "comment: the same text");
        REACH("comment");
    }
    if (w == 2)
    {
        ID3v2_ApicFrame *f = (ID3v2_ApicFrame *) malloc(sizeof(*f)); ID3v2_ApicFrameData *d = f->data = (ID3v2_ApicFrameData *) malloc(sizeof(*d));
        long L, L2; _Bool W, W2; int n = d->picture_size = in_int(0, MAXLEN); d->data = in_bytes(n); d->mime_type = in_string_len(&L, &W, MAXLEN); d->description = in_string_len(&L2, &W2, MAXLEN);
        c.frame = (ID3v2_Frame *) f; char e = d->encoding, p = d->picture_type;
        ID3v2_frame_apic_content *x = parse_apic_frame_content(&c);
        CHECK(x != NULL && x->encoding == e && x->picture_size == n && x->picture_type == p, "picture: encoding, size and type");
        CHECK(__CPROVER_r_ok(x->mime_type, L + U_TERM(W)) && __CPROVER_r_ok(x->description, L2 + U_TERM(W2)), "picture: strings readable");
        if (i < L + U_TERM(W)) CHECK(x->mime_type[i] == d->mime_type[i], "picture: the same MIME type");
        if (i < L2 + U_TERM(W2)) CHECK(x->description[i] == d->description[i], "picture: the same description");
        CHECK(n == 0 || __CPROVER_r_ok(x->data, n), "picture: readable");
        if (i < n) CHECK(x->data[i] == d->data[i], "picture: the same");
        REACH("picture");
    }
    if (w == 3)
    {
        CHECK(parse_text_frame_content(NULL) == NULL && parse_comment_frame_content(NULL) == NULL && parse_apic_frame_content(NULL) == NULL, "no content for no frame");
        REACH("none");
    }
}
#endif

#ifdef UNIT_k_file
static int WN = 0, DN = 0; static const char *FNAME; static ID3v2_Tag *TT;
void ID3v2_write_tag(const char *file_name, ID3v2_Tag *tag) { CHECK(file_name == FNAME && tag == TT, "set_tag: writes the tag underneath to the file"); WN++; }
void ID3v2_delete_tag(const char *file_name) { CHECK(file_name == FNAME, "remove_tag: deletes the tag of the file"); DN++; }
static void l_havoc(long t) {}
static void l_step(long t) {}
void harness(void)
{
    char n[2] = "f"; FNAME = n;
    ID3v2_tag *t = (ID3v2_tag *) malloc(sizeof(*t)); TT = t->tag = (ID3v2_Tag *) malloc(sizeof(ID3v2_Tag));
    if (in_bool()) { set_tag(n, t); CHECK(WN == 1 && DN == 0, "set_tag: writes once"); REACH("set"); }
    else { remove_tag(n); CHECK(WN == 0 && DN == 1, "remove_tag: deletes once"); REACH("remove"); }
    free(TT); free(t);
}
#endif

#if defined(UNIT_k_get) || defined(UNIT_k_set) || defined(UNIT_k_cover)
static ID3v2_tag *CTAG; static ID3v2_Tag *MAIN;
static void want_id(const char *id) { for (int k = 0; k < 4; k++) ASSUME(ID[k] == id[k]); }
static void in_ctag(void)
{
    in_list(); in_match_id(); bounds();
    CTAG = (ID3v2_tag *) malloc(sizeof(ID3v2_tag));
    CTAG->frames = HEAD; CTAG->tag_header = NULL; CTAG->raw = NULL;
    MAIN = CTAG->tag = (ID3v2_Tag *) malloc(sizeof(ID3v2_Tag));
}
static void l_havoc(long t) { WINDOW(t); }
static void l_step(long t) { check_same(); }
#endif

#ifdef UNIT_k_get
#ifdef USE_get_from_list
/* contract (unit c_get): the first frame with that identifier */
ID3v2_frame *get_from_list(ID3v2_frame_list *list, const char *frame_id)
{
    REQUIRES(list == HEAD && __CPROVER_r_ok(frame_id, 4), "get_from_list: the tag's frames and an identifier");
    if (eqid(frame_id, ID)) return M < NF ? FR[slot(M)] : (FT *) NULL;
    int s = in_int(0, NK - 1);
    return NF > 0 && s < KK && eqid(FID(FR[s]), frame_id) ? FR[s] : (FT *) NULL;
}
#endif
void harness(void)
{
    in_ctag();
    int w = in_int(0, 10); FT *r = NULL;
#define GET(n, id, f) if (w == n) { want_id(id); r = f(CTAG); REACH(#f); }
    GET(0, "TIT2", tag_get_title) GET(1, "TPE1", tag_get_artist) GET(2, "TALB", tag_get_album) GET(3, "TPE2", tag_get_album_artist) GET(4, "TCON", tag_get_genre) GET(5, "TRCK", tag_get_track)
    GET(6, "TYER", tag_get_year) GET(7, "COMM", tag_get_comment) GET(8, "TPOS", tag_get_disc_number) GET(9, "TCOM", tag_get_composer) GET(10, "APIC", tag_get_album_cover)
    CHECK(r == (M < NF ? FR[slot(M)] : (FT *) NULL), "the first frame with the identifier, or nothing");
    check_same();
    if (M < NF) REACH("found"); else REACH("not found");
    free_nodes(); free_frames(); free(MAIN); free(CTAG);
}
#endif

#if defined(UNIT_k_set) || defined(UNIT_k_cover)
/* the main interface by contract (units t_set_*, t_get): after a set the tag's first frame with that identifier is the one set */
static int SETN = 0; static char SET_ID[4]; static ID3v2_Frame *FM; static ID3v2_FrameHeader FMH; static ID3v2_Frame OTHER;
static const char *TEXT, *SET_TEXT, *SET_LANG, *SET_MIME, *SET_PIC; static int SET_SIZE;
static void did_set(ID3v2_Tag *tag, const char *id, const char *text)
{
    REQUIRES(tag == MAIN, "a set on the tag underneath");
    SETN++;
    for (int k = 0; k < 4; k++) SET_ID[k] = id[k];
    SET_TEXT = text;
}
#define NAMED(X) X(title, "TIT2") X(artist, "TPE1") X(album, "TALB") X(album_artist, "TPE2") X(genre, "TCON") X(track, "TRCK") X(year, "TYER") X(disc_number, "TPOS") X(composer, "TCOM")
static void *did_get(ID3v2_Tag *tag, const char *id)
{
    REQUIRES(tag == MAIN, "a lookup in the tag underneath");
    if (SETN > 0 && eqid(id, SET_ID)) return FM;
    return in_bool() ? &OTHER : (ID3v2_Frame *) NULL;
}
#define X_(n, id) void ID3v2_Tag_set_##n(ID3v2_Tag *tag, const char *text) { did_set(tag, id, text); } ID3v2_TextFrame *ID3v2_Tag_get_##n##_frame(ID3v2_Tag *tag) { return (ID3v2_TextFrame *) did_get(tag, id); }
NAMED(X_)
void ID3v2_Tag_set_text_frame(ID3v2_Tag *tag, ID3v2_TextFrameInput *in) { CHECK(in->flags[0] == 0 && in->flags[1] == 0, "empty flags"); did_set(tag, in->id, in->text); }
void ID3v2_Tag_set_comment(ID3v2_Tag *tag, const char *lang, const char *comment) { REQUIRES(__CPROVER_r_ok(lang, 3), "a language"); SET_LANG = lang; did_set(tag, "COMM", comment); }
void ID3v2_Tag_set_album_cover(ID3v2_Tag *tag, const char *mime, const int size, const char *data)
{
    REQUIRES(size == 0 || __CPROVER_r_ok(data, size), "ID3v2_Tag_set_album_cover: a picture");
    SET_MIME = mime; SET_SIZE = size; SET_PIC = data; did_set(tag, "APIC", NULL);
}
ID3v2_CommentFrame *ID3v2_Tag_get_comment_frame(ID3v2_Tag *tag) { return (ID3v2_CommentFrame *) did_get(tag, "COMM"); }
ID3v2_ApicFrame *ID3v2_Tag_get_album_cover_frame(ID3v2_Tag *tag) { return (ID3v2_ApicFrame *) did_get(tag, "APIC"); }
ID3v2_Frame *ID3v2_Tag_get_frame(ID3v2_Tag *tag, const char *id) { return (ID3v2_Frame *) did_get(tag, id); }
#endif

#ifdef UNIT_k_set
static FT *CF; static int CONVN = 0, UN = 0;
#ifdef USE_frame_to_compat_frame
/* contract (unit k_frame) */
ID3v2_frame *frame_to_compat_frame(ID3v2_Frame *frame)
{
    REQUIRES(frame != NULL && __CPROVER_r_ok(frame, sizeof(*frame)), "frame_to_compat_frame: a frame");
    CHECK(frame == FM && SETN == 1, "the frame converted is the one just set");
    CF = in_frame(); CF->frame = frame; CONVN++;
    for (int k = 0; k < 4; k++) CF->frame_id[k] = FMH.id[k];
    return CF;
}
void add_uniq_to_list(ID3v2_frame_list *head, ID3v2_frame *frame)
{
    REQUIRES(head == HEAD && __CPROVER_r_ok(frame, sizeof(*frame)), "add_uniq_to_list: the tag's frames and a frame");
    CHECK(frame == CF && UN == 0, "the converted frame replaces the old one, once");
    UN++;
}
#endif
void harness(void)
{
    in_ctag();
    char e = in_char(), text[2] = {in_char(), 0}, mime[2] = {in_char(), 0}; TEXT = text;
    FM = (ID3v2_Frame *) malloc(sizeof(ID3v2_Frame)); FM->header = &FMH; FMH.size = in_int(1, MAXLEN);
    for (int k = 0; k < 4; k++) FMH.id[k] = ID[k];
    int w = in_int(0, 10), n = in_int(0, MAXLEN); char *pic = in_bytes(n);
#define SET(k, id, f) if (w == k) { want_id(id); f(text, e, CTAG); REACH(#f); }
    SET(0, "TIT2", tag_set_title) SET(1, "TPE1", tag_set_artist) SET(2, "TALB", tag_set_album) SET(3, "TPE2", tag_set_album_artist) SET(4, "TCON", tag_set_genre) SET(5, "TRCK", tag_set_track)
    SET(6, "TYER", tag_set_year) SET(7, "COMM", tag_set_comment) SET(8, "TPOS", tag_set_disc_number) SET(9, "TCOM", tag_set_composer)
    if (w == 10) { want_id("APIC"); tag_set_album_cover_from_bytes(pic, mime, n, CTAG); REACH("tag_set_album_cover_from_bytes"); }
    CHECK(SETN == 1 && eqid(SET_ID, ID), "the frame of that name is set underneath, and no other");
    if (w < 10) { CHECK(SET_TEXT == text, "with the text given"); if (w == 7) CHECK(SET_LANG[0] == 'e' && SET_LANG[1] == 'n' && SET_LANG[2] == 'g', "in english"); }
    else CHECK(SET_MIME == mime && SET_SIZE == n && (n == 0 || SET_PIC == pic), "with MIME type and picture given");
#ifndef REAL
    CHECK(CONVN == 1 && UN == 1, "and the compat list gets the new frame");
    check_same();
    free_nodes(); free_frames(); free_in_frame(CF);
#else
    LT *l = HEAD; int k = 0;
    for (int j = 0; j < NK + 1; j++)
        if (l != NULL && l->frame != NULL)
        {
            FT *f = l->frame;
            if (k == M) { CHECK(f->frame == FM && eqid(f->frame_id, ID) && f->size == FMH.size && f->flags[0] == FMH.flags[0] && f->flags[1] == FMH.flags[1], "the compat list gets the new frame in place"); CF = f; }
            else CHECK(k < NF && f == FR[k], "the other frames stay");
            k++; l = l->next;
        }
    CHECK(k == (M < NF ? NF : NF + 1), "no other frame is added or lost");
    l = HEAD;
    for (int j = 0; j < NK + 1; j++) if (l != NULL) { LT *x = l->next; if (l->frame != NULL) { free(l->frame->data); free(l->frame); } free(l); l = x; }
#endif
    free(FM); free(pic); free(MAIN); free(CTAG);
}
#endif

#ifdef UNIT_k_cover
/* the picture file: L bytes S, or not there; its name: any string, the last dot at DOT (-1: none) */
static _Bool OPEN = 0, OPENR; static FILE O; static long POS, L, FLEN, DOT, K2; static char *S, *FN; static int COVN = 0; static _Bool PNG;
static FILE *chk(FILE *f) { REQUIRES(f == &O && OPEN, "stream functions: an open stream"); return f; }
FILE *fopen(const char *name, const char *mode)
{
    CHECK(name == FN && mode[0] == 'r', "the file given is read");
    if (!OPENR) return NULL;
    SHAPE(!OPEN, "opened once"); OPEN = 1; POS = 0; return &O;
}
int fclose(FILE *f) { chk(f); OPEN = 0; return 0; }
int fseek(FILE *f, long off, int whence) { chk(f); POS = whence == SEEK_SET ? off : whence == SEEK_CUR ? POS + off : L + off; return 0; }
void rewind(FILE *f) { fseek(f, 0, SEEK_SET); }
long ftell(FILE *f) { chk(f); return POS; }
size_t fread(void *p, size_t size, size_t count, FILE *f)
{
    chk(f); SHAPE(size == 1, "fread: bytes"); ASSUME(size == 1 && count <= 0x7fffffff);
    REQUIRES(count == 0 || __CPROVER_w_ok(p, count), "fread: room for the bytes");
    SHAPE(__CPROVER_POINTER_OFFSET(p) == 0, "fread: into a buffer of its own"); ASSUME(__CPROVER_POINTER_OFFSET(p) == 0);
    long n = (long) count < L - POS ? (long) count : L - POS;
    if (n > 0) { __CPROVER_havoc_object(p); if (K2 >= POS && K2 < POS + n) ASSUME(((char *) p)[K2 - POS] == S[K2]); }
    POS += n;
    return (size_t) n;
}
#ifdef USE_strrchr
char *strrchr(const char *s, int c)
{
    SHAPE(s == FN && c == '.', "strrchr: the last dot of the file name"); ASSUME(s == FN && c == '.');
    return DOT >= 0 ? FN + DOT : (char *) NULL;
}
#endif
/* contract of tag_set_album_cover_from_bytes (unit k_set) */
void tag_set_album_cover_from_bytes(char *bytes, char *mimetype, int n, ID3v2_tag *tag)
{
    CHECK(tag == CTAG && COVN == 0, "the cover of the tag is set, once");
    CHECK(n == L, "the whole picture");
    REQUIRES(n == 0 || __CPROVER_r_ok(bytes, n), "tag_set_album_cover_from_bytes: a picture");
    if (K2 < n) CHECK(bytes[K2] == S[K2], "the picture's bytes");
    const char *w = PNG ? "image/png" : "image/jpeg"; int m = PNG ? 10 : 11;
    _Bool same = 1;
    for (int k = 0; k < 11; k++) if (k < m && same) { CHECK(mimetype[k] == w[k], "the MIME type for the file's extension"); same = mimetype[k] == w[k]; }
    COVN++;
}
void harness(void)
{
    in_ctag();
    L = in_int(0, MAXLEN); S = in_bytes((int) L); K2 = in_long(0, MAXLEN); OPENR = in_bool();
    FLEN = in_int(0, MAXLEN); DOT = in_int(-1, MAXLEN); ASSUME(DOT < FLEN);
    FN = in_bytes((int) FLEN + 1); FN[FLEN] = 0;
    if (DOT >= 0) { ASSUME(FN[DOT] == '.'); }
    for (int k = 1; k < 6; k++) if (DOT >= 0 && DOT + k < FLEN) ASSUME(FN[DOT + k] != '.' && FN[DOT + k] != 0);
    if (SMALL) for (int k = 0; k < 12; k++) if (k < FLEN) ASSUME(FN[k] != 0 && (k <= DOT || FN[k] != '.'));
    PNG = DOT >= 0 && FLEN == DOT + 4 && FN[DOT + 1] == 'p' && FN[DOT + 2] == 'n' && FN[DOT + 3] == 'g';
    tag_set_album_cover(FN, CTAG);
    CHECK(!OPEN, "the file is closed");
    CHECK(COVN == (OPENR ? 1 : 0), "a cover is set exactly when the file can be read");
    check_same();
    if (OPENR && PNG && K2 < L) REACH("png"); if (OPENR && !PNG && DOT > 1000) REACH("jpg"); if (!OPENR) REACH("no file"); if (OPENR && DOT < 0) REACH("no extension");
    free(FN); free(S); free_nodes(); free_frames(); free(MAIN); free(CTAG);
}
#endif
