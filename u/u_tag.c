/* Units: the operations on a tag. The list functions are replaced by their contracts (u_list.c), which record what is
 * asked of them; in the small variants (used to confirm a failure) they are the real ones, and what happened is read off
 * the list itself. */
#define NSTR 1
#define NLEN 1
#ifndef NK
#define NK 3
#endif
#include "window.h"
static void l_havoc(long t);
static void l_step(long t);
#define WINDOW(t) ASSUME(((t) == NN || slot(t) >= 0) && ((t) == 0 || slot((t) - 1) >= 0))
#include "loops.h"

static ID3v2_Tag *TAG; static long TS; static int PAD; static ID3v2_TagHeader H0;
static void in_tag(void)
{
    in_list();
    TAG = (ID3v2_Tag *) malloc(sizeof(ID3v2_Tag));
    TAG->header = (ID3v2_TagHeader *) malloc(sizeof(ID3v2_TagHeader));
    TAG->frames = HEAD;
    PAD = in_int(0, MAXLEN); TAG->padding_size = PAD;
    TS = in_long(0, MAXLEN); TAG->header->tag_size = TS;
    for (int s = 0; s < NK; s++) if (s < KK && NF > 0) ASSUME(0 <= FR[s]->header->size && (long) FR[s]->header->size + 10 <= TS);
    H0 = *TAG->header;
}
static void free_tag_(void) { free(TAG->header); free(TAG); }

/* ---- what happened to the list ----------------------------------------------------------------------------------- */
enum { OP_NONE, OP_ADD, OP_REPL, OP_DEL, OP_OTHER };
static int OP = OP_NONE, OPN = 0; static FT *OLD, *NEW;
static void op(int o, FT *old, FT *new_) { OP = OPN == 0 ? o : OP_OTHER; OPN++; OLD = old; NEW = new_; }
static void observe(void)
{
#ifdef REAL
    FT *a[NK + 2]; int n = 0, d = -1, df = 0;
    LT *l = TAG->frames;
    for (int k = 0; k < NK + 2; k++) if (l != NULL && l->frame != NULL) { a[n++] = l->frame; l = l->next; }
    if (l != NULL && l->frame != NULL) n = NK + 9;
    for (int k = 0; k < NK; k++) if (k < NF && k < n && a[k] != FR[k]) { df++; if (d < 0) d = k; }
    if (n == NF && df == 0) return;
    if (n == NF + 1 && df == 0) op(OP_ADD, NULL, a[NF]);
    else if (n == NF && df == 1) op(OP_REPL, FR[d], a[d]);
    else if (n == NF - 1)
    {
        if (d < 0) d = NF - 1;
        _Bool ok = 1;
        for (int k = 0; k < NK; k++) if (k < n && k >= d && a[k] != FR[k + 1]) ok = 0;
        op(ok ? OP_DEL : OP_OTHER, FR[d], NULL);
    }
    else op(OP_OTHER, NULL, NULL);
#endif
}
/* the list's memory, for the leak check */
static void free_list(void)
{
#ifdef REAL
    LT *l = TAG->frames;
    for (int k = 0; k < NK + 2; k++) if (l != NULL) { LT *n = l->next; free(l); l = n; }
#else
    free_nodes();
#endif
}
#if defined(USE_FrameList_get_frame_by_id) && !defined(UNIT_t_get)
/* contract: the first frame with that identifier (units l_get) */
ID3v2_Frame *FrameList_get_frame_by_id(ID3v2_FrameList *list, const char *frame_id)
{
    REQUIRES(list == HEAD && __CPROVER_r_ok(frame_id, 4), "FrameList_get_frame_by_id: the tag's frames and an identifier");
    if (eqid(frame_id, ID)) return M < NF ? FR[slot(M)] : (FT *) NULL;
    int s = in_int(0, NK - 1);
    return NF > 0 && s < KK && eqid(FID(FR[s]), frame_id) ? FR[s] : (FT *) NULL;
}
#endif
#ifdef USE_FrameList_add_frame
void FrameList_add_frame(ID3v2_FrameList *list, ID3v2_Frame *frame)
{
    REQUIRES(list == HEAD && __CPROVER_r_ok(frame, sizeof(*frame)), "FrameList_add_frame: to the tag's frames");
    op(OP_ADD, NULL, frame);
}
#endif
#ifdef USE_FrameList_replace_frame
void FrameList_replace_frame(ID3v2_FrameList *list, ID3v2_Frame *old_frame, ID3v2_Frame *new_frame)
{
    REQUIRES(list == HEAD && __CPROVER_r_ok(old_frame, sizeof(*old_frame)) && __CPROVER_r_ok(new_frame, sizeof(*new_frame)), "FrameList_replace_frame: in the tag's frames");
    op(OP_REPL, old_frame, new_frame);
}
#endif
#ifdef USE_FrameList_remove_frame_by_id
ID3v2_Frame *FrameList_remove_frame_by_id(ID3v2_FrameList *list, const char *frame_id)
{
    REQUIRES(list == HEAD && __CPROVER_r_ok(frame_id, 4), "FrameList_remove_frame_by_id: the tag's frames and an identifier");
    FT *f;
    if (eqid(frame_id, ID)) f = M < NF ? FR[slot(M)] : (FT *) NULL;
    else { int s = in_int(0, NK - 1); f = NF > 0 && s < KK && eqid(FID(FR[s]), frame_id) ? FR[s] : (FT *) NULL; }
    if (f != NULL) op(OP_DEL, f, NULL);
    return f;
}
#endif
static FT *FREED; static int FREEDN = 0;
#ifdef USE_ID3v2_Frame_free
void ID3v2_Frame_free(ID3v2_Frame *frame)
{
    if (frame == NULL) return;
    REQUIRES(__CPROVER_r_ok(frame, sizeof(*frame)), "ID3v2_Frame_free: a frame that was not freed before");
    FREED = frame; FREEDN++;
    free_in_frame(frame);
}
#endif

/* ---- constructors: contracts (units n_*): a new frame, of any size, with copies of what is given ------------------ */
static int CRN = 0; static FT *CR; static long CRS; static char CR_ID[4], CR_FL[2];
static void *created(const char *id, const char *flags)
{
    REQUIRES(__CPROVER_r_ok(id, 4) && __CPROVER_r_ok(flags, 2), "identifier and flags readable");
    FT *f = in_frame();
    for (int k = 0; k < 4; k++) f->header->id[k] = CR_ID[k] = id[k];
    for (int k = 0; k < 2; k++) f->header->flags[k] = CR_FL[k] = flags[k];
    f->header->size = in_int(1, MAXLEN);
    CR = f; CRS = f->header->size; CRN++;
    return f;
}
static const char *TX, *TXX;
#ifdef USE_TextFrame_new
ID3v2_TextFrame *TextFrame_new(const char *id, const char *flags, const char *text)
{
    REQUIRES(__CPROVER_r_ok(text, 1), "TextFrame_new: a string");
    TXX = text;
    return (ID3v2_TextFrame *) created(id, flags);
}
#endif
static const char *CL, *CD, *CT, *CLX, *CDX, *CTX;
#ifdef USE_CommentFrame_new
ID3v2_CommentFrame *CommentFrame_new(const char *flags, const char *lang, const char *short_desc, const char *comment)
{
    REQUIRES(__CPROVER_r_ok(lang, 3) && __CPROVER_r_ok(short_desc, 1) && __CPROVER_r_ok(comment, 1), "CommentFrame_new: a language and strings");
    CLX = lang; CDX = short_desc; CTX = comment;
    return (ID3v2_CommentFrame *) created("COMM", flags);
}
#endif
static const char *AM, *AD, *AP, *AMX, *ADX, *APX; static int AS, ASX; static char AT, ATX;
#ifdef USE_ApicFrame_new
ID3v2_ApicFrame *ApicFrame_new(const char *flags, const char *description, const char picture_type, const char *mime_type, const int picture_size, const char *data)
{
    REQUIRES(__CPROVER_r_ok(description, 1) && __CPROVER_r_ok(mime_type, 1) && (picture_size == 0 || __CPROVER_r_ok(data, picture_size)), "ApicFrame_new: strings and a picture");
    AMX = mime_type; ADX = description; APX = data; ASX = picture_size; ATX = picture_type;
    return (ID3v2_ApicFrame *) created("APIC", flags);
}
#endif
static char FLG[2];
static void in_flags(void) { FLG[0] = in_char(); FLG[1] = in_char(); }
/* an arbitrary string of at least one character, only ever passed on */
static char *in_str(void) { long n; _Bool w; return in_string_len(&n, &w, MAXLEN); }
/* the string handed on: the one given. Any other of the given ones is wrong, a copy is beyond this unit. */
static void same_str(const char *x, const char *want, const char *o1, const char *o2)
{
    CHECK((o1 == NULL || x != o1) && (o2 == NULL || x != o2), "each string in its place");
    SHAPE(x == want, "the string given is handed on");
}
static void check_id(const char *id) { for (int k = 0; k < 4; k++) ASSUME(ID[k] == id[k]); }
static void check_head(void)
{
    ID3v2_TagHeader *h = TAG->header;
    CHECK(h->identifier[0] == H0.identifier[0] && h->identifier[1] == H0.identifier[1] && h->identifier[2] == H0.identifier[2] && h->major_version == H0.major_version && h->minor_version == H0.minor_version && h->flags == H0.flags && h->extended_header_size == H0.extended_header_size && TAG->frames == HEAD && TAG->padding_size == PAD, "the rest of the tag is left alone");
}
static void check_created(_Bool add)
{
    observe();
    CHECK(CRN == 1, "one frame is created");
    CHECK(eqid(CR_ID, ID), "the frame has the right identifier");
    CHECK(CR_FL[0] == FLG[0] && CR_FL[1] == FLG[1], "the frame has the right flags");
    long es = 0;
    if (M < NF && !add)
    {
        FT *e = FR[slot(M)];
        CHECK(OP == OP_REPL && OLD == e && NEW == CR, "the first frame with the identifier is replaced in place by the new one");
        CHECK(FREEDN == 1 && FREED == e, "the replaced frame is freed, and no other");
        REACH("replaced");
    }
    else
    {
        CHECK(OP == OP_ADD && NEW == CR, "the new frame is appended");
        CHECK(FREEDN == 0, "no frame is freed");
        REACH("appended");
    }
    check_head();
}
static long ESZ; /* size of the frame that is replaced */
static void check_size(_Bool add) { CHECK(TAG->header->tag_size == (unsigned) (TS + (M < NF && !add ? CRS - ESZ : CRS + 10)), "the size of the tag grows by what is added"); }
static void note_old(void) { ESZ = M < NF ? FR[slot(M)]->header->size : 0; }
static void release(void)
{
    free_list();
    if (CRN > 0 && CR != FREED) free_in_frame(CR);
    for (int s = 0; s < NK; s++) if (s < KK && NF > 0 && !(FREEDN > 0 && FREED == FR[s])) free_in_frame(FR[s]);
    free_tag_();
}

#if !defined(UNIT_t_delidx)
static void l_havoc(long t) { WINDOW(t); }
static void l_step(long t) { check_same(); }
#endif

#ifdef UNIT_t_set_text
void harness(void)
{
    in_tag(); in_match_id(); bounds(); note_old();
    TX = in_str();
    int w = in_int(0, 9);
    FLG[0] = FLG[1] = 0;
    if (w == 9)
    {
        in_flags();
        ID3v2_TextFrameInput in = {.id = ID, .flags = FLG, .text = TX};
        ID3v2_Tag_set_text_frame(TAG, &in);
        REACH("set_text_frame");
    }
    if (w == 0) { check_id("TPE1"); ID3v2_Tag_set_artist(TAG, TX); REACH("set_artist"); }
    if (w == 1) { check_id("TALB"); ID3v2_Tag_set_album(TAG, TX); REACH("set_album"); }
    if (w == 2) { check_id("TIT2"); ID3v2_Tag_set_title(TAG, TX); REACH("set_title"); }
    if (w == 3) { check_id("TRCK"); ID3v2_Tag_set_track(TAG, TX); REACH("set_track"); }
    if (w == 4) { check_id("TPE2"); ID3v2_Tag_set_album_artist(TAG, TX); REACH("set_album_artist"); }
    if (w == 5) { check_id("TCON"); ID3v2_Tag_set_genre(TAG, TX); REACH("set_genre"); }
    if (w == 6) { check_id("TYER"); ID3v2_Tag_set_year(TAG, TX); REACH("set_year"); }
    if (w == 7) { check_id("TPOS"); ID3v2_Tag_set_disc_number(TAG, TX); REACH("set_disc_number"); }
    if (w == 8) { check_id("TCOM"); ID3v2_Tag_set_composer(TAG, TX); REACH("set_composer"); }
    check_created(0); check_size(0);
    same_str(TXX, TX, NULL, NULL);
    release(); free((void *) TX);
}
#endif

#ifdef UNIT_t_set_comm
static _Bool empty(const char *d) { return d[0] == 0 || (u_bom(d, 4) && d[2] == 0 && d[3] == 0); }
void harness(void)
{
    in_tag(); in_match_id(); check_id("COMM"); bounds(); note_old();
    char lang[4] = {in_char(), in_char(), in_char(), 0};
    long tl; _Bool tw; CT = in_string_len(&tl, &tw, MAXLEN); CL = lang;
    int w = in_int(0, 2);
    FLG[0] = FLG[1] = 0;
    if (w == 2)
    {
        ID3v2_Tag_set_comment(TAG, CL, CT);
        check_created(0); check_size(0);
        CHECK(CDX != CT && CDX != CL && empty(CDX), "the description is empty");
        CHECK((CDX[0] == 0) == !tw, "the description is in the comment's encoding");
        REACH("set_comment");
    }
    else
    {
        char d[4] = {in_char(), in_char(), 0, 0}; CD = d; /* only ever passed on */
        in_flags();
        ID3v2_CommentFrameInput in = {.flags = FLG, .language = CL, .short_description = CD, .comment = CT};
        if (w == 0) { ID3v2_Tag_set_comment_frame(TAG, &in); REACH("set_comment_frame"); }
        else { ID3v2_Tag_add_comment_frame(TAG, &in); REACH("add_comment_frame"); }
        check_created(w == 1); check_size(w == 1);
        same_str(CDX, CD, CT, CL);
    }
    same_str(CTX, CT, CD, CL);
    CHECK(CLX[0] == lang[0] && CLX[1] == lang[1] && CLX[2] == lang[2], "the language is the one given");
    release(); free((void *) CT);
}
#endif

#ifdef UNIT_t_set_apic
static _Bool empty(const char *d) { return d[0] == 0 || (u_bom(d, 4) && d[2] == 0 && d[3] == 0); }
void harness(void)
{
    in_tag(); in_match_id(); check_id("APIC"); bounds(); note_old();
    char mime[4] = {in_char(), in_char(), 0, 0}; AM = mime; /* only ever passed on */
    AS = in_int(0, MAXLEN); AP = in_bytes(AS);
    int w = in_int(0, 2);
    FLG[0] = FLG[1] = 0;
    if (w == 2)
    {
        AT = 3;
        ID3v2_Tag_set_album_cover(TAG, AM, AS, AP);
        check_created(0); check_size(0);
        CHECK(ADX != AM && ADX != AP && empty(ADX), "the description is empty");
        REACH("set_album_cover");
    }
    else
    {
        char d[4] = {in_char(), in_char(), 0, 0}; AD = d;
        in_flags(); AT = in_char();
        ID3v2_ApicFrameInput in = {.flags = FLG, .mime_type = AM, .description = AD, .picture_type = AT, .picture_size = AS, .data = AP};
        if (w == 0) { ID3v2_Tag_set_apic_frame(TAG, &in); REACH("set_apic_frame"); }
        else { ID3v2_Tag_add_apic_frame(TAG, &in); REACH("add_apic_frame"); }
        check_created(w == 1); check_size(w == 1);
        same_str(ADX, AD, AM, AP);
    }
    same_str(AMX, AM, AD, AP); same_str(APX, AP, AM, AD);
    CHECK(ATX == AT, "the picture type is the right one"); CHECK(ASX == AS, "the picture size is the one given");
    release(); free((void *) AP);
}
#endif

#ifdef UNIT_t_del
void harness(void)
{
    in_tag(); in_match_id(); bounds(); note_old();
    int w = in_int(0, 11);
    if (w == 0) { check_id("TPE1"); ID3v2_Tag_delete_artist(TAG); REACH("delete_artist"); }
    if (w == 1) { check_id("TALB"); ID3v2_Tag_delete_album(TAG); REACH("delete_album"); }
    if (w == 2) { check_id("TIT2"); ID3v2_Tag_delete_title(TAG); REACH("delete_title"); }
    if (w == 3) { check_id("TRCK"); ID3v2_Tag_delete_track(TAG); REACH("delete_track"); }
    if (w == 4) { check_id("TPE2"); ID3v2_Tag_delete_album_artist(TAG); REACH("delete_album_artist"); }
    if (w == 5) { check_id("TCON"); ID3v2_Tag_delete_genre(TAG); REACH("delete_genre"); }
    if (w == 6) { check_id("TYER"); ID3v2_Tag_delete_year(TAG); REACH("delete_year"); }
    if (w == 7) { check_id("TPOS"); ID3v2_Tag_delete_disc_number(TAG); REACH("delete_disc_number"); }
    if (w == 8) { check_id("TCOM"); ID3v2_Tag_delete_composer(TAG); REACH("delete_composer"); }
    if (w == 9) { check_id("COMM"); ID3v2_Tag_delete_comment(TAG); REACH("delete_comment"); }
    if (w == 10) { check_id("APIC"); ID3v2_Tag_delete_album_cover(TAG); REACH("delete_album_cover"); }
    if (w == 11) { ID3v2_Tag_delete_frame(TAG, ID); REACH("delete_frame"); }
    observe();
    if (M < NF)
    {
        CHECK(OP == OP_DEL && OLD == FR[slot(M)], "the first frame with the identifier is removed");
        CHECK(FREEDN == 1 && FREED == FR[slot(M)], "it is freed, and no other");
        CHECK(TAG->header->tag_size == (unsigned) (TS - ESZ - 10), "the size of the tag shrinks by the frame's");
        REACH("deleted");
    }
    else
    {
        CHECK(OPN == 0 && FREEDN == 0 && TAG->header->tag_size == (unsigned) TS, "without such a frame the tag is unchanged");
        REACH("nothing to delete");
    }
    check_head();
    release();
}
#endif

#ifdef UNIT_t_get
static FT *RF; static LT *RL; static int GN = 0;
ID3v2_Frame *FrameList_get_frame_by_id(ID3v2_FrameList *list, const char *frame_id)
{
    REQUIRES(list == HEAD && __CPROVER_r_ok(frame_id, 4), "FrameList_get_frame_by_id: the tag's frames and an identifier");
    CHECK(eqid(frame_id, ID), "the right identifier is looked up");
    GN++;
    return RF;
}
ID3v2_FrameList *FrameList_get_frames_by_id(ID3v2_FrameList *list, const char *frame_id)
{
    REQUIRES(list == HEAD && __CPROVER_r_ok(frame_id, 4), "FrameList_get_frames_by_id: the tag's frames and an identifier");
    CHECK(eqid(frame_id, ID), "the right identifier is looked up");
    GN++;
    return RL;
}
void harness(void)
{
    in_tag(); in_match_id(); bounds();
    _Bool none = in_bool();
    ID3v2_Tag *t = none ? (ID3v2_Tag *) NULL : TAG;
    RF = in_bool() ? NULL : (FT *) TAG; RL = (LT *) malloc(sizeof(LT));
    int w = in_int(0, 14);
    void *f = NULL, *l = NULL; _Bool all = 0;
    if (w == 0) { check_id("TPE1"); f = ID3v2_Tag_get_artist_frame(t); REACH("get_artist_frame"); }
    if (w == 1) { check_id("TALB"); f = ID3v2_Tag_get_album_frame(t); REACH("get_album_frame"); }
    if (w == 2) { check_id("TIT2"); f = ID3v2_Tag_get_title_frame(t); REACH("get_title_frame"); }
    if (w == 3) { check_id("TRCK"); f = ID3v2_Tag_get_track_frame(t); REACH("get_track_frame"); }
    if (w == 4) { check_id("TPE2"); f = ID3v2_Tag_get_album_artist_frame(t); REACH("get_album_artist_frame"); }
    if (w == 5) { check_id("TCON"); f = ID3v2_Tag_get_genre_frame(t); REACH("get_genre_frame"); }
    if (w == 6) { check_id("TYER"); f = ID3v2_Tag_get_year_frame(t); REACH("get_year_frame"); }
    if (w == 7) { check_id("TPOS"); f = ID3v2_Tag_get_disc_number_frame(t); REACH("get_disc_number_frame"); }
    if (w == 8) { check_id("TCOM"); f = ID3v2_Tag_get_composer_frame(t); REACH("get_composer_frame"); }
    if (w == 9) { check_id("COMM"); f = ID3v2_Tag_get_comment_frame(t); REACH("get_comment_frame"); }
    if (w == 10) { check_id("APIC"); f = ID3v2_Tag_get_album_cover_frame(t); REACH("get_album_cover_frame"); }
    if (w == 11) { f = ID3v2_Tag_get_frame(t, ID); REACH("get_frame"); }
    if (w == 12) { check_id("COMM"); l = ID3v2_Tag_get_comment_frames(t); all = 1; REACH("get_comment_frames"); }
    if (w == 13) { check_id("APIC"); l = ID3v2_Tag_get_apic_frames(t); all = 1; REACH("get_apic_frames"); }
    if (w == 14) { l = ID3v2_Tag_get_frames(t, ID); all = 1; REACH("get_frames"); }
    if (none) CHECK(f == NULL && l == NULL && GN == 0, "nothing for no tag");
    else
    {
        if (all) CHECK(GN == 1 && l == RL, "the frames found are returned");
        else CHECK(GN >= 1 && f == RF, "the frame found is returned");
        check_head(); check_same();
    }
    CHECK(TAG->header->tag_size == (unsigned) TS, "the tag is unchanged");
    free(RL); release();
}
#endif

#ifdef UNIT_t_new
void harness(void)
{
    ID3v2_TagHeader *h = NULL;
    int w = in_int(0, 2);
    ID3v2_Tag *t;
    if (w == 2) { h = (ID3v2_TagHeader *) malloc(sizeof(*h)); H0 = *h; t = ID3v2_Tag_new(h, 0); REACH("given header"); }
    else if (w == 1) t = ID3v2_Tag_new(NULL, 0);
    else { t = ID3v2_Tag_new_empty(); REACH("empty"); }
    CHECK(__CPROVER_r_ok(t, sizeof(*t)) && __CPROVER_r_ok(t->header, sizeof(*h)) && __CPROVER_r_ok(t->frames, sizeof(ID3v2_FrameList)), "a tag with header and list");
    CHECK(t->padding_size == 0 && t->frames->frame == NULL && t->frames->next == NULL, "no frames, no padding");
    SHAPE(t->frames->start == NULL, "an empty list has no start");
    if (w == 2) CHECK(t->header == h && h->tag_size == H0.tag_size && h->major_version == H0.major_version && h->flags == H0.flags, "the header given");
    else CHECK(t->header->identifier[0] == 'I' && t->header->identifier[1] == 'D' && t->header->identifier[2] == '3' && t->header->major_version == 3 && t->header->minor_version == 0 && t->header->flags == 0 && t->header->tag_size == 0 && t->header->extended_header_size == 0, "an empty v2.3 header");
    ID3v2_Tag_free(t); /* frees everything: leak check */
}
#endif

#ifdef UNIT_t_free
static int FLN = 0;
void ID3v2_FrameList_free(ID3v2_FrameList *list)
{
    REQUIRES(list == HEAD && FLN == 0, "ID3v2_FrameList_free: the tag's frames, once");
    FLN++;
}
void harness(void)
{
    in_tag();
    ID3v2_Tag_free(TAG);
    CHECK(FLN == 1, "the frames are freed");
    REACH("freed");
    free_nodes(); free_frames();
}
#endif

#ifdef UNIT_t_delidx
/* here the window is the list of all matches the lookup returns; SUB is released by unlinking */
static long IDX; static int ULN = 0, GN = 0; static LT *LST; static FT *RMF; static int RMN = 0; static int W;
#ifndef REAL
ID3v2_FrameList *FrameList_get_frames_by_id(ID3v2_FrameList *list, const char *frame_id)
{
    REQUIRES(list == LST && __CPROVER_r_ok(frame_id, 4), "FrameList_get_frames_by_id: the tag's frames and an identifier");
    CHECK(eqid(frame_id, ID), "the right identifier is looked up");
    SHAPE(GN == 0, "one lookup"); ASSUME(GN == 0);
    GN++;
    return HEAD;
}
ID3v2_Frame *FrameList_remove_frame(ID3v2_FrameList *list, ID3v2_Frame *to_remove)
{
    REQUIRES(list == LST, "FrameList_remove_frame: from the tag's frames");
    RMF = to_remove; RMN++;
    return to_remove;
}
void ID3v2_FrameList_unlink(ID3v2_FrameList *list)
{
    REQUIRES(list == HEAD && ULN == 0, "ID3v2_FrameList_unlink: the list that was looked up, once");
    ULN++;
}
#endif
static void l_havoc(long t) { WINDOW(t); }
static void l_step(long t) { check_same(); CHECK(RMN == 0 && FREEDN == 0 && ULN == 0 && TAG->header->tag_size == (unsigned) TS, "nothing happens before the index is reached"); }
void harness(void)
{
    in_tag();
    W = in_bool();
    for (int k = 0; k < 4; k++) ID[k] = (W ? "COMM" : "APIC")[k];
    ASSUME(NF <= 0x0fffffff); /* each frame takes 10 bytes and more of a size of 28 bits */
    IDX = nondet_int(); ASSUME(IDX >= -0x40000000L); /* a helper may count down from it */
#ifndef REAL
    LST = (LT *) malloc(sizeof(LT)); TAG->frames = LST;
    M = IDX >= 0 && IDX < NF ? IDX : NF; ASSUME(M == NF || slot(M) >= 0);
#else
    /* position of the IDX-th match */
    long c = 0; M = NF;
    for (int s = 0; s < NK; s++) if (s < NF) { if (eqid(FID(FR[s]), ID)) { if (c == IDX) M = s; c++; } }
#endif
    bounds(); note_old();
    if (W) ID3v2_Tag_delete_comment_frame(TAG, (int) IDX); else ID3v2_Tag_delete_apic_frame(TAG, (int) IDX);
#ifdef REAL
    observe(); RMN = OPN; RMF = OLD; if (OPN > 0 && OP != OP_DEL) RMN = 99; ULN = 1;
#else
    CHECK(TAG->frames == LST, "the tag's list stays"); TAG->frames = HEAD;
#endif
    CHECK(ULN == 1, "the list that was looked up is released");
    if (M < NF)
    {
        FT *f = FR[slot(M)];
        CHECK(RMN == 1 && RMF == f, "exactly the frame at the index is removed");
        CHECK(FREEDN == 1 && FREED == f, "it is freed, and no other");
        CHECK(TAG->header->tag_size == (unsigned) (TS - ESZ - 10), "the size of the tag shrinks by the frame's");
        if (W) REACH("comment deleted"); else REACH("picture deleted");
    }
    else
    {
        CHECK(RMN == 0 && FREEDN == 0 && TAG->header->tag_size == (unsigned) TS, "an index out of range changes nothing");
        REACH("out of range");
    }
    check_head();
#ifndef REAL
    free(LST);
#endif
    release();
}
#endif
