/* Demonstrations of the defects found in the original tree (see KNOWN_FINDINGS.txt).
 * usage: repro CASE   -- exits 0 when the library behaves, non-zero (or is
 * killed by AddressSanitizer/UBSan) when the defect is present.
 * Build: findings/run.sh SRC_ROOT */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "id3v2lib.compat.h"
#include "modules/utils.private.h"
#include "modules/char_stream.private.h"
#include "modules/tag.private.h"
#include "modules/frame.private.h"

#define CHECK(c) do { if (!(c)) { fprintf(stderr, "CHECK failed: %s (line %d)\n", #c, __LINE__); exit(1); } } while (0)

static char* heapdup(const char* p, int n) { char* r = malloc(n ? n : 1); memcpy(r, p, n); return r; }
static char FILE_NAME[] = "repro_tmp.mp3";
static void put_file(const char* p, int n) { FILE* f = fopen(FILE_NAME, "wb"); fwrite(p, 1, n, f); fclose(f); }
static int get_file(char* p, int n) { FILE* f = fopen(FILE_NAME, "rb"); int r = fread(p, 1, n, f); fclose(f); return r; }

static int c_bom(void) { char* s = heapdup("", 1); CHECK(!string_has_bom(s)); CHECK(ID3v2_strlen(s) == 0); return 0; }
static int c_sync(void) { CHECK(syncint_encode(0x0FFFFFFF) == 0x7F7F7F7F); return 0; }
static int c_shorthdr(void) { char* b = heapdup("I", 1); CHECK(ID3v2_read_tag_from_buffer(b, 1) == NULL); return 0; }
static int c_truncframe(void) { char* b = heapdup("ID3\3\0\0\0\0\0\x14TIT2\0", 15); ID3v2_Tag* t = ID3v2_read_tag_from_buffer(b, 15); CHECK(t != NULL); CHECK(ID3v2_Tag_get_title_frame(t) == NULL); return 0; }
static int c_bigframe(void) { char* b = heapdup("ID3\3\0\0\0\0\0\x0CTIT2\x7f\0\0\0\0\0\0a", 22); ID3v2_Tag* t = ID3v2_read_tag_from_buffer(b, 22); CHECK(t != NULL); CHECK(ID3v2_Tag_get_title_frame(t) == NULL); return 0; }
static int c_zeroframe(void) { char* b = heapdup("ID3\3\0\0\0\0\0\x14TIT2\0\0\0\0\0\0aaaaaaaaaa", 30); ID3v2_Tag* t = ID3v2_read_tag_from_buffer(b, 30); CHECK(t != NULL); return 0; }
static int c_unterm(void) { /* text without terminator: legal and common */
    char* b = heapdup("ID3\3\0\0\0\0\0\x0ETIT2\0\0\0\4\0\0\0abc", 24); ID3v2_Tag* t = ID3v2_read_tag_from_buffer(b, 24);
    ID3v2_TextFrame* f = ID3v2_Tag_get_title_frame(t); CHECK(f != NULL); CHECK(strcmp(f->data->text, "abc") == 0);
    CharStream* cs = Tag_to_char_stream(t); CHECK(cs->size == 24); CHECK(memcmp(cs->stream, b, 24) == 0); return 0; }
static int c_utf8(void) { char* b = heapdup("ID3\4\0\0\0\0\0\x0FTIT2\0\0\0\5\0\0\3ab\xC3\0", 25); ID3v2_Tag* t = ID3v2_read_tag_from_buffer(b, 25);
    CharStream* cs = Tag_to_char_stream(t); CHECK(memcmp(cs->stream, b, 25) == 0); return 0; }
static int c_txxx(void) { char* b = heapdup("ID3\3\0\0\0\0\0\x0FTXXX\0\0\0\5\0\0\0a\0b\0", 25); ID3v2_Tag* t = ID3v2_read_tag_from_buffer(b, 25);
    CharStream* cs = Tag_to_char_stream(t); CHECK(memcmp(cs->stream, b, 25) == 0); return 0; }
static int c_communterm(void) { char* b = heapdup("ID3\3\0\0\0\0\0\x12""COMM\0\0\0\x08\0\0\0eng\0abc", 28); ID3v2_Tag* t = ID3v2_read_tag_from_buffer(b, 28);
    ID3v2_CommentFrame* f = ID3v2_Tag_get_comment_frame(t); CHECK(f != NULL); CHECK(strcmp(f->data->comment, "abc") == 0);
    CharStream* cs = Tag_to_char_stream(t); CHECK(memcmp(cs->stream, b, 28) == 0); return 0; }
static int c_apicshort(void) { char* b = heapdup("ID3\3\0\0\0\0\0\x0F""APIC\0\0\0\5\0\0\0imag", 25); ID3v2_Tag* t = ID3v2_read_tag_from_buffer(b, 25); CHECK(t != NULL); return 0; }
static int c_bigpic(void) { int n = 9000000; char* p = calloc(n, 1); ID3v2_Tag* t = ID3v2_Tag_new_empty(); ID3v2_Tag_set_album_cover(t, "image/png", n, p);
    t->header->tag_size += 100; CharStream* cs = Tag_to_char_stream(t); ID3v2_Tag* u = ID3v2_read_tag_from_buffer(cs->stream, cs->size);
    ID3v2_ApicFrame* f = ID3v2_Tag_get_album_cover_frame(u); CHECK(f && f->data->picture_size == n); return 0; }
static int c_aenc(void) { char* b = heapdup("ID3\3\0\0\0\0\0\x14""AENC\0\0\0\x0A\0\0""abc\0\0\0\0\0xy", 30); ID3v2_Tag* t = ID3v2_read_tag_from_buffer(b, 30);
    CHECK(ID3v2_Tag_get_frame(t, "AENC") != NULL); CHECK(ID3v2_Tag_get_album_cover_frame(t) == NULL);
    CharStream* cs = Tag_to_char_stream(t); CHECK(memcmp(cs->stream, b, 30) == 0); return 0; }
static int c_exthdr(void) { /* v2.3 extended header of 6 bytes, then TIT2 */
    char* b = heapdup("ID3\3\0\x40\0\0\0\x19\0\0\0\6\0\0\0\0\0\0TIT2\0\0\0\5\0\0\0abc\0", 35); ID3v2_Tag* t = ID3v2_read_tag_from_buffer(b, 35);
    ID3v2_TextFrame* f = ID3v2_Tag_get_title_frame(t); CHECK(f != NULL); CHECK(strcmp(f->data->text, "abc") == 0);
    CharStream* cs = Tag_to_char_stream(t); ID3v2_Tag* u = ID3v2_read_tag_from_buffer(cs->stream, cs->size);
    f = ID3v2_Tag_get_title_frame(u); CHECK(f != NULL); CHECK(strcmp(f->data->text, "abc") == 0); return 0; }
static int c_exthdrapi(void) { char dirt[64]; memset(dirt, 0x55, 64); ID3v2_TagHeader* h = ID3v2_read_tag_header_from_buffer("ID3\3\0\x40\0\0\0\x19"); CHECK(h); CHECK(h->extended_header_size == 0); return 0; }
static int c_biggerbuf(void) { char* b = heapdup("ID3\3\0\0\0\0\0\x14TIT2\0\0\0\2\0\0\0a\0\0\0\0\0\0\0\0audioaudio", 40); ID3v2_Tag* t = ID3v2_read_tag_from_buffer(b, 40); CHECK(t->padding_size == 8); return 0; }
static int c_v4size(void) { ID3v2_Tag* t = ID3v2_read_tag_from_buffer("ID3\4\0\0\0\0\0\0", 10); CHECK(t); char s[301]; memset(s, (int) 120, 300); s[300] = 0; ID3v2_Tag_set_title(t, s);
    t->header->tag_size += 100; CharStream* cs = Tag_to_char_stream(t); ID3v2_Tag* u = ID3v2_read_tag_from_buffer(cs->stream, cs->size);
    ID3v2_TextFrame* f = ID3v2_Tag_get_title_frame(u); CHECK(f != NULL); CHECK(strcmp(f->data->text, s) == 0); return 0; }
static int c_setsize(void) { ID3v2_Tag* t = ID3v2_Tag_new_empty(); ID3v2_Tag_set_title(t, "abc"); CHECK(t->header->tag_size == 15); CharStream* cs = Tag_to_char_stream(t); CHECK(cs->size == 25); return 0; }
static int c_delabsent(void) { ID3v2_Tag* t = ID3v2_Tag_new_empty(); ID3v2_Tag_delete_title(t); ID3v2_Tag_set_artist(t, "a"); ID3v2_Tag_delete_title(t); CHECK(ID3v2_Tag_get_artist_frame(t)); return 0; }
static int c_dellast(void) { ID3v2_Tag* t = ID3v2_Tag_new_empty(); ID3v2_Tag_set_artist(t, "a"); ID3v2_Tag_set_title(t, "b"); ID3v2_Tag_delete_title(t);
    ID3v2_Tag_set_album(t, "c"); CHECK(ID3v2_Tag_get_album_frame(t) != NULL); t->header->tag_size += 100; Tag_to_char_stream(t); return 0; }
static int c_delcomment(void) { ID3v2_Tag* t = ID3v2_Tag_new_empty(); ID3v2_Tag_set_comment(t, "eng", "b"); ID3v2_Tag_set_title(t, "x"); unsigned before = t->header->tag_size; int s = ID3v2_Tag_get_comment_frame(t)->header->size;
    ID3v2_Tag_delete_comment_frame(t, 0); CHECK(t->header->tag_size == before - s - 10); ID3v2_Tag_delete_comment_frame(t, 0); ID3v2_Tag_delete_apic_frame(t, 0); return 0; }
static int c_leak(void) { char* b = heapdup("ID3\3\0\0\0\0\0\x0FPRIV\0\0\0\5\0\0\0a\0b\0", 25); ID3v2_Tag* t = ID3v2_read_tag_from_buffer(b, 25);
    CharStream* cs = Tag_to_char_stream(t); CharStream_free(cs); ID3v2_Tag_free(t); free(b); return 0; }
static int c_leakcomment(void) { ID3v2_Tag* t = ID3v2_Tag_new_empty(); ID3v2_Tag_set_comment(t, "eng", "b"); ID3v2_Tag_delete_comment_frame(t, 0); ID3v2_Tag_free(t); return 0; }
static int c_padding(void) { put_file("audio", 5); ID3v2_Tag* t = ID3v2_Tag_new_empty(); ID3v2_Tag_set_title(t, "abc"); ID3v2_write_tag(FILE_NAME, t); char b[4000]; int n = get_file(b, 4000);
    CHECK(n == 10 + 15 + 2048 + 5); ID3v2_Tag* u = ID3v2_read_tag(FILE_NAME); CHECK(u->padding_size == 2048); return 0; }
static int c_writemissing(void) { ID3v2_Tag* t = ID3v2_Tag_new_empty(); ID3v2_write_tag("no/such/file.mp3", t); return 0; }
static int c_shortfile(void) { put_file("ID3\3\0\0\0\0\0\x0ETIT2\0\0\0\2\0\0\0", 21); ID3v2_Tag* t = ID3v2_read_tag(FILE_NAME); CHECK(t != NULL); CHECK(ID3v2_Tag_get_title_frame(t) == NULL); return 0; }
static int c_compatnone(void) { put_file("audioaudioaudio", 15); CHECK(load_tag(FILE_NAME) == NULL); CHECK(load_tag("no/such/file.mp3") == NULL); CHECK(load_tag_with_buffer("audioaudioaudio", 15) == NULL); return 0; }
static int c_compatempty(void) { put_file("ID3\3\0\0\0\0\0\4\0\0\0\0", 14); ID3v2_tag* t = load_tag(FILE_NAME); CHECK(t != NULL); CHECK(tag_get_title(t) == NULL); free_tag(t); return 0; }
static int c_compatnew(void) { void* junk = malloc(sizeof(ID3v2_tag)); memset(junk, 0x41, sizeof(ID3v2_tag)); free(junk); ID3v2_tag* t = new_tag(); CHECK(t->tag_header->major_version == 3); CHECK(t->tag_header->tag_size == 0); free_tag(t); return 0; }
static int c_compatset(void) { ID3v2_tag* t = new_tag(); tag_set_title("a", 0, t); tag_set_artist("b", 0, t); CHECK(tag_get_title(t)); CHECK(tag_get_artist(t)); return 0; }
static int c_compatflags(void) { char* b = heapdup("ID3\3\0\0\0\0\0\x0CTIT2\0\0\0\2\x40\x80\0a", 22); ID3v2_tag* t = load_tag_with_buffer(b, 22); CHECK(memcmp(tag_get_title(t)->flags, "\x40\x80", 2) == 0); return 0; }
static int c_compatparse(void) { ID3v2_tag* t = new_tag(); CHECK(parse_text_frame_content(tag_get_title(t)) == NULL); CHECK(parse_comment_frame_content(tag_get_comment(t)) == NULL); CHECK(parse_apic_frame_content(tag_get_album_cover(t)) == NULL); return 0; }
static int c_compatcover(void) { put_file("x", 1); rename(FILE_NAME, "repro_noext"); ID3v2_tag* t = new_tag(); tag_set_album_cover("repro_noext", t); remove("repro_noext"); CHECK(tag_get_album_cover(t)); tag_set_album_cover("no/such.png", t); return 0; }
static int c_full(void) { /* the temp file cannot hold the audio: the original must survive. run under RLIMIT_FSIZE */
    extern int setrl(long); static char big[300000]; for (int i = 0; i < 300000; i++) big[i] = 'a' + i % 23; put_file(big, 300000);
    ID3v2_Tag* t = ID3v2_Tag_new_empty(); ID3v2_Tag_set_title(t, "abc"); CHECK(setrl(100000) == 0); ID3v2_write_tag(FILE_NAME, t); CHECK(setrl(-1) == 0);
    static char back[400000]; int n = get_file(back, 400000); CHECK(n == 300000); CHECK(memcmp(big, back, n) == 0); return 0; }
static int c_fulldel(void) { extern int setrl(long); static char big[300000]; for (int i = 0; i < 300000; i++) big[i] = 'a' + i % 23; memcpy(big, "ID3\3\0\0\0\0\0\4\0\0\0\0", 14); put_file(big, 300000);
    CHECK(setrl(100000) == 0); ID3v2_delete_tag(FILE_NAME); CHECK(setrl(-1) == 0);
    static char back[400000]; int n = get_file(back, 400000); CHECK(n == 300000); CHECK(memcmp(big, back, n) == 0); return 0; }

#include <sys/resource.h>
#include <signal.h>
int setrl(long v) { signal(SIGXFSZ, SIG_IGN); struct rlimit r; getrlimit(RLIMIT_FSIZE, &r); r.rlim_cur = v < 0 ? r.rlim_max : (rlim_t) v; return setrlimit(RLIMIT_FSIZE, &r); }

static int c_zerolast(void) { char* b = heapdup("ID3\3\0\0\0\0\0\x14XAAA\0\0\0\0\0\0XBBB\0\0\0\0\0\0", 30); ID3v2_Tag* t = ID3v2_read_tag_from_buffer(b, 30); int n = 0;
    for (ID3v2_FrameList* l = t->frames; l != NULL && l->frame != NULL; l = l->next) n++; CHECK(n == 2); return 0; }
static int c_commenc(void) { ID3v2_Tag* t = ID3v2_Tag_new_empty(); ID3v2_Tag_set_comment(t, "eng", "hi"); ID3v2_CommentFrame* f = ID3v2_Tag_get_comment_frame(t);
    CHECK(f->data->encoding == 0); CHECK(!string_has_bom(f->data->short_description)); return 0; }

#define C(n) { #n, c_##n }
static struct { const char* name; int (*f)(void); } cases[] = {
    C(bom), C(sync), C(shorthdr), C(truncframe), C(bigframe), C(zeroframe), C(unterm), C(utf8), C(txxx), C(communterm), C(apicshort), C(bigpic), C(aenc), C(exthdr), C(exthdrapi),
    C(biggerbuf), C(v4size), C(setsize), C(delabsent), C(dellast), C(delcomment), C(leak), C(leakcomment), C(padding), C(writemissing), C(shortfile),
    C(compatnone), C(compatempty), C(compatnew), C(compatset), C(compatflags), C(compatparse), C(compatcover), C(full), C(fulldel), C(zerolast), C(commenc),
};
int main(int argc, char** argv) {
    int n = sizeof cases / sizeof *cases;
    if (argc < 2) { for (int i = 0; i < n; i++) puts(cases[i].name); return 0; }
    for (int i = 0; i < n; i++) if (!strcmp(argv[1], cases[i].name)) { int r = cases[i].f(); remove(FILE_NAME); return r; }
    return 99;
}
