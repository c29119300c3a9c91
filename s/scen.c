#include "base.h"
#include "model.h"

/* ---- generators ---- */
static long rlen(void) /* mostly short, boundary lengths now and then */
{
    switch (pick(24))
    {
        case 0: return 0; case 1: return 1; case 2: return rnd(120, 132); case 3: return chance(4) ? rnd(16370, 16400) : rnd(250, 260);
        case 4: return chance(40) ? rnd((1 << 21) - 20, (1 << 21) + 20) : rnd(2, 600); case 5: return chance(8) ? rnd(65520, 65550) : 2; default: return rnd(0, 24);
    }
}
/* lengths of blocks of bytes: also around powers of two, up to 16 MB (few of them: BIGS is set for some iterations only) */
static int BIGS, MANY, MANYN = 60;
static long near_pow(int lo, int hi) { return (1L << rnd(lo, hi)) + rnd(-2, 2); }
static long blen(void) { if (BIGS && chance(3)) { BIGS--; return chance(2) ? near_pow(13, 19) : near_pow(20, 24); } return chance(30) ? near_pow(5, 13) : rlen(); }
static u8 nz(void) { switch (pick(4)) { case 0: return (u8) rnd(0x80, 0xFF); case 1: return (u8) rnd(1, 255); default: return (u8) rnd('a', 'z'); } }
/* an arbitrary terminated string in a block of exactly its size. kind: 0 narrow, 1 wide, 2 any */
static STR g_str_len(int kind, long n)
{
    STR s; int wide = kind == 2 ? chance(3) : kind;
    if (wide)
    {
        long c = n / 2; s.n = 2 + 2 * c + 2; s.p = ar(s.n);
        if (chance(3)) s.p[0] = 0xFE, s.p[1] = 0xFF; else s.p[0] = 0xFF, s.p[1] = 0xFE;
        for (long i = 0; i < c; i++)
        {
            u8 *q = s.p + 2 + 2 * i;
            switch (pick(4)) { case 0: q[0] = nz(); q[1] = 0; break; case 1: q[0] = 0; q[1] = nz(); break; default: q[0] = nz(); q[1] = nz(); }
        }
        s.p[s.n - 2] = s.p[s.n - 1] = 0;
    }
    else
    {
        s.n = n + 1; s.p = ar(s.n);
        for (long i = 0; i < n; i++) s.p[i] = nz();
        s.p[n] = 0;
        if (has_bom(s.p, s.n)) s.p[0] = 'x';
    }
    return s;
}
static STR g_lit(const char *c, long n) { STR s; s.n = n; s.p = ardup(c, n); return s; }
static const char *USUAL[] = { "image/png", "image/jpeg", "image/jpg", "-->", "image/", "PNG", "eng", "XXX", "cover", "(17)", "(4)Eurodisco", "2004", "2004-01-01", "1/12", "07", "Various Artists", "a/b", "AC/DC", " ", "iTunNORM" };
static STR g_str(int kind)
{
    if (kind != 1 && chance(10)) { const char *c = USUAL[pick(20)]; return g_lit(c, strlen(c) + 1); }
    long n = rlen(); return g_str_len(kind, n > 66000 ? 66000 : n);
}
static void g_bytes(u8 *p, long n)
{
    int k = pick(4);
    for (long i = 0; i < n; i++) p[i] = k == 0 ? 0 : k == 1 ? (chance(3) ? 0xFF : (u8) rnd64()) : k == 2 ? (u8) "ID3\3\0\0TIT2"[pick(10)] : (u8) rnd64();
}
static const char *IDS[] = { "TPE1", "TALB", "TIT2", "TRCK", "TPE2", "TCON", "TYER", "TPOS", "TCOM", "COMM", "APIC" };
static const char *MORE[] = { "TXXX", "TDRC", "PRIV", "WXXX", "TIT1", "COMN", "APIB", "UFID", "TPE3", "COM ", "\xFF\xFE\xFF\xFE", "a\x01z9" };
static void g_id(u8 *id, int any)
{
    switch (pick(any ? 10 : 8))
    {
        case 0: case 1: case 2: case 3: case 4: case 5: memcpy(id, IDS[pick(11)], 4); break;
        case 6: case 7: memcpy(id, MORE[pick(12)], 4); break;
        case 8: for (int i = 0; i < 4; i++) id[i] = nz(); break;
        default: memcpy(id, "PRIV", 4); id[pick(4)] = (u8) rnd64(); break;
    }
}
static void g_flags(u8 *f) { if (chance(2)) f[0] = f[1] = 0; else { f[0] = (u8) rnd64(); f[1] = (u8) rnd64(); } }
static MF g_frame_len(const u8 *id, long want)
{
    u8 fl[2]; g_flags(fl); MF f; if (MANY && want < 0) want = pick(4); else if (want < 0) want = blen();
    if (is_text(id)) { long n = 1 + (want); f = mf(id, fl, n); g_bytes(f.b, n); if (chance(2)) { f.b[0] = 0; for (long i = 1; i < n; i++) f.b[i] = nz(); } }
    else if (is_comm(id))
    {
        STR d = MANY ? g_lit("d", 2) : g_str(2); long n = want; f = mf(id, fl, 4 + d.n + n);
        f.b[0] = pick(4); for (int i = 1; i < 4; i++) f.b[i] = chance(6) ? 0 : nz();
        memcpy(f.b + 4, d.p, d.n); g_bytes(f.b + 4 + d.n, n);
    }
    else if (is_apic(id))
    {
        STR m = MANY ? g_lit("m", 2) : g_str(0), d = MANY ? g_lit("", 1) : g_str(2); long n = want; f = mf(id, fl, 2 + m.n + d.n + n);
        f.b[0] = pick(4); memcpy(f.b + 1, m.p, m.n); f.b[1 + m.n] = (u8) rnd64(); memcpy(f.b + 2 + m.n, d.p, d.n); g_bytes(f.b + 2 + m.n + d.n, n);
    }
    else { long n = want; f = mf(id, fl, n); g_bytes(f.b, n); }
    return f;
}
static MF g_frame(int any) { u8 id[4]; do g_id(id, any); while (!id[0] && !id[1] && !id[2] && !id[3]); return g_frame_len(id, -1); }
/* an arbitrary tag */
static void g_tag(MT *t, int maxf, int anyids)
{
    memset(t, 0, sizeof *t);
    t->ver = chance(2) ? 3 : 4; t->minor = chance(3) ? pick(256) : 0; t->flags = chance(3) ? (int) (rnd64() & 0xBF) : 0;
    int n = chance(6) ? 0 : pick(maxf + 1); u8 same[4]; g_id(same, 0);
    MANY = chance(MANYN); if (MANY) n = chance(3) ? rnd(120, 140) : chance(2) ? rnd(250, 262) : rnd(300, 600); /* many small frames, most of them of one kind */
    for (int i = 0; i < n; i++) { MF f = MANY && !chance(5) ? g_frame_len(same, -1) : (i && chance(4)) ? g_frame_len(t->f[pick(i)].id, -1) : g_frame(anyids); t->f[t->nf++] = f; }
    MANY = 0;
    t->padding = chance(3) ? 0 : chance(3) ? rnd(1, 12) : rnd(0, 3000);
    if (chance(10)) t->padding = rnd(2030, 2060);
    t->tag_size = m_frames_size(t) + t->padding;
}
/* its bytes, possibly with an extended header; updates t accordingly */
static u8 *g_bytes_of(MT *t, long *n)
{
    if (!chance(5)) return m_serialise(t, n);
    long body, e = t->ver == 3 ? (chance(2) ? 6 : rnd(0, 120)) : (chance(2) ? 6 : rnd(4, 200)), skip = t->ver == 3 ? 4 + e : e;
    u8 *s = m_serialise(t, &body), *o = ar(body + skip);
    memcpy(o, s, 10); g_bytes(o + 10, skip); if (t->ver == 3) put_be(o + 10, e); else put_ss(o + 10, e);
    memcpy(o + 10 + skip, s + 10, body - 10);
    t->flags |= 0x40; t->ext = e; t->tag_size += skip; o[5] = t->flags; put_ss(o + 6, t->tag_size);
    *n = body + skip; return o;
}
static u8 *g_audio(long *n) { *n = chance(5) ? 0 : chance(6) ? rnd(4000, 9000) : chance(6) ? near_pow(7, 17) : BIGS && chance(2) ? near_pow(17, 22) : rnd(0, 300); u8 *a = ar(*n); g_bytes(a, *n); if (*n > 10 && chance(5)) memcpy(a, "ID3\3\0\0\0\0\0\5", 10); return a; }
/* exact copy on the heap, so that one byte too far is an error */
static u8 *exact(const u8 *b, long n) { return ardup(b, n); }
static u8 *cat(const u8 *a, long n, const u8 *b, long m) { u8 *o = ar(n + m); memcpy(o, a, n); memcpy(o + n, b, m); return o; }
static void leak(unsigned m, const char *when) { A(m, NLIVE == 0, "%s: %d blocks the library allocated were not released", when, NLIVE); }

/* ---- C01 ---- */
static void s_size(void)
{
    u8 h[10] = "ID3"; long v;
    for (int k = 0; k < 200; k++)
    {
        h[3] = chance(2) ? 3 : 4;
        v = chance(2) ? (long) (rnd64() & 0xFFFFFFF) : (1L << rnd(0, 27)) + rnd(-2, 2);
        if (v < 0) v = 0; if (v > 0xFFFFFFF) v = 0xFFFFFFF;
        put_ss(h + 6, v);
        u8 *e = exact(h, 10);
        ID3v2_TagHeader *t = ID3v2_read_tag_header_from_buffer((char *) e);
        A(P(1) | P(4), t && t->tag_size == v, "a tag header with size %ld is read as size %ld", v, t ? (long) t->tag_size : -1L);
        ID3v2_TagHeader_free(t); ar_release(e);
    }
    /* sizes as written and read: tag and frame */
    static const int bits[] = { 7, 8, 14, 16, 15, 21, 22 };
    long n = chance(3) ? rlen() : (1L << bits[pick(chance(10) ? 7 : 5)]) + rnd(-40, 4); if (n < 0) n = 0;
    MT t; memset(&t, 0, sizeof t); t.ver = chance(2) ? 3 : 4;
    u8 id[4]; g_id(id, 0); t.f[t.nf++] = g_frame_len(id, n); t.tag_size = m_frames_size(&t);
    if (chance(2)) { t.padding = rnd(0, 3000); t.tag_size += t.padding; }
    long bn; u8 *b = m_serialise(&t, &bn);
    logf_("  v2.%d, frame %.4s of %ld bytes, tag size %ld\n", t.ver, t.f[0].id, t.f[0].n, t.tag_size);
    ID3v2_Tag *tag = ID3v2_read_tag_from_buffer((char *) exact(b, bn), bn);
    A(P(1), tag && tag->header->tag_size == t.tag_size && tag->frames->frame && tag->frames->frame->header->size == t.f[0].n, "frame size %ld or tag size %ld read back wrong", t.f[0].n, t.tag_size);
    const char *f = fname("size"); put_file(f, (u8 *) "", 0);
    ID3v2_write_tag(f, tag);
    long on; u8 *o = get_file(f, &on); long ts = tag->header->tag_size;
    A(P(1), on >= 20 && ss_ok(o + 6) && ss(o + 6) == ts, "tag size %ld is written as %02x %02x %02x %02x", ts, o[6], o[7], o[8], o[9]);
    A(P(1), t.ver == 3 ? be(o + 14) == t.f[0].n : (ss_ok(o + 14) && ss(o + 14) == t.f[0].n), "v2.%d frame size %ld is written as %02x %02x %02x %02x", t.ver, t.f[0].n, o[14], o[15], o[16], o[17]);
    ID3v2_Tag_free(tag);
}
/* ---- C02 ---- */
static void s_str(void)
{
    long want = rlen(); if (want > 66000) want = 66000;
    STR s = g_str_len(2, want); int wide = has_bom(s.p, s.n); long n = s.n - (wide ? 2 : 1);
    loghex("string", s.p, s.n);
    A(P(2), ID3v2_strlen((char *) s.p) == n, "ID3v2_strlen gives %d, expected %ld", ID3v2_strlen((char *) s.p), n);
    A(P(2), ID3v2_strlent((char *) s.p) == s.n, "ID3v2_strlent gives %d, expected %ld", ID3v2_strlent((char *) s.p), s.n);
    u8 *c = ardup(s.p, s.n);
    char *u = ID3v2_to_unicode((char *) s.p);
    A(P(2), !memcmp(c, s.p, s.n), "ID3v2_to_unicode changed its input");
    if (wide) A(P(2), u == (char *) s.p, "ID3v2_to_unicode did not hand the utf-16 string back");
    else
    {
        A(P(2) | P(13), u && u != (char *) s.p, "ID3v2_to_unicode");
        A(P(2), (u8) u[0] == 0xFF && (u8) u[1] == 0xFE, "byte order mark");
        for (long i = 0; i < n; i++) A(P(2), (u8) u[2 + 2 * i] == s.p[i] && u[3 + 2 * i] == 0, "character %ld is converted to %02x %02x", i, (u8) u[2 + 2 * i], (u8) u[3 + 2 * i]);
        A(P(2), !u[2 + 2 * n] && !u[3 + 2 * n], "termination");
        A(P(2), ID3v2_strlen(u) == 2 + 2 * n, "length of the converted string is %d", ID3v2_strlen(u));
        lfree(u);
    }
    leak(P(2), "string functions");
}
/* ---- C03, C04, C05: reading ---- */
static void check_read(const u8 *b, long n, unsigned mh, unsigned mfr, const char *what)
{
    MT w; int is = m_parse(b, n, &w);
    u8 *e = exact(b, n);
    loghex(what, b, (int) n);
    ID3v2_Tag *t = ID3v2_read_tag_from_buffer((char *) e, (int) n);
    memset(e, 0x55, n); ar_release(e); /* the tag must not depend on the buffer */
    A(mh, (t != NULL) == is, "%s: %s", what, t ? "a tag is reported where there is none" : "the tag is not recognised");
    if (t)
    {
        for (ID3v2_FrameList *l = t->frames; l && l->frame; l = l->next) walk_frame(l->frame);
        if (!w.ambiguous)
        {
            cmp_header(mh, t->header, &w, what);
            if (w.flags & 0x40) A(mh, t->header->extended_header_size == w.ext, "%s: extended header size %u, expected %ld", what, t->header->extended_header_size, w.ext);
            cmp_frames(mfr | ((w.flags & 0x40) ? P(4) : 0), t->frames, &w, what);
            A(P(11), t->padding_size == w.padding, "%s: padding %d, expected %ld", what, t->padding_size, w.padding);
        }
        ID3v2_Tag_free(t);
    }
    leak(P(3) | P(13), what);
}
static void s_parse(void)
{
    MT t; g_tag(&t, chance(8) ? 40 : 8, 1);
    long n; u8 *b = g_bytes_of(&t, &n);
    long an; u8 *a = g_audio(&an);
    if (chance(3)) { b = cat(b, n, a, an); n += an; }
    check_read(b, n, P(4), P(5), "reading a tag");
}
static void mutate(u8 *b, long n)
{
    int k = 1 + pick(4);
    while (k-- && n > 0)
    {
        long p = chance(2) ? pick(n < 40 ? n : 40) : rnd(0, n - 1);
        switch (pick(6))
        {
            case 0: b[p] = 0; break; case 1: b[p] = 0xFF; break; case 2: b[p] ^= 1 << pick(8); break;
            case 3: b[p] = 0x7F; break; case 4: b[p] = 0x80; break; default: b[p] = (u8) rnd64();
        }
    }
}
static void s_fuzz(void)
{
    MT t; long n; u8 *b;
    if (chance(8)) { n = rnd(0, 60); b = ar(n); g_bytes(b, n); if (n >= 4 && chance(2)) { memcpy(b, "ID3", 3); b[3] = 3 + pick(2); } if (n >= 10 && chance(2)) put_ss(b + 6, rnd(0, 80)); }
    else
    {
        g_tag(&t, 5, 1); b = g_bytes_of(&t, &n);
        if (n > 3000 && chance(2)) n = rnd(0, 3000);
        if (chance(2)) n = rnd(0, n);
        if (chance(2)) { u8 *c = ardup(b, n); mutate(c, n); b = c; }
        if (chance(2) && n > 20) /* the bytes the parser counts in: the sizes of the first frame */
        {
            u8 *c = ardup(b, n); long room = n - 20, s; int o = 14;
            s = chance(3) ? room + rnd(-3, 3) : chance(2) ? rnd(0, 6) : rnd(0, room);
            if (s < 0) s = 0; if (c[3] == 4 && chance(3)) put_ss(c + o, s); else put_be(c + o, chance(10) ? (long) (rnd64() & 0xFFFFFFFF) : s); b = c;
        }
        if (chance(3) && n >= 20) { u8 *c = ardup(b, n); memcpy(c + 10, IDS[8 + pick(3)], 4); b = c; }
    }
    check_read(b, n, P(4) | P(3), P(5), "reading arbitrary bytes");
    if (n >= 10)
    {
        u8 *e = exact(b, 10); ID3v2_TagHeader *h = ID3v2_read_tag_header_from_buffer((char *) e); MT w; int is = m_header(b, 10, &w);
        A(P(4), (h != NULL) == is, "tag header %s", is ? "not recognised" : "reported where there is none");
        if (h) { if (!w.ambiguous) cmp_header(P(4), h, &w, "tag header"); ID3v2_TagHeader_free(h); }
        leak(P(3) | P(13), "reading a tag header"); ar_release(e);
    }
    u8 *e = exact(b, n);
    ID3v2_tag *ct = load_tag_with_buffer((char *) e, n);
    if (ct) { for (ID3v2_frame_list *l = ct->frames; l && l->frame; l = l->next) touch(l->frame->data, l->frame->size); free_tag(ct); }
    leak(P(3) | P(13) | P(18), "loading arbitrary bytes (compat)");
}
static void s_hdr(void)
{
    MT t; g_tag(&t, 3, 0); long n; u8 *b = g_bytes_of(&t, &n); b = ardup(b, n);
    switch (pick(8))
    {
        case 0: b[pick(3)] ^= 1 << pick(8); break; case 1: b[3] = (u8) pick(7); break; case 2: b[3] = (u8) rnd64(); break;
        case 3: { int q = pick(12); n = q < n ? q : n; break; } case 4: b[4] = (u8) rnd64(); break; case 5: b[5] = (u8) (rnd64() & 0xBF) | (b[5] & 0x40); break; default: break;
    }
    check_read(b, n, P(4), P(5), "reading a tag");
    if (n >= 10)
    {
        u8 *e = exact(b, 10); ID3v2_TagHeader *h = ID3v2_read_tag_header_from_buffer((char *) e); MT w; int is = m_header(b, 10, &w);
        A(P(4), (h != NULL) == is, "tag header %s", is ? "not recognised" : "reported where there is none");
        if (h) { cmp_header(P(4), h, &w, "tag header"); ID3v2_TagHeader_free(h); }
    }
    /* the same from a file */
    const char *f = fname("hdr"); put_file(f, b, n);
    ID3v2_TagHeader *h = ID3v2_read_tag_header(f); MT w; int is = m_header(b, n, &w);
    A(P(4) | P(16), (h != NULL) == is, "tag header of a file of %ld bytes %s", n, is ? "not recognised" : "reported where there is none");
    if (h) { cmp_header(P(4) | P(16), h, &w, "tag header of a file"); ID3v2_TagHeader_free(h); }
    A(P(16), OPEN == 0, "%d files left open", OPEN);
    leak(P(13), "reading a tag header");
}
/* ---- writing a tag of the library to a file and comparing: C06, C07, C11, C14 ---- */
static void check_write(ID3v2_Tag *tag, MT *w, const u8 *old, long on, const char *when)
{
    const char *f = fname("w"); put_file(f, old, on);
    MT oh; long skip = m_header(old, on, &oh) ? oh.tag_size + 10 : 0; if (skip > on) skip = on;
    long p0 = w->padding;
    loghex("file before", old, (int) on);
    ID3v2_write_tag(f, tag);
    A(P(16) | P(14) | P(17), OPEN == 0, "%s: %d files left open", when, OPEN);
    long d = tag->padding_size - p0;
    A(P(11), d >= 0 && d <= (1 << 20), "%s: padding changed from %ld to %d", when, p0, tag->padding_size);
    w->padding += d; w->tag_size += d;
    A(P(11), tag->header->tag_size == w->tag_size, "%s: tag size %u after writing, expected %ld (padding %ld)", when, tag->header->tag_size, w->tag_size, w->padding);
    w->tag_size = tag->header->tag_size; /* what follows is about the bytes */
    long rn, sn, ts = tag->header->tag_size; u8 *r = get_file(f, &rn), *s = m_serialise(w, &sn);
    loghex("file after", r, (int) rn);
    /* the tag */
    A(P(6) | P(14), rn >= sn, "%s: the file has %ld bytes, the tag alone needs %ld", when, rn, sn);
    long q = 0; while (q < sn && r[q] == s[q]) q++;
    A(P(6) | P(14), q == sn, "%s: byte %ld of the written tag is %02x, expected %02x", when, q, r[q], s[q]);
    A(P(11), 10 + ts >= 10 + m_frames_size(w), "%s: announced size %ld is less than its frames need", when, ts);
    /* the audio */
    A(P(14), rn == sn + on - skip, "%s: the file has %ld bytes, expected %ld (tag) + %ld (audio)", when, rn, sn, on - skip);
    A(P(14), !memcmp(r + sn, old + skip, on - skip), "%s: the audio changed", when);
    /* reading it again */
    u8 *e = exact(r, rn);
    ID3v2_Tag *t2 = chance(2) ? ID3v2_read_tag(f) : ID3v2_read_tag_from_buffer((char *) e, rn);
    A(P(7), t2 != NULL, "%s: the written tag is not recognised", when);
    cmp_frames(P(7), t2->frames, w, "read back");
    MT h = *w; h.flags &= ~0x40;
    cmp_header(P(7), t2->header, &h, "read back");
    ID3v2_Tag_free(t2);
}
static void s_write(void)
{
    MT t; g_tag(&t, 8, 1); long n; u8 *b = g_bytes_of(&t, &n);
    ID3v2_Tag *tag = ID3v2_read_tag_from_buffer((char *) exact(b, n), n);
    A(P(4), tag != NULL, "tag not recognised");
    cmp_header(P(4), tag->header, &t, "reading"); cmp_frames(P(5), tag->frames, &t, "reading");
    A(P(11), tag->padding_size == t.padding, "padding %d, expected %ld", tag->padding_size, t.padding);
    long on, an; u8 *o, *a = g_audio(&an);
    MT ot; g_tag(&ot, 3, 1); o = g_bytes_of(&ot, &on);
    switch (pick(5)) { case 0: o = a; on = an; break; case 1: o = cat(b, n, a, an); on = n + an; break; case 2: on = rnd(0, on); break; default: o = cat(o, on, a, an); on += an; }
    check_write(tag, &t, o, on, "writing a tag");
    if (chance(3)) { long rn; u8 *r = get_file(fname("w"), &rn); check_write(tag, &t, r, rn, "writing a tag again"); }
    ID3v2_Tag_free(tag);
    leak(P(13), "writing a tag");
    if (chance(4)) /* writing no tag */
    {
        const char *f = fname("w"); long n1, n2; u8 *b1 = get_file(f, &n1); ID3v2_write_tag(f, NULL); u8 *b2 = get_file(f, &n2);
        A(P(14), n1 == n2 && !memcmp(b1, b2, n1), "writing no tag changed the file"); leak(P(13), "writing no tag");
    }
}
/* ---- C08 - C13: editing ---- */
typedef void (*SET)(ID3v2_Tag *, const char *);
typedef ID3v2_TextFrame *(*GET)(ID3v2_Tag *);
typedef void (*DEL)(ID3v2_Tag *);
static const struct { const char *id; GET get; SET set; DEL del; const char *name; } NAMED[] = {
    { "TPE1", ID3v2_Tag_get_artist_frame, ID3v2_Tag_set_artist, ID3v2_Tag_delete_artist, "artist" },
    { "TALB", ID3v2_Tag_get_album_frame, ID3v2_Tag_set_album, ID3v2_Tag_delete_album, "album" },
    { "TIT2", ID3v2_Tag_get_title_frame, ID3v2_Tag_set_title, ID3v2_Tag_delete_title, "title" },
    { "TRCK", ID3v2_Tag_get_track_frame, ID3v2_Tag_set_track, ID3v2_Tag_delete_track, "track" },
    { "TPE2", ID3v2_Tag_get_album_artist_frame, ID3v2_Tag_set_album_artist, ID3v2_Tag_delete_album_artist, "album artist" },
    { "TCON", ID3v2_Tag_get_genre_frame, ID3v2_Tag_set_genre, ID3v2_Tag_delete_genre, "genre" },
    { "TYER", ID3v2_Tag_get_year_frame, ID3v2_Tag_set_year, ID3v2_Tag_delete_year, "year" },
    { "TPOS", ID3v2_Tag_get_disc_number_frame, ID3v2_Tag_set_disc_number, ID3v2_Tag_delete_disc_number, "disc number" },
    { "TCOM", ID3v2_Tag_get_composer_frame, ID3v2_Tag_set_composer, ID3v2_Tag_delete_composer, "composer" } };
static void cmp_tag(unsigned m, unsigned msize, ID3v2_Tag *tag, const MT *w, const char *when)
{
    cmp_frames(m, tag->frames, w, when);
    A(msize, tag->header->tag_size == w->tag_size, "%s: tag size %u, expected %ld", when, tag->header->tag_size, w->tag_size);
    A(msize, tag->padding_size == w->padding, "%s: padding %d, expected %ld", when, tag->padding_size, w->padding);
    cmp_header(m, tag->header, w, when);
}
#define EMPTYW "\xFF\xFE\0\0"
static void spoil(void *p, long n) { memset(p, 0xEE, n); ar_release(p); }
static void edit_op(ID3v2_Tag *tag, MT *w)
{
    u8 id[4], fl[2], lang[3]; char when[200]; int k = pick(20), at;
    const char *fle; MF f; ID3v2_FrameList *before[MAXF]; int nb = 0; (void) before; (void) nb;
    g_flags(fl); for (int i = 0; i < 3; i++) lang[i] = nz();
    if (w->nf >= MAXF - 2) k = 12;
    switch (k)
    {
        case 0: case 1: /* text frame */
        {
            u8 fid[5] = { 'T', nz(), nz(), nz(), 0 }; if (!chance(3)) memcpy(fid, IDS[pick(9)], 4);
            if (w->nf && chance(2)) { int q = pick(w->nf); if (is_text(w->f[q].id) && !memchr(w->f[q].id, 0, 4)) memcpy(fid, w->f[q].id, 4); }
            memcpy(id, fid, 4);
            STR s = g_str(2); u8 *i2 = ardup(fid, 5), *f2 = ardup(fl, 2);
            ID3v2_TextFrameInput *in = (ID3v2_TextFrameInput *) ar(sizeof *in); in->id = (char *) i2; in->flags = (char *) f2; in->text = (char *) s.p;
            snprintf(when, sizeof when, "set_text_frame(%.4s, %ld bytes)", id, s.n); logf_("  %s\n", when); loghex("text", s.p, s.n);
            f = m_text(id, fl, s); at = m_find(w, id, 0);
            ID3v2_Tag_set_text_frame(tag, in); m_put(w, at, f); cmp_tag(P(8), P(11), tag, w, when);
            spoil(s.p, s.n); spoil(i2, 5); spoil(f2, 2); spoil(in, sizeof *in); cmp_tag(P(13), P(13), tag, w, "after releasing the arguments"); break;
        }
        case 2: case 3: case 4: /* named text setter */
        {
            int q = pick(9); STR s = g_str(2);
            snprintf(when, sizeof when, "set %s (%ld bytes)", NAMED[q].name, s.n); logf_("  %s\n", when); loghex("text", s.p, s.n);
            f = m_text(NAMED[q].id, "\0\0", s); at = m_find(w, NAMED[q].id, 0);
            NAMED[q].set(tag, (char *) s.p); m_put(w, at, f); cmp_tag(P(8) | P(12), P(11), tag, w, when);
            spoil(s.p, s.n); cmp_tag(P(13), P(13), tag, w, "after releasing the arguments"); break;
        }
        case 5: case 6: /* comment frame, set or add */
        {
            STR d = g_str(2), c = g_str(2); int add = k == 6; fle = (char *) ardup(fl, 2); u8 *l2 = ardup(lang, 3);
            ID3v2_CommentFrameInput *in = (ID3v2_CommentFrameInput *) ar(sizeof *in); in->flags = fle; in->language = (char *) l2; in->short_description = (char *) d.p; in->comment = (char *) c.p;
            snprintf(when, sizeof when, "%s_comment_frame(%ld, %ld bytes)", add ? "add" : "set", d.n, c.n); logf_("  %s\n", when); loghex("description", d.p, d.n); loghex("comment", c.p, c.n);
            f = m_comment(fl, lang, d, c); at = add ? -1 : m_find(w, "COMM", 0);
            (add ? ID3v2_Tag_add_comment_frame : ID3v2_Tag_set_comment_frame)(tag, in); m_put(w, at, f); cmp_tag(P(8), P(11), tag, w, when);
            spoil((void *) fle, 2); spoil(l2, 3); spoil(d.p, d.n); spoil(c.p, c.n); spoil(in, sizeof *in); cmp_tag(P(13), P(13), tag, w, "after releasing the arguments"); break;
        }
        case 7: /* named comment setter */
        {
            STR c = g_str(2); u8 *l2 = ardup(lang, 3); int wide = has_bom(c.p, c.n);
            snprintf(when, sizeof when, "set comment (%ld bytes)", c.n); logf_("  %s\n", when); loghex("comment", c.p, c.n);
            f = m_comment("\0\0", lang, wide ? g_lit(EMPTYW, 4) : g_lit("", 1), c); at = m_find(w, "COMM", 0);
            ID3v2_Tag_set_comment(tag, (char *) l2, (char *) c.p); m_put(w, at, f); cmp_tag(P(8) | P(12), P(11), tag, w, when);
            spoil(l2, 3); spoil(c.p, c.n); cmp_tag(P(13), P(13), tag, w, "after releasing the arguments"); break;
        }
        case 8: case 9: /* picture frame, set or add */
        {
            STR m = g_str(0), d = g_str(2); long n = blen(); u8 *p = ar(n); g_bytes(p, n); int add = k == 9, ty = (u8) rnd64(); fle = (char *) ardup(fl, 2);
            ID3v2_ApicFrameInput v = { fle, (char *) m.p, (char *) d.p, (char) ty, (int) n, (char *) p };
            ID3v2_ApicFrameInput *in = (ID3v2_ApicFrameInput *) ardup(&v, sizeof v);
            snprintf(when, sizeof when, "%s_apic_frame(%ld, %ld, %ld bytes)", add ? "add" : "set", m.n, d.n, n); logf_("  %s\n", when); loghex("mime", m.p, m.n); loghex("description", d.p, d.n); loghex("picture", p, n);
            f = m_apic(fl, m, ty, d, p, n); at = add ? -1 : m_find(w, "APIC", 0);
            (add ? ID3v2_Tag_add_apic_frame : ID3v2_Tag_set_apic_frame)(tag, in); m_put(w, at, f); cmp_tag(P(8), P(11), tag, w, when);
            spoil((void *) fle, 2); spoil(m.p, m.n); spoil(d.p, d.n); spoil(p, n); spoil(in, sizeof *in); cmp_tag(P(13), P(13), tag, w, "after releasing the arguments"); break;
        }
        case 10: /* named cover setter */
        {
            STR m = g_str(0); long n = blen(); u8 *p = ar(n); g_bytes(p, n);
            snprintf(when, sizeof when, "set album cover (%ld, %ld bytes)", m.n, n); logf_("  %s\n", when);
            at = m_find(w, "APIC", 0);
            ID3v2_Tag_set_album_cover(tag, (char *) m.p, (int) n, (char *) p);
            /* an empty description, in either encoding */
            ID3v2_ApicFrame *af = (ID3v2_ApicFrame *) lib_frame(tag, at < 0 ? w->nf : at);
            A(P(8) | P(12), af && !memcmp(af->header->id, "APIC", 4), "%s: there is no picture where one belongs", when);
            int wide = (u8) af->data->description[0] != 0;
            f = m_apic("\0\0", m, 3, wide ? g_lit(EMPTYW, 4) : g_lit("", 1), p, n);
            m_put(w, at, f); cmp_tag(P(8) | P(12), P(11), tag, w, when);
            spoil(m.p, m.n); spoil(p, n); cmp_tag(P(13), P(13), tag, w, "after releasing the arguments"); break;
        }
        case 11: case 12: /* delete by id */
        {
            if (w->nf && chance(2)) memcpy(id, w->f[pick(w->nf)].id, 4); else g_id(id, 0);
            if (memchr(id, 0, 4)) memcpy(id, "TIT2", 4);
            char *i5 = (char *) ar(5); memcpy(i5, id, 4); i5[4] = 0;
            snprintf(when, sizeof when, "delete_frame(%.4s)", id); logf_("  %s\n", when);
            ID3v2_Tag_delete_frame(tag, i5); m_del(w, m_find(w, id, 0)); cmp_tag(P(9), P(11), tag, w, when);
            spoil(i5, 5); break;
        }
        case 13: case 14: /* named deleters */
        {
            int q = pick(11);
            const char *qi = q < 9 ? NAMED[q].id : q == 9 ? "COMM" : "APIC";
            snprintf(when, sizeof when, "delete %s", q < 9 ? NAMED[q].name : q == 9 ? "comment" : "album cover"); logf_("  %s\n", when);
            if (q < 9) NAMED[q].del(tag); else if (q == 9) ID3v2_Tag_delete_comment(tag); else ID3v2_Tag_delete_album_cover(tag);
            m_del(w, m_find(w, qi, 0)); cmp_tag(P(9) | P(12), P(11), tag, w, when); break;
        }
        case 15: case 16: /* delete the n-th comment or picture */
        {
            int pic = k == 16; const char *qi = pic ? "APIC" : "COMM"; int have = 0; for (int i = 0; i < w->nf; i++) have += !memcmp(w->f[i].id, qi, 4);
            int ix = chance(4) ? (int) rnd(-3, have + 3) : (have ? pick(have) : 0); if (chance(30)) ix = chance(2) ? 2147483647 : -2147483647 - 1;
            snprintf(when, sizeof when, "delete_%s_frame(%d) of %d", pic ? "apic" : "comment", ix, have); logf_("  %s\n", when);
            (pic ? ID3v2_Tag_delete_apic_frame : ID3v2_Tag_delete_comment_frame)(tag, ix); m_del(w, m_nth(w, qi, ix)); cmp_tag(P(9), P(11), tag, w, when); break;
        }
        default: break;
    }
    /* lookups */
    for (int r = 0; r < 3; r++)
    {
        if (w->nf && !chance(3)) memcpy(id, w->f[pick(w->nf)].id, 4); else g_id(id, 0);
        if (chance(6)) id[pick(4)] = nz();
        if (memchr(id, 0, 4)) continue;
        char *i5 = (char *) ar(5); memcpy(i5, id, 4); i5[4] = 0;
        int q = m_find(w, id, 0), live = NLIVE;
        ID3v2_Frame *g = ID3v2_Tag_get_frame(tag, i5);
        A(P(10), g == (q < 0 ? NULL : lib_frame(tag, q)), "get_frame(%.4s) does not return frame %d (%s)", id, q, g ? "another one" : "nothing");
        ID3v2_FrameList *l = ID3v2_Tag_get_frames(tag, i5), *l0 = l; int c = 0, pos = -1;
        for (; l && l->frame; l = l->next, c++)
        {
            pos = m_find(w, id, pos + 1);
            A(P(10), pos >= 0 && l->frame == lib_frame(tag, pos), "get_frames(%.4s): element %d is not the matching frame number %d of the tag", id, c, c);
            for (ID3v2_FrameList *x = tag->frames; x; x = x->next) A(P(10) | P(13), x != l, "get_frames(%.4s) hands out a node of the tag", id);
        }
        A(P(10), m_find(w, id, pos + 1) < 0, "get_frames(%.4s) returns %d frames, there are more", id, c);
        cmp_tag(P(10), P(10), tag, w, "after a lookup");
        ID3v2_FrameList_unlink(l0);
        cmp_tag(P(13), P(13), tag, w, "after releasing a lookup's list");
        A(P(13), NLIVE == live, "a lookup's list is not completely released (%d blocks)", NLIVE - live);
        ar_release(i5);
    }
    for (int q = 0; q < 9; q++) { int x = m_find(w, NAMED[q].id, 0); A(P(12) | P(10), (ID3v2_Frame *) NAMED[q].get(tag) == (x < 0 ? NULL : lib_frame(tag, x)), "the %s getter does not return the first %s frame", NAMED[q].name, NAMED[q].id); }
    { int x = m_find(w, "COMM", 0); A(P(12) | P(10), (ID3v2_Frame *) ID3v2_Tag_get_comment_frame(tag) == (x < 0 ? NULL : lib_frame(tag, x)), "the comment getter does not return the first COMM frame"); }
    { int x = m_find(w, "APIC", 0); A(P(12) | P(10), (ID3v2_Frame *) ID3v2_Tag_get_album_cover_frame(tag) == (x < 0 ? NULL : lib_frame(tag, x)), "the album cover getter does not return the first APIC frame"); }
    for (int pic = 0; pic < 2; pic++)
    {
        ID3v2_FrameList *l = pic ? ID3v2_Tag_get_apic_frames(tag) : ID3v2_Tag_get_comment_frames(tag), *l0 = l; int pos = -1;
        for (; l && l->frame; l = l->next) { pos = m_find(w, pic ? "APIC" : "COMM", pos + 1); A(P(12) | P(10), pos >= 0 && l->frame == lib_frame(tag, pos), "get_%s_frames: wrong element", pic ? "apic" : "comment"); }
        A(P(12) | P(10), m_find(w, pic ? "APIC" : "COMM", pos + 1) < 0, "get_%s_frames: frames missing", pic ? "apic" : "comment");
        ID3v2_FrameList_unlink(l0);
    }
}
static ID3v2_Tag *start_tag(MT *w, int maxf)
{
    ID3v2_Tag *tag;
    if (chance(3))
    {
        tag = ID3v2_Tag_new_empty(); memset(w, 0, sizeof *w); w->ver = 3; logf_("  new tag\n");
        A(P(11) | P(8), tag && tag->header, "new tag");
        cmp_tag(P(8), P(11), tag, w, "a new tag");
        A(P(10), ID3v2_Tag_get_frame(NULL, "TIT2") == NULL && ID3v2_Tag_get_frames(NULL, "TIT2") == NULL && ID3v2_Tag_get_title_frame(NULL) == NULL, "a lookup on no tag returns something");
    }
    else
    {
        g_tag(w, maxf, 1); long n; u8 *b = g_bytes_of(w, &n); loghex("tag read", b, n);
        u8 *e = exact(b, n); tag = ID3v2_read_tag_from_buffer((char *) e, n); spoil(e, n);
        A(P(4), tag != NULL, "tag not recognised");
        cmp_header(P(4), tag->header, w, "reading"); cmp_frames(P(5), tag->frames, w, "reading");
        A(P(11), tag->padding_size == w->padding, "padding %d, expected %ld", tag->padding_size, w->padding);
    }
    return tag;
}
static void s_edit(void)
{
    MT w; ID3v2_Tag *tag = start_tag(&w, chance(5) ? 30 : 6);
    int k = 1 + pick(chance(4) ? 24 : 8);
    while (k--)
    {
        edit_op(tag, &w);
        if (chance(8) && w.tag_size < 40000000)
        {
            long an; u8 *a = g_audio(&an); logf_("  write\n"); check_write(tag, &w, a, an, "writing an edited tag"); cmp_tag(P(8), P(11), tag, &w, "after writing");
            if (chance(4)) { int fds = OPEN; ID3v2_write_tag(fname("missing/none"), tag); A(P(17), OPEN == fds, "file left open");
                long d = tag->padding_size - w.padding; w.padding += d; w.tag_size += d; cmp_tag(P(17) | P(8), P(11), tag, &w, "after a failed write"); }
        }
    }
    if (w.tag_size < 40000000 && chance(2)) { long an; u8 *a = g_audio(&an); logf_("  write\n"); check_write(tag, &w, a, an, "writing an edited tag"); }
    ID3v2_Tag_free(tag);
    leak(P(13), "after releasing the tag");
}
/* a tag header of the caller */
static void s_own(void)
{
    u8 h[10] = { 'I', 'D', '3', 3 + pick(2), (u8) pick(3), (u8) (rnd64() & 0xBF) }; put_ss(h + 6, 0);
    ID3v2_TagHeader *th = ID3v2_read_tag_header_from_buffer((char *) exact(h, 10));
    A(P(4), th != NULL, "header");
    ID3v2_Tag *tag = ID3v2_Tag_new(th, 0); MT w; memset(&w, 0, sizeof w); w.ver = h[3]; w.minor = h[4]; w.flags = h[5];
    A(P(13) | P(8), tag && tag->header == th, "ID3v2_Tag_new does not use the given header");
    int k = 1 + pick(5); while (k--) edit_op(tag, &w);
    long an; u8 *a = g_audio(&an); if (w.tag_size < 40000000) check_write(tag, &w, a, an, "writing a tag with a given header");
    ID3v2_Tag_free(tag); leak(P(13), "after releasing the tag");
}
/* ---- C15, C16 ---- */
static void s_delete(void)
{
    long n, an; u8 *b, *a = g_audio(&an); MT t, h;
    g_tag(&t, 5, 1); b = g_bytes_of(&t, &n);
    switch (pick(5)) { case 0: b = a; n = an; break; case 1: n = rnd(0, n); break; case 2: { u8 *c = ardup(b, n); c[pick(4)] ^= 1 << pick(3); b = cat(c, n, a, an); n += an; break; } default: b = cat(b, n, a, an); n += an; }
    int is = m_header(b, n, &h); long skip = is ? h.tag_size + 10 : 0; if (skip > n) skip = n;
    const char *f = fname("d"); put_file(f, b, n); loghex("file before", b, n);
    if (chance(2)) ID3v2_delete_tag(f); else remove_tag(f);
    long rn; u8 *r = get_file(f, &rn); loghex("file after", r, rn);
    A(P(15), rn == n - skip, "the file has %ld bytes after deleting the tag, expected %ld", rn, n - skip);
    A(P(15), !memcmp(r, b + skip, rn), "the audio changed");
    A(P(15) | P(17), OPEN == 0, "%d files left open", OPEN); leak(P(13), "deleting a tag");
    if (chance(20)) { ID3v2_delete_tag(fname("none")); A(P(17) | P(15), access(fname("none"), F_OK) != 0 && OPEN == 0, "deleting the tag of a missing file"); leak(P(13), "deleting a tag"); }
}
static void cmp_two(unsigned m, ID3v2_Tag *x, ID3v2_Tag *y)
{
    A(m, (x == NULL) == (y == NULL), "reading the file %s a tag, reading its bytes %s", x ? "gives" : "gives no", y ? "does" : "does not");
    if (!x) return;
    A(m, !memcmp(x->header->identifier, y->header->identifier, 3) && x->header->major_version == y->header->major_version && x->header->minor_version == y->header->minor_version && x->header->flags == y->header->flags && x->header->tag_size == y->header->tag_size && x->header->extended_header_size == y->header->extended_header_size && x->padding_size == y->padding_size, "the headers differ");
    ID3v2_FrameList *p = x->frames, *q = y->frames; int i = 0;
    for (; p && p->frame && q && q->frame; p = p->next, q = q->next, i++)
    {
        A(m, !memcmp(p->frame->header->id, q->frame->header->id, 4) && !memcmp(p->frame->header->flags, q->frame->header->flags, 2) && p->frame->header->size == q->frame->header->size, "frame %d differs", i);
        if (is_text((u8 *) p->frame->header->id)) { ID3v2_TextFrame *s = (void *) p->frame, *t = (void *) q->frame; A(m, s->data->encoding == t->data->encoding && s->data->size == t->data->size && !memcmp(s->data->text, t->data->text, s->data->size), "text frame %d differs", i); }
        else if (!is_comm((u8 *) p->frame->header->id) && !is_apic((u8 *) p->frame->header->id)) A(m, !memcmp(p->frame->data, q->frame->data, p->frame->header->size), "frame %d differs", i);
    }
    A(m, !(p && p->frame) && !(q && q->frame), "the number of frames differs");
}
static void s_read(void)
{
    long n, an; u8 *b, *a = g_audio(&an); MT t;
    g_tag(&t, 6, 1); b = g_bytes_of(&t, &n);
    switch (pick(6)) { case 0: b = a; n = an; break; case 1: case 2: n = rnd(0, n); break; case 3: { u8 *c = ardup(b, n); mutate(c, n); if (n >= 10 && !ss_ok(c + 6)) put_ss(c + 6, rnd(0, 200)); b = cat(c, n, a, an); n += an; break; } default: b = cat(b, n, a, an); n += an; }
    const char *f = fname("r"); put_file(f, b, n); loghex("file", b, n);
    int f0 = count_fds();
    ID3v2_Tag *x = ID3v2_read_tag(f); u8 *e = exact(b, n); ID3v2_Tag *y = ID3v2_read_tag_from_buffer((char *) e, n);
    cmp_two(P(16), x, y);
    MT w; int is = m_parse(b, n, &w);
    A(P(16), (x != NULL) == is, "reading a file of %ld bytes: %s", n, x ? "a tag where there is none" : "nothing");
    if (x && !w.ambiguous) { cmp_header(P(16), x->header, &w, "reading a file"); cmp_frames(P(16), x->frames, &w, "reading a file"); }
    if (x) ID3v2_Tag_free(x); if (y) ID3v2_Tag_free(y);
    A(P(16), OPEN == 0 && count_fds() == f0, "files left open");
    long rn; u8 *r = get_file(f, &rn); A(P(16), rn == n && !memcmp(r, b, n), "reading changed the file");
    leak(P(13), "reading a file");
    A(P(16), ID3v2_read_tag(fname("none")) == NULL && ID3v2_read_tag_header(fname("none")) == NULL, "a missing file yields something");
    A(P(16), ID3v2_read_tag(DIR_) == NULL && ID3v2_read_tag_header(DIR_) == NULL, "a directory yields something");
    A(P(16), OPEN == 0, "files left open after a failed read"); leak(P(13), "reading a missing file");
}
/* ---- C17 ---- */
static void s_fault(void)
{
    long n, an, sn; u8 *b, *a = g_audio(&an); MT t, w;
    g_tag(&t, 4, 1); b = g_bytes_of(&t, &n); if (chance(4)) { b = a; n = an; } else { b = cat(b, n, a, an); n += an; }
    g_tag(&w, 4, 1); u8 *s = m_serialise(&w, &sn);
    ID3v2_Tag *tag = ID3v2_read_tag_from_buffer((char *) exact(s, sn), sn); A(P(4), tag != NULL, "tag not recognised");
    VMODE = 1; v_reset(); v_put("song", b, n);
    int kind = pick(7), del = chance(2);
    if (kind == 0) F_OPEN = 1 + pick(4); else if (kind == 1) F_OPENW = 1 + pick(3); else if (kind == 2) F_TMP = 1; else if (kind == 3) F_READ = 1 + pick(8); else if (kind == 4) F_WRITE = 1 + pick(4); else if (kind == 5) F_SPACE = rnd(0, sn + n); else if (chance(2)) { F_SPACE = rnd(0, sn + n); F_READ = 1 + pick(8); }
    logf_("  %s, faults: open from %d, open for writing from %d, tmpfile from %d, read from %d, write from %d, space for temporary files %ld\n", del ? "delete" : "write", F_OPEN, F_OPENW, F_TMP, F_READ, F_WRITE, F_SPACE); loghex("file before", b, n);
    if (del) ID3v2_delete_tag("song"); else ID3v2_write_tag("song", tag);
    VMODE = 0;
    VF *f = v_find("song", 0, 0);
    A(P(17), OPEN == 0, "%d files left open", OPEN);
    A(P(17), f != NULL, "the file is gone");
    if (FAULTED_BEFORE || !FAULTED)
    {
        int same = f->n == n && !memcmp(f->b, b, n);
        if (FAULTED_BEFORE) A(P(17), same, "the file changed (from %ld to %ld bytes) although the operation failed before rewriting it", n, f->n);
        else
        {
            MT h; long skip = m_header(b, n, &h) ? h.tag_size + 10 : 0; if (skip > n) skip = n;
            long d = tag->padding_size - w.padding; if (!del) { w.padding += d; w.tag_size += d; }
            u8 *ns = m_serialise(&w, &sn); if (del) sn = 0;
            A(del ? P(15) : P(14), f->n == sn + n - skip && !memcmp(f->b, ns, sn) && !memcmp(f->b + sn, b + skip, n - skip), "wrong content without any fault");
        }
    }
    ID3v2_Tag_free(tag);
    leak(P(13) | P(17), "after a failed operation");
    v_reset();
    if (chance(4)) /* reading with faults */
    {
        VMODE = 1; v_put("song", b, n); if (chance(2)) F_OPEN = 1 + pick(3); else F_READ = 1 + pick(4);
        ID3v2_Tag *x = ID3v2_read_tag("song"); if (x) { for (ID3v2_FrameList *l = x->frames; l && l->frame; l = l->next) walk_frame(l->frame); ID3v2_Tag_free(x); }
        VMODE = 0; A(P(16), OPEN == 0, "%d files left open after a failing read", OPEN); VF *g = v_find("song", 0, 0); A(P(16), g && g->n == n && !memcmp(g->b, b, n), "reading changed the file"); leak(P(13), "a failing read"); v_reset();
    }
}
/* ---- C18, C19: compat ---- */
typedef void (*CSET)(char *, char, ID3v2_tag *);
typedef ID3v2_frame *(*CGET)(ID3v2_tag *);
static const struct { const char *id; CGET get; CSET set; const char *name; } CN[] = {
    { "TIT2", tag_get_title, tag_set_title, "title" }, { "TPE1", tag_get_artist, tag_set_artist, "artist" }, { "TALB", tag_get_album, tag_set_album, "album" },
    { "TPE2", tag_get_album_artist, tag_set_album_artist, "album artist" }, { "TCON", tag_get_genre, tag_set_genre, "genre" }, { "TRCK", tag_get_track, tag_set_track, "track" },
    { "TYER", tag_get_year, tag_set_year, "year" }, { "COMM", tag_get_comment, tag_set_comment, "comment" }, { "TPOS", tag_get_disc_number, tag_set_disc_number, "disc number" },
    { "TCOM", tag_get_composer, tag_set_composer, "composer" }, { "APIC", tag_get_album_cover, NULL, "album cover" } };
static void cmp_cframe(unsigned m, ID3v2_frame *f, const MF *w, const char *when, int at)
{
    A(m, !memcmp(f->frame_id, w->id, 4), "%s: compat frame %d is %.4s, expected %.4s", when, at, f->frame_id, w->id);
    A(m, !memcmp(f->flags, w->fl, 2), "%s: compat frame %d (%.4s): flags", when, at, w->id);
    A(m, f->size == w->n, "%s: compat frame %d (%.4s): size %d, expected %ld", when, at, w->id, f->size, w->n);
    A(m, !memcmp(f->data, w->b, w->n), "%s: compat frame %d (%.4s): other body", when, at, w->id);
}
static void cmp_content(unsigned m, ID3v2_frame *f, const MF *w)
{
    const u8 *b = w->b; long n = w->n;
    if (is_text(w->id))
    {
        ID3v2_frame_text_content *c = parse_text_frame_content(f);
        A(m, c && (u8) c->encoding == b[0] && c->size == n - 1 && !memcmp(c->data, b + 1, n - 1), "text content of %.4s", w->id);
        lfree(c->data); lfree(c);
    }
    else if (is_comm(w->id))
    {
        ID3v2_frame_comment_content *c = parse_comment_frame_content(f); long dn = m_len(b + 4, n - 4) + m_term(b + 4, n - 4);
        A(m, c && (u8) c->text->encoding == b[0] && !memcmp(c->language, b + 1, 3) && !memcmp(c->short_description, b + 4, dn) && c->text->size == n - 4 - dn && !memcmp(c->text->data, b + 4 + dn, n - 4 - dn), "comment content");
        lfree(c->text); lfree(c);
    }
    else if (is_apic(w->id))
    {
        ID3v2_frame_apic_content *c = parse_apic_frame_content(f); long mn = m_len(b + 1, n - 1) + 1, dn = m_len(b + 2 + mn, n - 2 - mn) + m_term(b + 2 + mn, n - 2 - mn), pn = n - 2 - mn - dn;
        A(m, c && (u8) c->encoding == b[0] && !memcmp(c->mime_type, b + 1, mn) && (u8) c->picture_type == b[1 + mn] && !memcmp(c->description, b + 2 + mn, dn) && c->picture_size == pn && !memcmp(c->data, b + 2 + mn + dn, pn), "picture content");
        lfree(c);
    }
}
static void cmp_compat(unsigned m, ID3v2_tag *t, const MT *w, const char *when)
{
    int i = 0;
    for (ID3v2_frame_list *l = t->frames; l && l->frame; l = l->next, i++) { A(m, i < w->nf, "%s: compat frame %d should not be there", when, i); cmp_cframe(m, l->frame, &w->f[i], when, i); }
    A(m, i == w->nf, "%s: %d compat frames, expected %d", when, i, w->nf);
    for (int q = 0; q < 11; q++)
    {
        ID3v2_frame *g = CN[q].get(t); int x = m_find(w, CN[q].id, 0);
        A(m | P(12), (g != NULL) == (x >= 0), "%s: compat getter %s %s", when, CN[q].name, g ? "returns something" : "returns nothing");
        if (g) { cmp_cframe(m | P(12), g, &w->f[x], when, x); cmp_content(m, g, &w->f[x]); }
    }
    A(m, parse_text_frame_content(NULL) == NULL && parse_comment_frame_content(NULL) == NULL && parse_apic_frame_content(NULL) == NULL, "content of no frame");
}
static void cmp_cheader(unsigned m, ID3v2_header *h, const MT *w)
{
    A(m, !memcmp(h->tag, "ID3", 3) && h->major_version == w->ver && h->minor_version == (char) w->minor && h->flags == (char) w->flags && h->tag_size == w->tag_size && h->extended_header_size == w->ext, "compat header differs");
}
static void s_cread(void)
{
    MT w; g_tag(&w, 8, 1); long n, an; u8 *b = g_bytes_of(&w, &n), *a = g_audio(&an);
    if (chance(3)) { b = cat(b, n, a, an); n += an; } else if (chance(4)) { n = rnd(0, n); } else if (chance(10)) { b = a; n = an; }
    int is = m_parse(b, n, &w); loghex("bytes", b, n);
    ID3v2_tag *t;
    if (chance(2)) { u8 *e = exact(b, n); t = load_tag_with_buffer((char *) e, n); spoil(e, n); }
    else { const char *f = fname("c"); put_file(f, b, n); t = load_tag(f); A(P(18) | P(16), OPEN == 0, "file left open"); }
    A(P(18), (t != NULL) == is, "compat load: %s", t ? "a tag where there is none" : "nothing");
    if (t)
    {
        if (!w.ambiguous) { cmp_cheader(P(18), t->tag_header, &w); cmp_compat(P(18), t, &w, "load"); cmp_frames(P(18), t->tag->frames, &w, "underlying tag"); }
        free_tag(t);
    }
    leak(P(18) | P(13), "compat load");
    A(P(18), load_tag(fname("none")) == NULL, "loading a missing file");
}
static void s_cedit(void)
{
    MT w; ID3v2_tag *t;
    if (chance(2))
    {
        t = new_tag(); memset(&w, 0, sizeof w); w.ver = 3; logf_("  new tag\n");
        A(P(19), t && t->tag, "new tag"); cmp_cheader(P(19), t->tag_header, &w); cmp_compat(P(19), t, &w, "new tag"); cmp_tag(P(19), P(19), t->tag, &w, "new tag");
    }
    else
    {
        g_tag(&w, 6, 1); long n; u8 *b = g_bytes_of(&w, &n); loghex("tag", b, n); u8 *e = exact(b, n); t = load_tag_with_buffer((char *) e, n); spoil(e, n);
        A(P(18), t != NULL, "load"); cmp_compat(P(18), t, &w, "load");
    }
    int k = 1 + pick(8);
    while (k-- && w.nf < MAXF - 2)
    {
        int q = pick(12), at; char when[100]; MF f;
        if (q < 11 && CN[q].set)
        {
            STR s = g_str(2); snprintf(when, sizeof when, "set %s", CN[q].name); logf_("  %s\n", when); loghex("text", s.p, s.n);
            if (!memcmp(CN[q].id, "COMM", 4)) f = m_comment("\0\0", "eng", has_bom(s.p, s.n) ? g_lit(EMPTYW, 4) : g_lit("", 1), s); else f = m_text(CN[q].id, "\0\0", s);
            at = m_find(&w, CN[q].id, 0);
            CN[q].set((char *) s.p, chance(2) ? 1 : 0, t); m_put(&w, at, f); spoil(s.p, s.n);
        }
        else
        {
            long n = blen(); u8 *p = ar(n); g_bytes(p, n); STR m; at = m_find(&w, "APIC", 0);
            if (q == 10) { m = g_str(0); snprintf(when, sizeof when, "set album cover from bytes"); logf_("  %s\n", when); tag_set_album_cover_from_bytes((char *) p, (char *) m.p, n, t); STR m2 = { ardup(m.p, m.n), m.n }; spoil(m.p, m.n); m = m2; }
            else
            {
                const char *nm[] = { "cover.png", "cover.jpg", "cover", "cover.jpeg", "x.png.jpg", ".png", "cover.pngx", "cover.pn" }; int z = pick(8); const char *fn = fname(nm[z]);
                if (chance(6)) { snprintf(when, sizeof when, "set album cover from a missing file"); logf_("  %s\n", when); tag_set_album_cover(fname("no.png"), t); cmp_compat(P(19), t, &w, when); cmp_tag(P(19), P(19), t->tag, &w, when); continue; }
                put_file(fn, p, n); snprintf(when, sizeof when, "set album cover from %s", nm[z]); logf_("  %s\n", when);
                m = (z == 0 || z == 5) ? g_lit(ID3v2_MIME_TYPE_PNG, strlen(ID3v2_MIME_TYPE_PNG) + 1) : g_lit(ID3v2_MIME_TYPE_JPG, strlen(ID3v2_MIME_TYPE_JPG) + 1);
                tag_set_album_cover(fn, t); A(P(19), OPEN == 0, "%s: file left open", when);
            }
            ID3v2_ApicFrame *af = (ID3v2_ApicFrame *) lib_frame(t->tag, at < 0 ? w.nf : at);
            A(P(19), af && !memcmp(af->header->id, "APIC", 4), "%s: no picture", when);
            f = m_apic("\0\0", m, 3, (u8) af->data->description[0] ? g_lit(EMPTYW, 4) : g_lit("", 1), p, n); m_put(&w, at, f); spoil(p, n);
        }
        cmp_frames(P(19), t->tag->frames, &w, when); cmp_compat(P(19), t, &w, when);
        A(P(11), t->tag->header->tag_size == w.tag_size, "%s: tag size %u, expected %ld", when, t->tag->header->tag_size, w.tag_size);
    }
    if (chance(2) && w.tag_size < 40000000)
    {
        long an; u8 *a = g_audio(&an); MT h; long skip = m_header(a, an, &h) ? h.tag_size + 10 : 0; if (skip > an) skip = an;
        const char *fn = fname("cw"); put_file(fn, a, an);
        set_tag(fn, t); long d = t->tag->padding_size - w.padding; w.padding += d; w.tag_size += d;
        long rn, sn; u8 *r = get_file(fn, &rn), *s = m_serialise(&w, &sn);
        A(P(19), rn == sn + an - skip && !memcmp(r, s, sn) && !memcmp(r + sn, a + skip, an - skip), "set_tag wrote something else");
        A(P(19), OPEN == 0, "file left open");
        ID3v2_tag *t2 = load_tag(fn); A(P(19), t2 != NULL, "set_tag: the tag is not found again"); cmp_compat(P(19), t2, &w, "loaded again"); free_tag(t2);
    }
    free_tag(t);
    leak(P(19) | P(13), "after free_tag");
}

static const struct { const char *name; void (*f)(void); unsigned props; } SC[] = {
    { "size", s_size, P(1) }, { "str", s_str, P(2) | P(13) }, { "fuzz", s_fuzz, P(3) | P(13) | P(18) | P(4) | P(5) }, { "hdr", s_hdr, P(4) | P(16) }, { "parse", s_parse, P(5) | P(4) | P(3) | P(11) | P(13) },
    { "write", s_write, P(6) | P(7) | P(14) | P(11) | P(13) | P(17) }, { "edit", s_edit, P(8) | P(9) | P(10) | P(11) | P(12) | P(13) | P(6) | P(7) }, { "own", s_own, P(8) | P(13) | P(6) | P(7) | P(11) },
    { "delete", s_delete, P(15) | P(13) | P(17) }, { "read", s_read, P(16) | P(13) }, { "fault", s_fault, P(17) | P(16) | P(14) | P(15) | P(13) }, { "cread", s_cread, P(18) | P(13) | P(12) }, { "cedit", s_cedit, P(19) | P(13) | P(12) | P(11) } };

int main(int argc, char **argv)
{
    if (argc == 2 && !strcmp(argv[1], "list")) { for (unsigned i = 0; i < sizeof SC / sizeof *SC; i++) printf("%s %u\n", SC[i].name, SC[i].props); return 0; }
    if (argc < 7) { fprintf(stderr, "usage: scen PROPERTY-NUMBER SCENARIO SEED FIRST COUNT DIR [SECONDS]\n"); return 2; }
    PROP = P(atoi(argv[1])); SCEN = argv[2]; SEED = strtoull(argv[3], 0, 10); long first = atol(argv[4]), count = atol(argv[5]); DIR_ = argv[6]; long secs = argc > 7 ? atol(argv[7]) : 0;
    void (*f)(void) = NULL; int si = 0;
    for (unsigned i = 0; i < sizeof SC / sizeof *SC; i++) if (!strcmp(SC[i].name, SCEN)) { f = SC[i].f; si = i; }
    if (!f) return 2;
    setvbuf(stdout, NULL, _IONBF, 0); setvbuf(stderr, NULL, _IONBF, 0);
    __sanitizer_set_death_callback(on_death); signal(SIGALRM, on_signal); signal(SIGPROF, on_signal); signal(SIGSEGV, on_signal); signal(SIGABRT, on_signal); signal(SIGBUS, on_signal); signal(SIGFPE, on_signal); signal(SIGPIPE, SIG_IGN);
    atexit(on_exit_);
    int big = getenv("SCEN_BIG") != NULL; struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0); long done = 0;
    for (ITERNO = first; ITERNO < first + count; ITERNO++)
    {
        RS = SEED * 1000003ull + si * 7919ull + (u64) ITERNO * 0x2545F4914F6CDD1Dull; rnd64(); LOGN = 0;
        alarm(600); struct itimerval it = { { 0, 0 }, { 40, 0 } }; setitimer(ITIMER_PROF, &it, NULL); /* of its own processor time */
        BIGS = ITERNO % 127 == 7 || (big && ITERNO % 3 == 0) ? 3 : 0; MANY = 0; MANYN = big ? 6 : 60;
        if (setjmp(ITER) == 0) f();
        else { OPEN = 0; VMODE = 0; v_reset(); }
        memset(LIVE, 0, sizeof LIVE); NLIVE = 0; ar_reset(); done++;
        if (secs && (ITERNO & 7) == 0) { clock_gettime(CLOCK_MONOTONIC, &t1); if (t1.tv_sec - t0.tv_sec >= secs) break; }
    }
    alarm(0); { struct itimerval it = { { 0, 0 }, { 0, 0 } }; setitimer(ITIMER_PROF, &it, NULL); }
    printf("OK scenario=%s iterations=%ld other=%d\n", SCEN, done, ABANDONED);
    _exit(0);
}
