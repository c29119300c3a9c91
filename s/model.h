/* The model: an independent description of ID3v2.3/2.4 tags and of the documented operations on them. */
#ifndef MODEL_H
#define MODEL_H
#include "base.h"
#define MAXF 720
typedef struct { u8 id[4], fl[2]; u8 *b; long n; } MF;
typedef struct { int ver, minor, flags; long tag_size, ext, padding; int nf; MF f[MAXF]; int ambiguous; } MT;

static int has_bom(const u8 *s, long n) { return n >= 2 && ((s[0] == 0xFF && s[1] == 0xFE) || (s[0] == 0xFE && s[1] == 0xFF)); }
/* length of the string at s, without terminator; -1 when there is none in n bytes */
static long m_len(const u8 *s, long n)
{
    if (has_bom(s, n)) { for (long i = 0; i + 2 <= n; i += 2) if (!s[i] && !s[i + 1]) return i; return -1; }
    for (long i = 0; i < n; i++) if (!s[i]) return i;
    return -1;
}
static int m_term(const u8 *s, long n) { return has_bom(s, n) ? 2 : 1; }
static int is_text(const u8 *id) { return id[0] == 'T'; }
static int is_comm(const u8 *id) { return !memcmp(id, "COMM", 4); }
static int is_apic(const u8 *id) { return !memcmp(id, "APIC", 4); }
static long be(const u8 *p) { return (long) p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
static long ss(const u8 *p) { return (long) p[0] << 21 | p[1] << 14 | p[2] << 7 | p[3]; }
static int ss_ok(const u8 *p) { return !((p[0] | p[1] | p[2] | p[3]) & 0x80); }
static void put_be(u8 *p, long v) { p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; }
static void put_ss(u8 *p, long v) { p[0] = (v >> 21) & 127; p[1] = (v >> 14) & 127; p[2] = (v >> 7) & 127; p[3] = v & 127; }

/* can this body be decoded as the kind of frame its identifier says? 1 yes, 0 no, -1 not determined by the format */
static int body_ok(const u8 *id, const u8 *b, long n)
{
    if (is_text(id)) return n >= 1;
    if (is_comm(id)) return n >= 4 && m_len(b + 4, n - 4) >= 0;
    if (is_apic(id))
    {
        if (n < 1) return 0;
        if (has_bom(b + 1, n - 1)) return -1;
        long ml = m_len(b + 1, n - 1);
        if (ml < 0 || 1 + ml + 1 + 1 > n) return 0;
        return m_len(b + 1 + ml + 2, n - 1 - ml - 2) >= 0;
    }
    return 1;
}
static int m_header(const u8 *b, long n, MT *t)
{
    memset(t, 0, sizeof *t);
    if (n < 10 || memcmp(b, "ID3", 3) || (b[3] != 3 && b[3] != 4)) return 0;
    t->ver = b[3]; t->minor = b[4]; t->flags = b[5];
    if (!ss_ok(b + 6)) t->ambiguous = 1;
    t->tag_size = ss(b + 6);
    return 1;
}
static int m_parse(const u8 *b, long n, MT *t)
{
    if (!m_header(b, n, t)) return 0;
    long end = t->tag_size + 10 < n ? t->tag_size + 10 : n, pos = 10;
    if (t->flags & 0x40)
    {
        if (end < 14) { t->ambiguous = 1; return 1; }
        t->ext = ss(b + 10);
        if (!ss_ok(b + 10) || (t->ver == 3 && be(b + 10) >= 128) || (t->ver == 4 && t->ext < 4)) t->ambiguous = 1;
        pos = 10 + (t->ver == 3 ? 4 : 0) + t->ext;
        if (pos > end) pos = end;
    }
    long fe = pos;
    while (pos < end && t->nf < MAXF)
    {
        if (end - pos < 10) break;
        const u8 *h = b + pos;
        if (!h[0] && !h[1] && !h[2] && !h[3]) break;
        if (t->ver == 4 && !ss_ok(h + 4)) { t->ambiguous = 1; break; }
        long s = t->ver == 4 ? ss(h + 4) : be(h + 4);
        if (s > end - pos - 10) break;
        int k = body_ok(h, h + 10, s);
        if (k < 0) { t->ambiguous = 1; break; }
        if (!k) break;
        MF *f = &t->f[t->nf++];
        memcpy(f->id, h, 4); memcpy(f->fl, h + 8, 2); f->n = s; f->b = ardup(h + 10, s);
        pos += 10 + s; fe = pos;
    }
    t->padding = end - fe;
    return 1;
}
static long m_frames_size(const MT *t) { long s = 0; for (int i = 0; i < t->nf; i++) s += 10 + t->f[i].n; return s; }
static u8 *m_serialise(const MT *t, long *n)
{
    *n = 10 + t->tag_size;
    u8 *o = ar(*n > 10 + m_frames_size(t) ? *n : 10 + m_frames_size(t)), *p = o + 10;
    memset(o, 0, *n);
    memcpy(o, "ID3", 3); o[3] = t->ver; o[4] = t->minor; o[5] = t->flags & ~0x40; put_ss(o + 6, t->tag_size);
    for (int i = 0; i < t->nf; i++)
    {
        const MF *f = &t->f[i];
        memcpy(p, f->id, 4); if (t->ver == 4) put_ss(p + 4, f->n); else put_be(p + 4, f->n); memcpy(p + 8, f->fl, 2); memcpy(p + 10, f->b, f->n);
        p += 10 + f->n;
    }
    return o;
}
static int m_find(const MT *t, const void *id, int from) { for (int i = from; i < t->nf; i++) if (!memcmp(t->f[i].id, id, 4)) return i; return -1; }
static int m_nth(const MT *t, const void *id, long k) { if (k < 0) return -1; for (int i = 0; i < t->nf; i++) if (!memcmp(t->f[i].id, id, 4) && k-- == 0) return i; return -1; }
static void m_put(MT *t, int at, MF f) /* at < 0: append */
{
    if (at < 0) { t->f[t->nf++] = f; t->tag_size += 10 + f.n; }
    else { t->tag_size += f.n - t->f[at].n; t->f[at] = f; }
}
static void m_del(MT *t, int at)
{
    if (at < 0) return;
    t->tag_size -= 10 + t->f[at].n;
    memmove(&t->f[at], &t->f[at + 1], sizeof(MF) * (t->nf - at - 1)); t->nf--;
}
/* frames as the setters have to build them */
typedef struct { u8 *p; long n; } STR; /* p[0..n): bytes including the terminator */
static MF mf(const void *id, const void *fl, long n) { MF f; memcpy(f.id, id, 4); memcpy(f.fl, fl, 2); f.n = n; f.b = ar(n); return f; }
static MF m_text(const void *id, const void *fl, STR s) { MF f = mf(id, fl, 1 + s.n); f.b[0] = has_bom(s.p, s.n); memcpy(f.b + 1, s.p, s.n); return f; }
static MF m_comment(const void *fl, const void *lang, STR d, STR c) { MF f = mf("COMM", fl, 4 + d.n + c.n); f.b[0] = has_bom(c.p, c.n); memcpy(f.b + 1, lang, 3); memcpy(f.b + 4, d.p, d.n); memcpy(f.b + 4 + d.n, c.p, c.n); return f; }
static MF m_apic(const void *fl, STR m, int type, STR d, const u8 *pic, long n)
{
    MF f = mf("APIC", fl, 1 + m.n + 1 + d.n + n);
    f.b[0] = has_bom(d.p, d.n); memcpy(f.b + 1, m.p, m.n); f.b[1 + m.n] = type; memcpy(f.b + 2 + m.n, d.p, d.n); memcpy(f.b + 2 + m.n + d.n, pic, n);
    return f;
}

/* ---- the library's frames against the model ---- */
static volatile unsigned SINK;
static void touch(const void *p, long n) { const u8 *b = p; for (long i = 0; i < n; i++) SINK += b[i]; }
/* reads everything a caller may read */
static void walk_frame(ID3v2_Frame *f)
{
    A(P(3), f->header != NULL && f->data != NULL, "frame without header or data");
    touch(f->header, sizeof *f->header);
    if (is_text((u8 *) f->header->id)) { ID3v2_TextFrame *t = (ID3v2_TextFrame *) f; A(P(3), t->data->size >= 0, "negative text size"); touch(t->data->text, t->data->size); SINK += ID3v2_strlen(t->data->text); }
    else if (is_comm((u8 *) f->header->id)) { ID3v2_CommentFrame *c = (ID3v2_CommentFrame *) f; A(P(3), c->data->size >= 0, "negative comment size"); touch(c->data->comment, c->data->size); SINK += ID3v2_strlen(c->data->comment); SINK += ID3v2_strlen(c->data->short_description); touch(c->data->language, 3); }
    else if (is_apic((u8 *) f->header->id)) { ID3v2_ApicFrame *a = (ID3v2_ApicFrame *) f; A(P(3), a->data->picture_size >= 0, "negative picture size"); touch(a->data->data, a->data->picture_size); SINK += ID3v2_strlen(a->data->mime_type) + ID3v2_strlen(a->data->description); }
    else { A(P(3), f->header->size >= 0, "negative frame size"); touch(f->data, f->header->size); }
}
static void cmp_frame(unsigned m, ID3v2_Frame *f, const MF *w, const char *when, int at)
{
    const u8 *b = w->b; long n = w->n;
    A(m, f->header != NULL && f->data != NULL, "%s: frame %d has no header or data", when, at);
    A(m, !memcmp(f->header->id, w->id, 4), "%s: frame %d is %.4s, expected %.4s", when, at, f->header->id, w->id);
    A(m, !memcmp(f->header->flags, w->fl, 2), "%s: frame %d (%.4s) has flags %02x %02x, expected %02x %02x", when, at, w->id, (u8) f->header->flags[0], (u8) f->header->flags[1], w->fl[0], w->fl[1]);
    A(m, f->header->size == n, "%s: frame %d (%.4s) has size %d, expected %ld", when, at, w->id, f->header->size, n);
    if (is_text(w->id))
    {
        ID3v2_TextFrame *t = (ID3v2_TextFrame *) f;
        A(m, (u8) t->data->encoding == b[0], "%s: frame %d (%.4s) has encoding %d, expected %d", when, at, w->id, t->data->encoding, b[0]);
        A(m, t->data->size == n - 1, "%s: frame %d (%.4s) has text size %d, expected %ld", when, at, w->id, t->data->size, n - 1);
        A(m, !memcmp(t->data->text, b + 1, n - 1), "%s: frame %d (%.4s) has another text", when, at, w->id);
    }
    else if (is_comm(w->id))
    {
        ID3v2_CommentFrame *c = (ID3v2_CommentFrame *) f;
        long dn = m_len(b + 4, n - 4) + m_term(b + 4, n - 4);
        A(m, (u8) c->data->encoding == b[0], "%s: comment %d has encoding %d, expected %d", when, at, c->data->encoding, b[0]);
        A(m, !memcmp(c->data->language, b + 1, 3), "%s: comment %d has another language", when, at);
        A(m, !memcmp(c->data->short_description, b + 4, dn), "%s: comment %d has another description", when, at);
        A(m, c->data->size == n - 4 - dn, "%s: comment %d has size %d, expected %ld", when, at, c->data->size, n - 4 - dn);
        A(m, !memcmp(c->data->comment, b + 4 + dn, n - 4 - dn), "%s: comment %d has another text", when, at);
    }
    else if (is_apic(w->id))
    {
        ID3v2_ApicFrame *a = (ID3v2_ApicFrame *) f;
        long mn = m_len(b + 1, n - 1) + 1, dn = m_len(b + 2 + mn, n - 2 - mn) + m_term(b + 2 + mn, n - 2 - mn), pn = n - 2 - mn - dn;
        A(m, (u8) a->data->encoding == b[0], "%s: picture %d has encoding %d, expected %d", when, at, a->data->encoding, b[0]);
        A(m, !memcmp(a->data->mime_type, b + 1, mn), "%s: picture %d has another MIME type", when, at);
        A(m, (u8) a->data->picture_type == b[1 + mn], "%s: picture %d has type %d, expected %d", when, at, (u8) a->data->picture_type, b[1 + mn]);
        A(m, !memcmp(a->data->description, b + 2 + mn, dn), "%s: picture %d has another description", when, at);
        A(m, a->data->picture_size == pn, "%s: picture %d has size %d, expected %ld", when, at, a->data->picture_size, pn);
        A(m, !memcmp(a->data->data, b + 2 + mn + dn, pn), "%s: picture %d has other picture bytes", when, at);
    }
    else A(m, !memcmp(f->data, b, n), "%s: frame %d (%.4s) has other bytes", when, at, w->id);
}
static void cmp_frames(unsigned m, ID3v2_FrameList *l, const MT *t, const char *when)
{
    int i = 0;
    A(m, l != NULL, "%s: no frame list", when);
    for (; l != NULL && l->frame != NULL; l = l->next, i++)
    {
        A(m, i < t->nf, "%s: frame %d (%.4s) should not be there (expected %d frames)", when, i, l->frame->header->id, t->nf);
        cmp_frame(m, l->frame, &t->f[i], when, i);
    }
    A(m, l == NULL || (i == 0 && l->next == NULL), "%s: a frame list node without frame", when);
    A(m, i == t->nf, "%s: %d frames, expected %d", when, i, t->nf);
}
static void cmp_header(unsigned m, ID3v2_TagHeader *h, const MT *t, const char *when)
{
    A(m, !memcmp(h->identifier, "ID3", 3), "%s: header identifier", when);
    A(m, h->major_version == t->ver && h->minor_version == (char) t->minor && h->flags == (char) t->flags, "%s: version or flags %d.%d %02x, expected %d.%d %02x", when, h->major_version, h->minor_version, (u8) h->flags, t->ver, t->minor, t->flags);
    A(m, h->tag_size == t->tag_size, "%s: tag size %u, expected %ld", when, h->tag_size, t->tag_size);
}
static ID3v2_Frame *lib_frame(ID3v2_Tag *tag, int k) { ID3v2_FrameList *l = tag->frames; while (l && l->frame && k-- > 0) l = l->next; return l ? l->frame : NULL; }
#endif
