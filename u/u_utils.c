/* Units: size codecs, string length, UTF-16 conversion (src/modules/utils.c) */
#include "verif.h"
#include "modules/utils.private.h"

/* ---- U_sync: syncsafe and big-endian codecs, for every value ------------------------------------------------- */
#ifdef UNIT_sync
#include "loops.h"
void harness(void)
{
    int v = nondet_int();
    ASSUME(0 <= v && v < (1 << 28));
    unsigned e = (unsigned) syncint_encode(v);
    CHECK(((e >> 24) & 0xFF) == (((unsigned) v >> 21) & 0x7F), "syncsafe: first byte is bits 21..27");
    CHECK(((e >> 16) & 0xFF) == (((unsigned) v >> 14) & 0x7F), "syncsafe: second byte is bits 14..20");
    CHECK(((e >> 8) & 0xFF) == (((unsigned) v >> 7) & 0x7F), "syncsafe: third byte is bits 7..13");
    CHECK((e & 0xFF) == ((unsigned) v & 0x7F), "syncsafe: fourth byte is bits 0..6");
    CHECK(syncint_decode((int) e) == (unsigned) v, "decode(encode(v)) == v");
    REACH("sync");
}
#endif
#ifdef UNIT_syncdec
#include "loops.h"
void harness(void)
{
    unsigned a = nondet_uchar() & 0x7F, b = nondet_uchar() & 0x7F, c = nondet_uchar() & 0x7F, d = nondet_uchar() & 0x7F;
    unsigned raw = (a << 24) | (b << 16) | (c << 8) | d, want = (a << 21) | (b << 14) | (c << 7) | d;
    CHECK(syncint_decode((int) raw) == want, "decode of a syncsafe field is the number it denotes");
    CHECK((unsigned) syncint_encode((int) want) == raw, "encode(decode(field)) == field");
    REACH("syncdec");
}
#endif
#ifdef UNIT_bytes
#include "loops.h"
void harness(void)
{
    int v = nondet_int();
    char *b = itob(v);
    CHECK((unsigned char) b[0] == (((unsigned) v >> 24) & 0xFF) && (unsigned char) b[1] == (((unsigned) v >> 16) & 0xFF) &&
          (unsigned char) b[2] == (((unsigned) v >> 8) & 0xFF) && (unsigned char) b[3] == ((unsigned) v & 0xFF), "itob: big-endian bytes");
    CHECK(btoi(b, 4) == (unsigned) v, "btoi(itob(v)) == v");
    free(b);
    char *c = in_bytes(4);
    unsigned want = ((unsigned) (unsigned char) c[0] << 24) | ((unsigned) (unsigned char) c[1] << 16) | ((unsigned) (unsigned char) c[2] << 8) | (unsigned char) c[3];
    CHECK(btoi(c, 4) == want, "btoi: the number four big-endian bytes denote");
    char *d = itob((int) want);
    CHECK(d[0] == c[0] && d[1] == c[1] && d[2] == c[2] && d[3] == c[3], "itob(btoi(b)) == b");
    free(c); free(d);
    REACH("bytes");
}
#endif
#ifdef UNIT_clamp
#include "loops.h"
void harness(void)
{
    int v = nondet_int(), lo = nondet_int(), hi = nondet_int();
    ASSUME(lo <= hi);
    int r = clamp_int(v, lo, hi);
    CHECK(lo <= r && r <= hi, "clamp: within the limits");
    CHECK(!(lo <= v && v <= hi) || r == v, "clamp: identity inside");
    CHECK(!(v < lo) || r == lo, "clamp: lower");
    CHECK(!(v > hi) || r == hi, "clamp: upper");
    REACH("clamp");
}
#endif

/* ---- U_strlen: real loops, any length ------------------------------------------------------------------------- */
#ifdef UNIT_strlen
static long L; static _Bool W;
#define V_INST(i) gs_facts(i)
#undef V_HOOK_HAVOC
#define V_HOOK_HAVOC(loop, t) do { gs_facts(t); gs_facts(2 * (t)); gs_facts(2 * (t) + 1); } while (0)
#include "loops.h"
void harness(void)
{
    char *s = in_string_len(&L, &W, MAXLEN);
    long k = nondet_long(); ASSUME(0 <= k && k < L + U_TERM(W));
    char before = s[k];
    VB[0] = L; VB[1] = L / 2; VB[2] = L + 1;
    CHECK(string_has_bom(s) == W, "byte order mark recognised exactly");
    int r = ID3v2_strlen(s);
    CHECK(r == L, "ID3v2_strlen: index of the first terminator");
    CHECK(s[k] == before, "ID3v2_strlen: the string is not modified");
    REACH("strlen");
    if (W) REACH("strlen wide");
    if (!W && L == 0) REACH("strlen empty");
}
#endif
#ifdef UNIT_strlent
#include "loops.h"
void harness(void)
{
    long L; _Bool W;
    char *s = in_string_len(&L, &W, MAXLEN);
    CHECK(ID3v2_strlent(s) == L + U_TERM(W), "ID3v2_strlent: length plus terminator");
    CHECK(ID3v2_strlen(s) == L, "ID3v2_strlen via its contract");
    REACH("strlent");
}
#endif
#ifdef UNIT_bom
#include "loops.h"
void harness(void)
{
    int n = in_int(1, MAXLEN);
    char *s = in_bytes(n);
    if (n == 1) ASSUME(s[0] == 0);
    CHECK(string_has_bom(s) == u_bom(s, n), "byte order mark recognised exactly, within the string");
    CHECK(!string_has_bom(NULL), "no string: no byte order mark");
    free(s);
    REACH("bom");
}
#endif

/* ---- U_unicode -------------------------------------------------------------------------------------------------- */
#ifdef UNIT_unicode
static long L; static _Bool W; static char *S; static long K;
static unsigned char spec(long k) { return k == 0 ? 0xFF : k == 1 ? 0xFE : (k < 2 * L + 2 && (k & 1) == 0) ? (unsigned char) S[k / 2 - 1] : 0; }
#undef V_WATCHZ
#define V_WATCHZ(ptr, from) (K < (from) || (K < (long) __CPROVER_OBJECT_SIZE(ptr) && V_BASE(ptr)[K] == 0))
#undef V_HOOK_HAVOC
#define V_HOOK_HAVOC(loop, t) do { gs_facts(t); gs_facts((t) + 1); } while (0)
#undef V_WATCH
#define V_WATCH(ptr, upto) (!(K < (upto)) || (K < (long) __CPROVER_OBJECT_SIZE(ptr) && (unsigned char) V_BASE(ptr)[K] == spec(K)))
#include "loops.h"
void harness(void)
{
    S = in_string_len(&L, &W, MAXLEN / 2);
    K = nondet_long(); ASSUME(0 <= K && K < 2 * L + 4);
    long k2 = nondet_long(); ASSUME(0 <= k2 && k2 < L + U_TERM(W));
    char before = S[k2];
    VB[0] = L; VB[1] = L + 1; VB[2] = 2 * L + 2;
    char *r = ID3v2_to_unicode(S);
    CHECK(S[k2] == before, "to_unicode: the argument is not modified");
    if (W)
    {
        CHECK(r == S, "to_unicode: strings with a byte order mark come back untouched");
        REACH("unicode wide");
    }
    else
    {
        CHECK(r != S && __CPROVER_OBJECT_SIZE(r) >= 2 * L + 4 && __CPROVER_w_ok(r, 2 * L + 4), "to_unicode: room for mark, characters and terminator");
        CHECK((unsigned char) r[K] == spec(K), "to_unicode: byte K is that of FF FE, c1 00, c2 00, ..., 00 00");
        REACH("unicode");
        free(r);
    }
}
#endif
