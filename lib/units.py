"""The proof units: which functions each puts under contract, which callees it replaces by contract, which loops it cuts."""
UNITS = {}
class Unit:
    def __init__(self, name, file, contract, stubs=(), cut=(), flags=(), unwind=10, timeout=int(__import__("os").environ.get("UT","240")), backends=('sat', 'cadical', 'slice'), never=(), note='', cost=1, small=('MAXLEN=40',), small_unwind=44, small_drop=(), small_add=()):
        self.name = name; self.file = file; self.contract = list(contract); self.stubs = list(stubs); self.cut = cut
        self.flags = list(flags); self.unwind = unwind; self.timeout = timeout; self.note = note; self.backends = backends; self.never = list(never); self.cost = cost; self.small = small; self.small_unwind = small_unwind; self.small_drop = list(small_drop); self.small_add = list(small_add)
        UNITS[name] = self
def U(*a, **k): return Unit(*a, **k)

# utils
U('sync', 'u_utils.c', ['syncint_encode', 'syncint_decode'])
U('syncdec', 'u_utils.c', ['syncint_decode', 'syncint_encode'])
U('bytes', 'u_utils.c', ['itob', 'btoi'])
U('clamp', 'u_utils.c', ['clamp_int'])
U('bom', 'u_utils.c', ['string_has_bom'])
U('strlen', 'u_utils.c', ['ID3v2_strlen', 'string_has_bom'], stubs=['strlen'], cut=['ID3v2_strlen'])
U('strlent', 'u_utils.c', ['ID3v2_strlent'], stubs=['ID3v2_strlen'])
U('unicode', 'u_utils.c', ['ID3v2_to_unicode'], stubs=['strlen'], cut=['ID3v2_to_unicode'])

LEAK = ['--memory-leak-check']
PARSE = ['Frame_parse', 'FrameHeader_parse', 'FrameHeader_new', 'CharStream_read', 'CharStream_getc', 'CharStream_seek', 'CharStream_slice', 'clamp_int', 'btoi', 'syncint_decode', 'ID3v2_Frame_free']
U('taghdr', 'u_parse.c', ['ID3v2_read_tag_header_from_buffer', 'TagHeader_parse', 'TagHeader_new', 'CharStream_from_buffer', 'CharStream_read', 'CharStream_getc', 'CharStream_free'], flags=LEAK)
U('taghdr_cs', 'u_parse.c', ['TagHeader_parse', 'TagHeader_new', 'ID3v2_TagHeader_free'], flags=LEAK)
PT = ['TextFrame_parse', 'TextFrame_free']; PC = ['CommentFrame_parse', 'CommentFrame_free']; PA = ['ApicFrame_parse', 'ApicFrame_free']
U('fhdr', 'u_parse.c', ['FrameHeader_parse', 'FrameHeader_new', 'CharStream_read', 'CharStream_seek', 'CharStream_slice', 'clamp_int', 'btoi', 'syncint_decode'], flags=LEAK)
FHP = ['FrameHeader_parse']
PARSE = [x for x in PARSE if not x in ('FrameHeader_parse', 'FrameHeader_new', 'CharStream_slice', 'btoi', 'syncint_decode')]
U('cs_read', 'u_parse.c', ['CharStream_read', 'CharStream_get_cur', 'clamp_int'], flags=LEAK)
U('p_none', 'u_parse.c', PARSE, stubs=FHP, flags=LEAK, never=PT + PC + PA)
U('p_text', 'u_parse.c', PARSE + ['TextFrame_parse', 'TextFrame_free', 'FrameHeader_isTextFrame'], stubs=FHP, flags=LEAK, never=PC + PA)
U('p_other', 'u_parse.c', PARSE + ['FrameHeader_isCommentFrame', 'FrameHeader_isApicFrame'], stubs=FHP, flags=LEAK, never=PT + PC + PA)
U('p_comm', 'u_parse.c', PARSE + ['CommentFrame_parse', 'CommentFrame_free'], stubs=['ID3v2_strlen'] + FHP, flags=LEAK, never=PT + PA)
for k in '1234': U('p_apic' + k, 'u_parse.c', PARSE + ['ApicFrame_parse', 'ApicFrame_free'], stubs=['ID3v2_strlen', 'ApicFrame_new', 'CharStream_read'] + FHP, flags=['--no-standard-checks'], unwind=26, never=PT + PC, backends=('cadical',), cost=9, timeout=330)
U('p_apicx', 'u_parse.c', PARSE + ['ApicFrame_parse', 'ApicFrame_free'], stubs=['ID3v2_strlen', 'ApicFrame_new', 'CharStream_read'] + FHP, flags=LEAK, unwind=26, never=PT + PC, backends=('cadical',), cost=8, timeout=330)

SL = ['ID3v2_strlen']
U('n_text', 'u_frames.c', ['TextFrame_new', 'TextFrameData_new', 'FrameHeader_new', 'TextFrame_free', 'FrameHeader_free', 'string_has_bom'], stubs=SL, flags=LEAK)
U('n_comm', 'u_frames.c', ['CommentFrame_new', 'CommentFrameData_new', 'FrameHeader_new', 'CommentFrame_free', 'string_has_bom', 'ID3v2_strlent'], stubs=SL, flags=LEAK)
U('n_apic', 'u_frames.c', ['ApicFrame_new', 'ApicFrameData_new', 'FrameHeader_new', 'ApicFrame_free', 'string_has_bom', 'ID3v2_strlent'], stubs=SL, flags=LEAK)
ZF = ['Frame_to_char_stream', 'FrameHeader_to_char_stream', 'CharStream_new', 'CharStream_write', 'CharStream_free', 'itob', 'ID3v2_Frame_free']
ZT = ['TextFrame_to_char_stream']; ZC = ['CommentFrame_to_char_stream']; ZA = ['ApicFrame_to_char_stream']
U('z_hdr', 'u_frames.c', ['FrameHeader_to_char_stream', 'CharStream_new', 'CharStream_write', 'CharStream_free', 'itob'], flags=LEAK)
U('z_text', 'u_frames.c', ZF + ZT + ['FrameHeader_isTextFrame'], flags=LEAK, never=ZC + ZA)
U('z_other', 'u_frames.c', ZF, flags=LEAK, never=ZT + ZC + ZA)
U('z_comm', 'u_frames.c', ZF + ZC + ['FrameHeader_isCommentFrame', 'ID3v2_strlent'], stubs=SL, flags=LEAK, never=ZT + ZA)
U('z_apic', 'u_frames.c', ZF + ZA + ['FrameHeader_isApicFrame', 'ID3v2_strlent'], stubs=SL, flags=LEAK, never=ZT + ZC)

U('r_apic', 'u_frames.c', ZF + ZA + ['FrameHeader_isApicFrame', 'ID3v2_strlent'], stubs=SL, flags=['--no-standard-checks'], never=ZT + ZC)

LF = 'u_list.c'
def L(n, c, f=LF, **k):
    k.setdefault('flags', LEAK); k.setdefault('unwind', 8); k.setdefault('small_unwind', 9)
    U(n, f, c, **k)
L('l_get', ['FrameList_get_frame_by_id'], cut=['FrameList_get_frame_by_id'])
L('l_getall', ['FrameList_get_frames_by_id', 'FrameList_new'], stubs=['FrameList_add_frame'], cut=['FrameList_get_frames_by_id'])
L('l_add', ['FrameList_add_frame', 'FrameList_new'], cut=['FrameList_add_frame'])
L('l_rmid', ['FrameList_remove_frame_by_id'], cut=['FrameList_remove_frame_by_id'])
L('l_rm', ['FrameList_remove_frame'], cut=['FrameList_remove_frame'])
L('l_repl', ['FrameList_replace_frame'], cut=['FrameList_replace_frame'])
L('l_free', ['ID3v2_FrameList_free'], stubs=['ID3v2_Frame_free'], cut=['ID3v2_FrameList_free'])
L('l_unlink', ['ID3v2_FrameList_unlink'], cut=['ID3v2_FrameList_unlink'])
L('c_get', ['get_from_list'], cut=['get_from_list'])
L('c_add', ['add_to_list', 'new_frame_list'])
L('c_uniq', ['add_uniq_to_list', 'free_frame'], stubs=['add_to_list'], cut=['add_uniq_to_list'])
L('c_free', ['free_tag', 'free_frame'], stubs=['ID3v2_Tag_free'], cut=['free_tag'])
FLS = ['FrameList_get_frame_by_id', 'FrameList_add_frame', 'FrameList_replace_frame', 'FrameList_remove_frame_by_id']
TREAL = ('MAXLEN=40', 'REAL')
def T(n, c, stubs, drop=(), sm=(), **k): L(n, c, f='u_tag.c', stubs=stubs, small=TREAL + sm, small_drop=drop, unwind=6, **k)
NAMED = ['artist', 'album', 'title', 'track', 'album_artist', 'genre', 'year', 'disc_number', 'composer']
T('t_set_text', ['ID3v2_Tag_set_text_frame'] + ['ID3v2_Tag_set_' + n for n in NAMED], FLS + ['ID3v2_Frame_free', 'TextFrame_new'], drop=FLS)
T('t_set_comm', ['ID3v2_Tag_set_comment_frame', 'ID3v2_Tag_add_comment_frame', 'ID3v2_Tag_set_comment', 'string_has_bom'], FLS + ['ID3v2_Frame_free', 'CommentFrame_new'], drop=FLS)
T('t_set_apic', ['ID3v2_Tag_set_apic_frame', 'ID3v2_Tag_add_apic_frame', 'ID3v2_Tag_set_album_cover'], FLS + ['ID3v2_Frame_free', 'ApicFrame_new'], drop=FLS)
T('t_del', ['ID3v2_Tag_delete_frame'] + ['ID3v2_Tag_delete_' + n for n in NAMED + ['comment', 'album_cover']], FLS + ['ID3v2_Frame_free'], drop=FLS)
T('t_get', ['ID3v2_Tag_get_frame', 'ID3v2_Tag_get_frames', 'ID3v2_Tag_get_comment_frames', 'ID3v2_Tag_get_apic_frames'] + ['ID3v2_Tag_get_%s_frame' % n for n in NAMED + ['comment', 'album_cover']], ['FrameList_get_frame_by_id', 'FrameList_get_frames_by_id'])
T('t_new', ['ID3v2_Tag_new', 'ID3v2_Tag_new_empty', 'TagHeader_new_empty', 'TagHeader_new', 'FrameList_new', 'ID3v2_TagHeader_free'], [])
T('t_free', ['ID3v2_Tag_free', 'ID3v2_TagHeader_free'], ['ID3v2_FrameList_free'])
T('t_delidx', ['ID3v2_Tag_delete_comment_frame', 'ID3v2_Tag_delete_apic_frame'], ['FrameList_get_frames_by_id', 'FrameList_remove_frame', 'ID3v2_FrameList_unlink', 'ID3v2_Frame_free'], drop=['FrameList_get_frames_by_id', 'FrameList_remove_frame', 'ID3v2_FrameList_unlink'], cut=['ID3v2_Tag_delete_comment_frame', 'ID3v2_Tag_delete_apic_frame'], sm=('NK=2',), small_unwind=5)
def G(n, c, stubs, drop=(), **k): L(n, c, f='u_tagio.c', stubs=stubs, small_drop=drop, **k)
G('g_parse', ['Tag_parse', 'ID3v2_Tag_new', 'FrameList_new', 'CharStream_seek', 'clamp_int'], ['TagHeader_parse', 'Frame_parse', 'FrameList_add_frame'], drop=['FrameList_add_frame'], cut=['Tag_parse'], small=('MAXLEN=40', 'REAL'))
G('g_buf', ['ID3v2_read_tag_from_buffer', 'CharStream_from_buffer', 'CharStream_free'], ['Tag_parse'])
G('g_ser', ['Tag_to_char_stream', 'CharStream_write', 'CharStream_seek', 'CharStream_free', 'itob', 'syncint_encode'], ['Frame_to_char_stream', 'CharStream_new'], cut=['Tag_to_char_stream'])
STDIO = ['fopen', 'fclose', 'fread', 'fwrite', 'getc', 'putc', 'fgetc', 'fputc', 'fseek', 'ftell', 'rewind', 'ferror', 'feof', 'fflush', 'perror', 'tmpfile']
def F(n, c, stubs=(), **k): U(n, 'u_file.c', c, stubs=STDIO + list(stubs), unwind=12, flags=LEAK, **k)
F('f_hdr', ['ID3v2_read_tag_header'], ['ID3v2_read_tag_header_from_buffer'])
F('f_read', ['ID3v2_read_tag', 'ID3v2_read_tag_header'], ['ID3v2_read_tag_header_from_buffer', 'ID3v2_read_tag_from_buffer'])
F('f_load', ['load_tag', 'ID3v2_read_tag_header'], ['ID3v2_read_tag_header_from_buffer', 'load_tag_with_buffer'])
F('f_write', ['ID3v2_write_tag', 'ID3v2_read_tag_header', 'clamp_int', 'CharStream_free'], ['ID3v2_read_tag_header_from_buffer', 'Tag_to_char_stream'], cut=['ID3v2_write_tag'], small=('MAXLEN=12',), small_unwind=42)
F('f_delete', ['ID3v2_delete_tag', 'ID3v2_read_tag_header'], ['ID3v2_read_tag_header_from_buffer'], cut=['ID3v2_delete_tag'])

RT = ['Frame_to_char_stream', 'Frame_parse', 'FrameHeader_to_char_stream', 'FrameHeader_parse', 'FrameHeader_new', 'CharStream_new', 'CharStream_write', 'CharStream_read', 'CharStream_seek', 'CharStream_getc', 'CharStream_free', 'itob', 'btoi', 'syncint_decode', 'clamp_int', 'ID3v2_Frame_free']
def R(n, c, stubs=(), **k): U(n, 'u_round.c', RT + c, stubs=stubs, flags=LEAK, **k)
R('r_text', PT + ZT, never=PC + PA + ZC + ZA)
R('r_other', [], never=PT + PC + PA + ZT + ZC + ZA)
U('r_comm', 'u_round.c', [x for x in RT if not x in ('Frame_to_char_stream', 'FrameHeader_to_char_stream', 'CharStream_new', 'CharStream_write', 'itob')] + PC, stubs=SL + ['Frame_to_char_stream'], flags=LEAK, never=PT + PA)

def KU(n, c, stubs=(), drop=(), **k): L(n, c, f='u_compat.c', stubs=list(stubs), small_drop=drop, **k)
KREAL = ('MAXLEN=40', 'REAL')
KU('k_frame', ['frame_to_compat_frame', 'CharStream_seek', 'CharStream_read', 'CharStream_free', 'clamp_int'], ['Frame_to_char_stream'])
KU('k_load', ['load_tag_with_buffer', 'new_frame_list'], ['ID3v2_read_tag_from_buffer', 'frame_to_compat_frame', 'add_to_list'], drop=['frame_to_compat_frame', 'add_to_list'], cut=['load_tag_with_buffer'], small=KREAL, small_add=['Frame_to_char_stream'])
KU('k_new', ['new_tag', 'new_frame_list', 'ID3v2_Tag_new_empty', 'TagHeader_new_empty'])
KU('k_content', ['parse_text_frame_content', 'parse_comment_frame_content', 'parse_apic_frame_content'], flags=[])
KU('k_file', ['set_tag', 'remove_tag'], ['ID3v2_write_tag', 'ID3v2_delete_tag'])
CN = ['title', 'artist', 'album', 'album_artist', 'genre', 'track', 'year', 'disc_number', 'composer', 'comment']
KU('k_get', ['tag_get_' + n for n in CN + ['album_cover']], ['get_from_list'], drop=['get_from_list'])
KM = ['ID3v2_Tag_set_' + n for n in CN + ['text_frame', 'album_cover']] + ['ID3v2_Tag_get_%s_frame' % n for n in CN + ['album_cover']] + ['ID3v2_Tag_get_frame']
KU('k_set', ['tag_set_' + n for n in CN] + ['tag_set_album_cover_from_bytes'], KM + ['frame_to_compat_frame', 'add_uniq_to_list'], drop=['frame_to_compat_frame', 'add_uniq_to_list'], small=KREAL, small_add=['Frame_to_char_stream'])
KU('k_cover', ['tag_set_album_cover'], KM + ['tag_set_album_cover_from_bytes', 'strrchr', 'fopen', 'fclose', 'fseek', 'rewind', 'ftell', 'fread'], drop=['strrchr'], small=('MAXLEN=12',), small_unwind=16)

TRUSTED = ['cbmc 6.11 (C front end, symbolic execution, memory model) and its SAT back ends MiniSat2 and CaDiCaL', 'goto-cc, goto-instrument --remove-function-body',
           'clang 18 AST used to place the loop call-backs (insertion only; removing the insertions gives back the source byte for byte, checked on every run)',
           'the loop-cut rule (lib/loopgen.py): invariant on entry, arbitrary iteration, invariant preserved',
           'the contract layer in /verif/u (specifications, ghost strings, contract stubs)']
ASSUMPTIONS = ['malloc succeeds (cbmc --no-malloc-may-fail)', 'memcpy, memset, strncmp and the other string functions of the C library behave as in cbmc\'s built-in library', 'LP64, two\'s complement, 8-bit bytes',
               'contracts of replaced callees are those proved by their own unit']
NATIVE_B = 'histories across calls (the units prove each call for every state satisfying the invariants)'
PROPS = {
 'C01': dict(units=['sync', 'syncdec', 'bytes', 'clamp']),
 'C02': dict(units=['bom', 'strlen', 'strlent', 'unicode']),
 'C03': dict(units=['taghdr', 'taghdr_cs', 'fhdr', 'cs_read', 'p_none', 'p_text', 'p_other', 'p_comm', 'p_apicx', 'g_parse', 'g_buf', 'l_add']),
 'C04': dict(units=['taghdr', 'taghdr_cs', 'syncdec', 'f_hdr', 'g_parse']),
 'C05': dict(units=['fhdr', 'cs_read', 'p_none', 'p_text', 'p_other', 'p_comm', 'p_apic1', 'p_apic2', 'p_apic3', 'p_apic4', 'g_parse', 'g_buf', 'l_add']),
 'C06': dict(units=['z_hdr', 'z_text', 'z_other', 'z_comm', 'z_apic', 'g_ser']),
 'C07': dict(units=['r_text', 'r_other', 'r_comm', 'g_ser', 'g_parse', 'z_apic', 'r_apic', 'taghdr_cs', 'sync'], thorough_units=['p_apic1', 'p_apic2', 'p_apic3', 'p_apic4']),
 'C08': dict(units=['n_text', 'n_comm', 'n_apic', 't_set_text', 't_set_comm', 't_set_apic', 'l_get', 'l_add', 'l_repl']),
 'C09': dict(units=['t_del', 't_delidx', 'l_rmid', 'l_rm', 'l_getall', 'l_unlink', 'l_add']),
 'C10': dict(units=['t_get', 'l_get', 'l_getall', 'l_add']),
 'C11': dict(units=['t_new', 't_set_text', 't_set_comm', 't_set_apic', 't_del', 't_delidx', 'g_parse', 'f_write']),
 'C12': dict(units=['t_get', 't_set_text', 't_set_comm', 't_set_apic', 't_del', 'k_get', 'k_set']),
 'C13': dict(units=['n_text', 'n_comm', 'n_apic', 't_new', 't_free', 't_set_text', 't_del', 't_delidx', 'l_free', 'l_unlink', 'c_free', 't_set_comm', 't_set_apic', 'l_getall', 'g_buf', 'k_load', 'k_new', 'c_uniq'], bounded=[NATIVE_B]),
 'C14': dict(units=['f_write', 'f_hdr', 'taghdr', 'g_ser']),
 'C15': dict(units=['f_delete', 'f_hdr', 'taghdr']),
 'C16': dict(units=['f_hdr', 'f_read', 'taghdr', 'g_buf']),
 'C17': dict(units=['f_write', 'f_delete', 'f_hdr']),
 'C18': dict(units=['k_load', 'k_frame', 'k_get', 'k_content', 'c_get', 'c_add', 'f_load', 'g_buf']),
 'C19': dict(units=['k_set', 'k_new', 'k_cover', 'k_file', 'k_frame', 'c_uniq', 'c_add', 'c_get', 'c_free', 't_set_text', 't_set_comm', 't_set_apic', 'l_repl', 'l_add'], bounded=[NATIVE_B]),
}
for k in range(6, 20): PROPS.setdefault('C%02d' % k, dict(units=[], level='exploration', bounded=['all of it']))
