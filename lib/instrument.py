"""Mechanical, insertion-only instrumentation of the loops of a C source file.

Every loop of the file gets a call-back at its head which is handed the address of each loop-carried variable:
    while (c) body          ->  { int V_it_k = 0; while (vloop_F_k(&V_it_k, &x, ...), (c)) body }
    for (i; c; n) body      ->  { int V_it_k = 0; for (i; vloop_F_k(...), (c); n) body }
    do { body } while (c)   ->  { int V_it_k = 0; do { vloop_F_k(...); { body } } while (c); }
Nothing of the original text is changed or dropped: deleting the inserted pieces gives the file back byte for byte
(checked here on every run), and with call-backs that do nothing the program is the original one.
"""
import json, subprocess, re, os

INTS = re.compile(r'^(const |volatile |unsigned |signed |long |short |int|char|_Bool|bool|size_t|ssize_t|u?int\d+_t|off_t|ptrdiff_t|__ssize_t|__off_t)+$')

def ast(path, incs):
    r = subprocess.run(['clang', '-w', '-std=gnu99', '-fsyntax-only', '-Xclang', '-ast-dump=json'] + incs + [path],
                       capture_output=True, text=True, timeout=60)
    if r.returncode != 0:
        raise RuntimeError('clang: ' + r.stderr[:2000])
    return json.loads(r.stdout)

def loc(l):
    l = l.get('expansionLoc', l)
    return l.get('offset'), l.get('tokLen', 0)

def rng(n):
    b, _ = loc(n['range']['begin']); e, t = loc(n['range']['end'])
    if b is None or e is None:
        return None
    return b, e + t

def has_macro(n):
    r = n['range']
    return 'expansionLoc' in r['begin'] or 'expansionLoc' in r['end']

def walk(n):
    if not isinstance(n, dict):
        return
    yield n
    for c in n.get('inner', []):
        yield from walk(c)

def strip(n):
    while n.get('kind') in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr') and n.get('inner'):
        n = n['inner'][0]
    return n

def kind_of(q):
    q = q.strip()
    d = q.replace('const ', '').replace(' const', '').strip()
    if d in ('ID3v2_FrameList **', 'struct _ID3v2_FrameList **'): return 'flink'
    if d in ('ID3v2_frame_list **', 'struct _ID3v2_frame_list **'): return 'clink'
    if d in ('ID3v2_FrameList *', 'struct _ID3v2_FrameList *'): return 'flist'
    if d in ('ID3v2_frame_list *', 'struct _ID3v2_frame_list *'): return 'clist'
    if d in ('char *', 'unsigned char *', 'signed char *'): return 'charptr'
    if q.endswith(']'): return 'array'
    if INTS.match(d.replace('*', '@')): return 'int'
    if q.endswith('*'): return 'ptr'
    return 'other'

class Loop: pass

def loops_of(fn, src):
    """loops of one function: list of Loop with text positions and carried variables"""
    out = []
    decls = {}
    for n in walk(fn):
        if n.get('kind') in ('VarDecl', 'ParmVarDecl') and rng(n):
            decls[n['id']] = n
    def visit(n, depth):
        k = n.get('kind')
        if k in ('WhileStmt', 'ForStmt', 'DoStmt'):
            lp = Loop(); lp.kind = k; lp.node = n; lp.depth = depth
            out.append(lp); depth += 1
        for c in n.get('inner', []):
            if isinstance(c, dict): visit(c, depth)
    visit(fn, 0)
    for lp in out:
        n = lp.node
        lp.range = rng(n); lp.ok = lp.range is not None and not 'expansionLoc' in n['range']['begin']
        inner = n.get('inner', [])
        if lp.kind == 'WhileStmt': lp.cond, lp.body = inner[-2], inner[-1]; init = None
        elif lp.kind == 'ForStmt': init, _, lp.cond, lp.inc, lp.body = inner
        else: lp.body, lp.cond = inner[0], inner[1]; init = None
        b, e = lp.range
        br = rng(lp.body) if lp.body.get('kind') else None
        # the statement's end: add the ';' of an unbraced body or of do-while
        lp.end = e
        if src[e-1] != '}' or lp.kind == 'DoStmt':
            m = re.match(r'\s*;', src[e:])
            if m: lp.end = e + m.end()
        carried, written = {}, {}
        def outside(d):
            r = rng(d)
            if d['id'] not in decls: return True        # global
            o = r[0]
            if br and br[0] <= o < br[1]: return False
            return True
        def base(z):
            z = strip(z)
            if z.get('kind') == 'BinaryOperator' and z.get('opcode') in ('+', '-'):
                c = [w for w in z['inner'] if w['type']['qualType'].strip().endswith('*')]
                return base(c[0]) if c else None
            return z
        def outside_root(z):
            r = [y['referencedDecl'] for y in walk(z) if y.get('kind') == 'DeclRefExpr' and 'referencedDecl' in y]
            return any(d['kind'] in ('VarDecl', 'ParmVarDecl') and outside(decls.get(d['id'], d)) for d in r)
        handed = []; passes = set(); members = []; opaque = []
        def note(x, addr=False):
            x = strip(x)
            if x.get('kind') == 'DeclRefExpr':
                d = x['referencedDecl']
                if d['kind'] in ('VarDecl', 'ParmVarDecl'):
                    full = decls.get(d['id'], d)
                    if d['id'] not in decls or outside(full):
                        carried[d['name']] = d['type']['qualType']
                return
            # memory.  Through a member of a structure the loop leaves alone: the member itself is what is written
            # (a scalar member) or points to it (a byte block), and is passed like a variable
            pure = lambda z: all(y.get('kind') in ('MemberExpr', 'DeclRefExpr', 'ImplicitCastExpr', 'ParenExpr') for y in walk(z))
            m = None
            if x.get('kind') == 'ArraySubscriptExpr': m = base(x['inner'][0])
            elif x.get('kind') == 'UnaryOperator' and x.get('opcode') == '*': m = base(x['inner'][0])
            elif x.get('kind') == 'MemberExpr' and not addr: m = x
            if m is not None and m.get('kind') == 'MemberExpr' and pure(m) and rng(m):
                q = m['type']['qualType']; t = src[rng(m)[0]:rng(m)[1]]
                roots = [y['referencedDecl'] for y in walk(m) if y.get('kind') == 'DeclRefExpr']
                if len(roots) == 1 and roots[0]['kind'] in ('VarDecl', 'ParmVarDecl') and outside(decls.get(roots[0]['id'], roots[0])):
                    if m is not x and kind_of(q) == 'charptr': members.append((t, q, roots[0]['name'], written)); return
                    if m is x and kind_of(q) == 'int': members.append((t, q, roots[0]['name'], carried)); return
            for y in walk(x):
                if y.get('kind') == 'DeclRefExpr' and y['referencedDecl']['kind'] in ('VarDecl', 'ParmVarDecl'):
                    d = y['referencedDecl']
                    full = decls.get(d['id'], d)
                    if d['id'] not in decls or outside(full):
                        written[d['name']] = d['type']['qualType']
                        if not addr and kind_of(d['type']['qualType']) in ('ptr', 'other'): opaque.append(d['name'])
                    break
        for part in inner if lp.kind != 'ForStmt' else [lp.cond, lp.inc, lp.body]:
            for x in walk(part):
                k = x.get('kind')
                if (k == 'BinaryOperator' and x.get('opcode') == '=') or k == 'CompoundAssignOperator': note(x['inner'][0])
                elif k == 'UnaryOperator' and x.get('opcode') in ('++', '--', '&'): note(x['inner'][0], x.get('opcode') == '&')
                elif k == 'CallExpr':
                    # what a callee is handed to write to
                    for a in x['inner'][1:]:
                        t = a['type']['qualType'].strip()
                        if not t.endswith('*') or 'const' in t: continue
                        z = base(a)
                        if z is None or z.get('kind') not in ('DeclRefExpr', 'MemberExpr'): continue
                        zt = z['type']['qualType'].strip()
                        if kind_of(zt) == 'charptr': handed.append(dict(kind='UnaryOperator', opcode='*', inner=[z], type=dict(qualType='char')))
                        elif zt == 'void *' and outside_root(z): opaque.append('void')
                        elif zt == 'CharStream *' and outside_root(z): passes.add('CharStream')
                elif k == 'DeclRefExpr' and x['referencedDecl']['kind'] == 'VarDecl' and x['referencedDecl']['type']['qualType'].endswith(']'):
                    d = x['referencedDecl']
                    if d['id'] in decls and outside(decls[d['id']]): written[d['name']] = d['type']['qualType']
        for z in handed: # a block that is the same in every round
            if z['inner'][0].get('kind') != 'DeclRefExpr' or z['inner'][0]['referencedDecl']['name'] not in carried: note(z)
        for t, q, root, where in members:
            if root in carried: opaque.append(root)
            else: where[t] = q
        lp.passes = sorted(passes)
        lp.opaque = sorted(set(opaque))
        lp.through = [i for i, (v, t) in enumerate((v, t) for v, t in carried.items() if kind_of(t) != 'array') if v in written and kind_of(t) == 'charptr'] # carried pointers it writes through
        lp.carried = [(v, t, kind_of(t)) for v, t in carried.items()]
        lp.written = [(v, t, kind_of(t)) for v, t in written.items() if v not in carried]
    return out

def instrument(path, incs, tag):
    """-> (instrumented text, [loop descriptors], {function: (signature)}, original text)"""
    src = open(path, encoding='latin-1').read()
    tree = ast(path, incs)
    ins = []; loops = []; funcs = {}; cur = None
    name_of_file = os.path.basename(path)
    for n in tree.get('inner', []):
        if n.get('kind') != 'FunctionDecl': continue
        l = n.get('loc', {}); l = l.get('expansionLoc', l)
        body = [c for c in n.get('inner', []) if c.get('kind') == 'CompoundStmt']
        if not body: continue
        if 'includedFrom' in l: continue
        params = [c['type']['qualType'] for c in n.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        funcs[n['name']] = dict(ret=n['type']['qualType'].split('(')[0].strip(), params=params, static=n.get('storageClass') == 'static',
                                calls=sorted({strip(c['inner'][0]).get('referencedDecl', {}).get('name', '?') for c in walk(n) if c.get('kind') == 'CallExpr'}))
        for i, lp in enumerate(loops_of(n, src)):
            if not lp.ok: continue
            name = 'vloop_%s_%d' % (n['name'], i)
            args = ''.join(', &%s' % v for v, t, k in lp.carried if k != 'array') + ''.join(', (void*)%s' % v for v, t, k in lp.written if k in ('array', 'charptr', 'ptr', 'flist', 'clist'))
            call = '%s(&V_it_%d%s)' % (name, i, args)
            b, e = lp.range
            if lp.kind == 'WhileStmt':
                c = rng(lp.cond); ins += [(c[0], call + ', ('), (c[1], ')')]
            elif lp.kind == 'ForStmt':
                if lp.cond.get('kind'):
                    c = rng(lp.cond); ins += [(c[0], call + ', ('), (c[1], ')')]
                else:
                    p = src.index('(', b); d = 0
                    while True:
                        p += 1
                        if src[p] in '([{': d += 1
                        elif src[p] in ')]}': d -= 1
                        elif src[p] == ';' and d == 0: break
                    ins.append((p + 1, call + ', 1'))
            else:
                r = rng(lp.body); ins += [(r[0], '{ ' + call + '; '), (r[1], ' }')]
            ins += [(b, '{ int V_it_%d = 0; ' % i), (lp.end, ' }')]
            loops.append(dict(name=name, func=n['name'], file=name_of_file, opaque=lp.opaque, passes=lp.passes, through=lp.through, index=i, depth=lp.depth, line=src.count('\n', 0, b) + 1,
                              carried=lp.carried, written=[w for w in lp.written if w[2] in ('array', 'charptr', 'ptr', 'flist', 'clist')]))
    # stable application; at equal offsets closing pieces come before opening ones
    order = sorted(range(len(ins)), key=lambda j: (ins[j][0], 0 if ins[j][1].strip() in (')', '}') else 1, j if ins[j][1].startswith('vloop') else (0 if ins[j][1].startswith('{ int') else j)))
    out = []; last = 0; back = []
    for j in order:
        o, t = ins[j]
        out += [src[last:o], t]; back.append(src[last:o]); last = o
    out.append(src[last:]); back.append(src[last:])
    assert ''.join(back) == src, 'instrumentation changed the source'
    text = ''.join(out)
    return text, loops, funcs, src

def prototypes(loops):
    """declarations to prepend (after the includes; types must be known) are emitted as implicit variadic-free prototypes"""
    s = ''
    for l in loops:
        s += 'void %s(int*%s);\n' % (l['name'], ''.join(', %s' % ptr_to(t) for v, t, k in l['carried'] if k != 'array') + ''.join(', void*' for _ in l['written']))
    return s

def ptr_to(t):
    return t + ('*' if t.endswith('*') else ' *')

if __name__ == '__main__':
    import sys
    root = sys.argv[1]
    for f in sys.argv[2:]:
        t, loops, funcs, src = instrument(f, ['-I', root + '/include', '-I', root + '/src'], 'x')
        for l in loops: print(l)
        print(list(funcs))
