"""Generates loops.h: the call-backs at the loop heads of the instrumented source.

A loop that is not cut gets a call-back that does nothing (the verifier unwinds it).  A loop that is cut is verified by
an invariant, for any number of iterations t:
   first visit   assert the invariant for t = 0, then forget everything the loop changes (havoc), assume it for some t
   second visit  assert it for t + 1, stop
The invariant is the conjunction of the candidates below that survive (Houdini): the runner starts with all of them and
drops the ones the verifier refutes until the rest is inductive.  They speak about the shape "value at entry plus a
multiple of t" and about the bounds and abstract positions the unit offers, not about particular variable names.
"""
import re
INT_FORMS = [('P1', '(%s + t)'), ('P2', '(%s + 2 * t)'), ('M1', '(%s - t)'), ('EQ', '(%s)')]
WR = [(1, 0), (1, 1), (2, 0), (2, 2), (2, 4)]

def decl(t, name):
    t = t.strip()
    return '%s%s%s' % (t, '' if t.endswith('*') else ' ', name)

def unconst(t):
    # type of a variable that can be assigned
    return re.sub(r'\*\s*const\b', '*', t) if '*' in t else re.sub(r'\bconst\b', '', t).strip()

def gen(loops, cut, disabled, nb=6):
    o = ['/* generated by loopgen.py */']
    for l in loops:
        car = [(v, unconst(t), k) for v, t, k in l['carried'] if k != 'array']
        wr = l['written']
        n = l['name']
        params = 'int *it' + ''.join(', %s' % decl(t + ' *' if not t.endswith('*') else t + '*', 'x%d' % i) for i, (v, t, k) in enumerate(car)) + ''.join(', void *w%d' % i for i in range(len(wr)))
        if n not in cut:
            o.append('void %s(%s) {}' % (n, params)); continue
        on = lambda c: ('%s:%s' % (n, c)) not in disabled
        o.append('/* %s (%s:%d) carried %s written %s */' % (l['func'], l['file'], l['line'], [c[0] for c in car], [w[0] for w in wr]))
        for i, (v, t, k) in enumerate(car):
            o.append('static %s;' % decl(t, '%s_e%d' % (n, i)))
        o.append('static long %s_t;' % n)
        o.append('void %s(%s)\n{\n  long t;' % (n, params))
        bnd = [j for j in range(nb) if on('B%d' % j)]
        def cands(assertp, tt, phase):
            s = []
            emit = lambda c, cond: s.append('    __CPROVER_assert(%s, "cand:%s:%s:%s");' % (cond, n, c, phase) if assertp else '    ASSUME(%s);' % cond)
            if on('C0'): emit('C0', 'V_CAND0(%s)' % n)
            for j in bnd: emit('B%d' % j, 'VB[%d] >= 0 && %s <= VB[%d]' % (j, tt, j))
            for i, (v, t, k) in enumerate(car):
                e = '%s_e%d' % (n, i)
                if k == 'int':
                    for f, x in INT_FORMS:
                        if on('%d%s' % (i, f)): emit('%d%s' % (i, f), '(long) *x%d == (long) %s' % (i, x.replace('t)', tt + ')') % ('(long) ' + e)))
                    if on('%dG' % i): emit('%dG' % i, 'V_INT_GHOST(%s, %d, (long) *x%d)' % (n, i, i))
                    for g, mac in zip('HIJKL', '23456'):
                        if on('%d%s' % (i, g)): emit('%d%s' % (i, g), 'V_INT_GHOST%s(%s, %d, (long) *x%d)' % (mac, n, i, i))
                elif k == 'charptr':
                    for f, x in INT_FORMS:
                        if on('%d%s' % (i, f)): emit('%d%s' % (i, f), '*x%d == %s' % (i, x.replace('t)', tt + ')') % e))
                elif k == 'ptr':
                    if on('%dG' % i): emit('%dG' % i, 'V_PTR_GHOST(%s, %d, (void *) *x%d)' % (n, i, i))
                    if on('%dEQ' % i): emit('%dEQ' % i, '*x%d == %s' % (i, e))
                elif k in ('flink', 'clink'):
                    # a pointer to the link that leads to node t (at entry: a variable of the function's own, or the head's link)
                    K = 'F' if k == 'flink' else 'C'
                    for f, c in (('K0', '*x%d == &V_%sNODE(%s)->next' % (i, K, tt)), ('K1', '*x%d == (%s == 0 ? %s : &V_%sNODE(%s - 1)->next)' % (i, tt, e, K, tt))):
                        if on('%d%s' % (i, f)): emit('%d%s' % (i, f), c)
                elif k in ('flist', 'clist'):
                    K = 'F' if k == 'flist' else 'C'
                    for f, x in (('N0', 'V_%sNODE(V_%sIDX(%s) + %s)'), ('N1', '(%s == 0 ? %s : V_%sNODE(V_%sIDX0() + %s - 1))'), ('EQ', '%s')):
                        if not on('%d%s' % (i, f)): continue
                        if f == 'N0': c = 'V_%sIDX(%s) >= 0 && *x%d == V_%sNODE(V_%sIDX(%s) + %s)' % (K, e, i, K, K, e, tt)
                        elif f == 'N1': c = '*x%d == (%s == 0 ? %s : V_%sNODE(%s - 1))' % (i, tt, e, K, tt)
                        else: c = '*x%d == %s' % (i, e)
                        emit('%d%s' % (i, f), c)
                    if on('%dFD' % i): emit('%dFD' % i, 'V_NODE_GHOST(%s, %d, (void *) *x%d)' % (n, i, i))
            blocks = [('w%d' % i, 'w%d' % i) for i, (v, t, k) in enumerate(wr) if k in ('charptr', 'array')] + [('v%d' % i, '%s_e%d' % (n, i)) for i in l['through']]
            for key, p in blocks:
                for c, d in WR:
                    if on('%sW%d%d' % (key, c, d)): emit('%sW%d%d' % (key, c, d), 'V_WATCH(%s, %d * %s + %d)' % (p, c, tt, d))
                    if on('%sZ%d%d' % (key, c, d)): emit('%sZ%d%d' % (key, c, d), 'V_WATCHZ(%s, %d * %s + %d)' % (p, c, tt, d))
            return s
        o.append('  if (*it == 0)\n  {')
        for i, (v, t, k) in enumerate(car): o.append('    %s_e%d = *x%d;' % (n, i, i))
        o.append('    t = 0; V_T = 0;')
        o.append('    V_HOOK_ENTER(%s);' % n)
        o += cands(True, '0L', 'entry')
        o.append('    t = nondet_long(); ASSUME(0 <= t && t <= 0x7fffffffL); %s_t = t; V_T = t;' % n)
        o.append('    V_HOOK_PRE(%s, t);' % n)
        # havoc
        for i, (v, ty, k) in enumerate(car):
            e = '%s_e%d' % (n, i)
            if k == 'int': o.append('    { %s; *x%d = h; }' % (decl(ty, 'h'), i))
            elif k == 'charptr':
                f = [x for f, x in INT_FORMS if on('%d%s' % (i, f))]
                o.append('    *x%d = %s;' % (i, f[0] % e if f else '(void *) nondet_ptr()'))
            elif k in ('flink', 'clink'):
                K = 'F' if k == 'flink' else 'C'
                if on('%dK0' % i): o.append('    *x%d = &V_%sNODE(t)->next;' % (i, K))
                elif on('%dK1' % i): o.append('    *x%d = t == 0 ? %s : &V_%sNODE(t - 1)->next;' % (i, e, K))
                else: o.append('    *x%d = nondet_ptr();' % i)
            elif k in ('flist', 'clist'):
                K = 'F' if k == 'flist' else 'C'
                if on('%dN0' % i): o.append('    if (V_%sIDX(%s) >= 0) *x%d = V_%sNODE(V_%sIDX(%s) + t); else ASSUME(0);' % (K, e, i, K, K, e))
                elif on('%dN1' % i): o.append('    *x%d = t == 0 ? %s : V_%sNODE(t - 1);' % (i, e, K))
                elif on('%dEQ' % i): pass
                elif on('%dFD' % i): o.append('    *x%d = V_NODE_GHOST_VALUE;' % i)
                else: o.append('    *x%d = nondet_ptr();' % i)
            elif k == 'ptr':
                if on('%dEQ' % i): pass
                elif on('%dG' % i): o.append('    *x%d = V_PTR_GHOST_VALUE;' % i)
                else: o.append('    *x%d = nondet_ptr();' % i)
            else: o.append('    { %s; *x%d = h; }' % (decl(ty, 'h'), i))
        for i, (v, ty, k) in enumerate(wr):
            if k in ('charptr', 'array'): o.append('    __CPROVER_havoc_object(w%d);' % i)
        for i in l['through']: o.append('    __CPROVER_havoc_object(%s_e%d);' % (n, i))
        o.append('    V_HOOK_HAVOC(%s, t);' % n)
        o += cands(False, 't', '')
        o.append('    *it = 1;\n  }\n  else if (*it == 1)\n  {\n    t = %s_t; V_T = t + 1;' % n)
        o += cands(True, '(t + 1)', 'step')
        o.append('    V_HOOK_STEP(%s, t + 1);' % n)
        if not bnd: o.append('    __CPROVER_assert(V_BOUNDED(%s), "term:%s: the iteration count is bounded");' % (n, n))
        o.append('    ASSUME(0);\n  }\n}')
    return '\n'.join(o) + '\n'
