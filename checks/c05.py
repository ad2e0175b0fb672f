"""C05: stored line text is returned unchanged.

Ghost state: the scratch file (its bytes, end, position, how much of it is past stdio's buffer, the kind of the last transfer).
  invariant        the believed offset is the file's position or -1; no seek is pending only if the position is the end of the file
  put_buffer_line  text is written at the end of the file only, so that no stored byte is ever overwritten; the line appended refers to
                   exactly the bytes of its text, which have left the output buffer (a later failed flush can no longer drop them);
                   a failure is reported and appends no line
  get_buffer_line  the bytes returned are those at the line's place, followed by a NUL; a failure is reported
  everything else  lines are made only by append_line_node, with an extent already stored; nothing else touches the file, the offset or
                   the flag, except opening and replacing the file, which leaves no line or undo entry referring to the old one
"""
from checks.listview import *

OFF, SOW, FP = 'ed.core.offset', 'ed.core.seek_on_write', 'ed.core.fp'
KEYS = ('ed_core.offset', 'ed_core.seek_on_write', 'ed_core.fp')
IntA = z3.ArraySort(IntS, IntS)
READ, WRITE = 1, 2
ASSUMPTIONS = [
    'stdio: a successful fwrite puts the bytes at the stream position; they reach the file at a successful fflush or fseek, and a failed one may drop whatever was '
    'pending; a short fwrite or a failed flush leaves position and end unknown, but never changes bytes already flushed; fread returns the bytes at the position, and a '
    'full count only if they exist; fseek, ftell as documented; the file is changed by nobody else',
    'the extents of all lines lie within what was flushed (established by append_line_node, the only writer of extents, for every line; kept since nothing flushed is overwritten)',
    'the child of a filter command reads through its own handle (its obligations cover the offset, not the fork)',
    'fewer than 2^62 bytes of text',
]
NORETURN = set()
REOPEN = 'reopen_ed_buffer'


def mentions(prog, f):
    """does the text of f (with helpers that are inlined) name the buffer file, its offset or the seek flag?"""
    todo, seen = [f], set()
    while todo:
        g = todo.pop()
        if g in seen or g not in prog.funcs:
            continue
        seen.add(g)
        st = [prog.funcs[g].body]
        while st:
            x = st.pop()
            if not x:
                continue
            if x.get('kind') == 'MemberExpr' and x.get('name') in ('fp', 'offset', 'seek_on_write') and \
                    'ed_core' in x['inner'][0].get('type', {}).get('qualType', ''):
                return True
            if x.get('kind') == 'DeclRefExpr' and x['referencedDecl']['name'] in prog.funcs and x['referencedDecl']['name'] not in BASE:
                todo.append(x['referencedDecl']['name'])
            st += x.get('inner', [])
    return False


def calls(prog, f, g):
    st = [prog.funcs[f].body]
    while st:
        x = st.pop()
        if x and x.get('kind') == 'DeclRefExpr' and x['referencedDecl']['name'] == g:
            return True
        st += (x or {}).get('inner', [])
    return False


def reaches(prog, f, g):
    todo, seen = [f], set()
    while todo:
        x = todo.pop()
        if x == g:
            return True
        if x in seen or x not in prog.funcs:
            continue
        seen.add(x)
        st = [prog.funcs[x].body]
        while st:
            y = st.pop()
            if y and y.get('kind') == 'DeclRefExpr' and y['referencedDecl']['name'] in prog.funcs:
                todo.append(y['referencedDecl']['name'])
            st += (y or {}).get('inner', [])
    return False


class FileView(BView):
    merge_limit = 8
    inv_timeout = 1000
    max_acc = 4

    def __init__(self, prog):
        super().__init__(prog)
        self.ghost_deps = {}
        C = {}
        g = lambda c: c.post_st.gh
        P = lambda c, p: tz(c.ex.path_read(c.post_st, p))
        r = lambda c: tz(c.ret)

        def inv_req(c):
            return self.inv(c.ex, c.pre_st)

        def put(c):
            t, n = tz(c.args[0].i()), tz(c.args[1].i())
            G = g(c)
            return self.inv(c.ex, c.post_st) + [
                ('the line was appended exactly if the text is reported stored', (r(c) != 0) == (G['made'] == 1)),
                ('at most one line is appended', G['made'] <= 1),
                ('the position after the text is returned', z3.Implies(r(c) != 0, r(c) == t + n)),
                ('the current line is the new one', P(c, 'ed.state.dot') == tz(c.ex.path_read(c.pre_st, 'ed.state.dot')) + z3.If(r(c) != 0, 1, 0))]
        self.C0 = C

        def get(c):
            ex, st = c.ex, c.post_st
            lp = tz(c.args[0].i())
            L, K = St(ex, c.pre_st).a(LEN)[lp], St(ex, c.pre_st).a(SEEK)[lp]
            m = ex.mem(st, '*8').z()
            k = fresh('k')
            head = tz(ex.path_read(c.pre_st, 'ed.core.line_head'))
            return self.inv(ex, st) + [
                ('the bytes returned are those stored', z3.Implies(z3.And(r(c) != 0, lp != head, 0 <= k, k < L), m[r(c) + k] == c.pre_st.gh['FILE'][K + k])),
                ('the text ends with a NUL', z3.Implies(r(c) != 0, m[r(c) + z3.If(lp == head, 0, L)] == 0)),
                ('stored text is not changed', z3.And(
                    c.pre_st.gh['dur'] <= g(c)['dur'], z3.Implies(k < c.pre_st.gh['dur'], g(c)['FILE'][k] == c.pre_st.gh['FILE'][k])))]

        def aln(c):
            ln, off = tz(c.args[0].i()), tz(c.args[1].i())
            if c.mode == 'call':
                st = c.post_st
                st.gh['made'] = st.gh['made'] + z3.If(r(c) != 0, 1, 0)
                return [('status', r(c) >= 0)] + [('extents', f) for f in self.extents(c.ex, c.post_st)]
            s = St(c.ex, c.post_st)
            s0 = St(c.ex, c.pre_st)
            x = fresh('x')
            return [('the line refers to the text given', z3.Implies(r(c) != 0, z3.And(s.a(LEN)[r(c)] == ln, s.a(SEEK)[r(c)] == off))),
                    ('no other line refers to other text than before', z3.Or(x == r(c), z3.And(
                        s.a(LEN)[x] == s0.a(LEN)[x], s.a(SEEK)[x] == s0.a(SEEK)[x])))]

        def aln_req(c):
            ex, st = c.ex, c.pre_st
            ln, off = tz(c.args[0].i()), tz(c.args[1].i())
            out = [('a line refers to stored text', z3.And(0 <= ln, 0 <= off, off + ln <= st.gh['dur']))]
            if c.mode == 'call' and ex.cur == 'put_buffer_line':
                t, n = [z3.Int('arg:%s' % p['name']) for p in ex.prog.funcs['put_buffer_line'].params[:2]]
                m0 = ex.mem(ex.pre, '*8').z()
                k = fresh('k')
                out += [('the line refers to all of its text but the newline', ln == n - 1),
                        ('the bytes stored are those of the text', z3.Implies(z3.And(0 <= k, k < n - 1), st.gh['FILE'][off + k] == m0[t + k]))]
            return out
        C['put_buffer_line'] = Contract('put_buffer_line', requires=lambda c: inv_req(c) + ([('the text ends with a newline', tz(c.args[1].i()) >= 1)]), ensures=put)
        C['get_buffer_line'] = Contract('get_buffer_line', requires=inv_req, ensures=get)
        C['append_line_node'] = Contract('append_line_node', requires=aln_req, ensures=aln)
        self.contracts = {k: v for k, v in C.items() if k in prog.funcs}
        self.inlines |= {'close_ed_buffer'}
        for f in ('reopen_ed_buffer', 'init_core_buffer'):
            if f in prog.funcs:
                self.contracts[f] = Contract(f, requires=lambda c, f=f: self.replace_req(c, f), ensures=lambda c, f=f: self.replaced(c, f))
        self.callers = {f for f in prog.funcs if f in BASE and calls(prog, f, 'reopen_ed_buffer')}
        self.touch = {f for f in prog.funcs if mentions(prog, f) and f not in ('put_buffer_line', 'get_buffer_line', 'close_ed_buffer')}

    def replace_req(self, c, fname):
        if fname == 'init_core_buffer':
            P = lambda p: tz(c.ex.path_read(c.pre_st, p))
            return [('offset and flag are clear (calloc)', z3.And(P(OFF) == 0, P(SOW) == 0, P(FP) == 0))]
        if c.mode != 'call':
            return []
        return [('no line refers to the file replaced', tz(c.ex.path_read(c.pre_st, LINES)) == 0),
                ('no undo entry refers to the file replaced', c.pre_st.gh['noundo'])]

    def replaced(self, c, fname):
        """after the file was replaced, or not"""
        ex, st = c.ex, c.post_st
        G = st.gh
        if fname == 'init_core_buffer' and c.mode != 'call':
            ok = tz(c.ret) >= 0
            P = lambda p: tz(ex.path_read(st, p))
            return [('the buffer file is open, at its start', z3.Implies(ok, z3.And(P(FP) == G['newfp'], P(FP) != 0, P(OFF) == 0, P(SOW) == 0)))]
        if c.mode == 'call':
            self.any(ex, st)
            return self.inv(ex, st)
        new = z3.And(G['newfp'] != 0, tz(ex.path_read(st, FP)) == G['newfp'])
        for k, v in (('pos', 0), ('eof', 0), ('dur', 0), ('op', 0), ('fp', G['newfp'])):
            G[k] = z3.If(new, z3.IntVal(v) if isinstance(v, int) else v, G[k])
        return self.inv(ex, st)

    def any(self, ex, st):
        for k in ('pos', 'eof', 'dur', 'op', 'fp'):
            st.gh[k] = fresh(k)
        st.gh['FILE'] = z3.Const('FILE!%d' % next(self.cnt), IntA)

    def after_auto(self, ex, name, args, pre, st, n):
        ks = {k for k, p in ex.ms.of_func(name)}
        if set(KEYS) & ks and name != 'create_disk_buffer':
            self.any(ex, st)
            for nm, f in self.inv(ex, st):
                st.assume(f)
            st.gh['noundo'] = z3.BoolVal(False)
        if name == 'reset_undo_queue':
            st.gh['noundo'] = z3.BoolVal(True)
        elif UF in ks:
            st.gh['noundo'] = z3.BoolVal(False)

    def inv(self, ex, st):
        P = lambda p: tz(ex.path_read(st, p))
        G = st.gh
        return [('the believed offset is the position of the buffer file', z3.Or(P(OFF) == -1, z3.And(P(OFF) >= 0, P(OFF) == G['pos']))),
                ('without a pending seek the buffer file is at its end', z3.Or(P(SOW) != 0, z3.And(P(OFF) == G['eof'], G['pos'] == G['eof'], G['op'] != READ))),
                ('the buffer file is the one open', P(FP) == G['fp']),
                ('what was stored is flushed', z3.And(0 <= G['dur'], G['dur'] <= G['eof'], G['eof'] < 1 << 62, G['op'] != WRITE))]

    def init_state(self, ex, st):
        super().init_state(ex, st)
        st.gh['FILE'] = z3.Const('FILE', IntA)
        for k in ('pos', 'eof', 'dur', 'op', 'fp'):
            st.gh[k] = z3.Int('g:' + k)
        st.gh['made'] = z3.IntVal(0)
        st.gh['newfp'] = z3.IntVal(0)
        for k in ('nolines', 'noundo'):
            st.gh[k] = z3.BoolVal(False)
        for nm, f in self.inv(ex, st):
            st.assume(f)
        st.assume(st.gh['fp'] >= 0)
        st.assume(tz(ex.path_read(st, LINES)) >= 0)
        for f in self.extents(ex, st):
            st.assume(f)

    def extents(self, ex, st):
        s = St(ex, st)
        q = z3.Int('q')
        body = z3.And(s.a(SEEK)[q] >= 0, s.a(LEN)[q] >= 0, s.a(SEEK)[q] + s.a(LEN)[q] <= st.gh['dur'])
        return [FA([q], body, [s.a(SEEK)[q]]), FA([q], body, [s.a(LEN)[q]])]

    def loop_cands(self, ex, entry, head, locs, keys, n):
        if {LEN, SEEK} & {k if isinstance(k, str) else k[0] for k in keys}:
            return [('extents', lambda s: z3.And(*self.extents(ex, s)))]
        return []

    # ---- stdio
    def lost(self, ex, st, pending=False):
        """a failed transfer (if `pending`: of what an earlier one left): position, end and everything not yet flushed are unknown"""
        G = st.gh
        was = dict(G)
        N = z3.Const('FILE!%d' % next(self.cnt), IntA)
        q = z3.Int('q')
        st.assume(FA([q], z3.Implies(q < G['dur'], N[q] == G['FILE'][q]), [N[q]]))
        G['FILE'] = N
        e = fresh('eof')
        st.assume(z3.And(e >= G['dur'], e < 1 << 62))
        p = fresh('pos')
        st.assume(p >= 0)
        G['eof'], G['pos'], G['op'] = e, p, z3.IntVal(0)
        if pending:
            w = was['op'] == WRITE
            for k in ('FILE', 'eof', 'pos', 'op'):
                G[k] = z3.If(w, G[k], was[k])

    import itertools
    cnt = itertools.count()

    def mine(self, ex, st, fp, n):
        ex.oblige(st, 'the buffer file is accessed through its open handle', fp == st.gh['fp'], n_line(n))

    def on_call(self, ex, name, args, st, n):
        G = st.gh
        INT = ('int', 32, True)
        SZ = ('int', 64, False)
        if ex.cur in self.touch and name in BASE and name in ex.prog.funcs and name not in self.contracts and name != 'create_disk_buffer' and \
                set(KEYS) & {k for k, p in ex.ms.of_func(name)}:
            for nm, f in self.inv(ex, st):
                if nm.startswith('without a pending seek') and not reaches(ex.prog, name, 'put_buffer_line'):
                    continue        # it only reads
                ex.oblige(st, '%s (before %s)' % (nm, name), f, n_line(n))
        if ex.cur in ('put_buffer_line', 'get_buffer_line') or ex.cur in self.touch:
            if name in ('fwrite', 'fwrite_unlocked'):
                t, sz, c, fp = [tz(a.i()) for a in args[:4]]
                tot = z3.simplify(sz * c)
                f = st.copy()
                self.mine(ex, st, fp, n)
                ex.oblige(st, 'stored text is not overwritten: writes go to the end', z3.And(G['pos'] == G['eof'], G['op'] != READ), n_line(n))
                m = ex.mem(st, '*8').z()
                NF = z3.Const('FILE!%d' % next(self.cnt), IntA)
                q = z3.Int('q')
                p0 = G['pos']
                st.assume(z3.And(tot >= 0, p0 + tot < 1 << 62))
                st.assume(FA([q], NF[q] == z3.If(z3.And(p0 <= q, q < p0 + tot), m[t + (q - p0)], G['FILE'][q]), [NF[q]]))
                G['FILE'] = NF
                G['pos'] = p0 + tot
                G['eof'] = z3.If(G['eof'] < p0 + tot, p0 + tot, G['eof'])
                G['op'] = z3.IntVal(WRITE)
                self.lost(ex, f)
                k = fresh('short')
                f.assume(z3.And(0 <= k, k < c))
                return [(Val(c, SZ), st), (Val(k, SZ), f)]
            if name in ('fread', 'fread_unlocked'):
                t, sz, c, fp = [tz(a.i()) for a in args[:4]]
                tot = z3.simplify(sz * c)
                self.mine(ex, st, fp, n)
                ex.oblige(st, 'a read does not follow a write directly', z3.Or(tot == 0, G['op'] != WRITE), n_line(n))
                f = st.copy()
                for s, ok in ((st, 1), (f, 0)):
                    g = s.gh
                    m = ex.mem(s, '*8').z()
                    ex.havoc_keys(s, {('*8', None)})
                    m2 = ex.mem(s, '*8').z()
                    q = z3.Int('q')
                    p0 = g['pos']
                    s.assume(FA([q], z3.Implies(z3.Or(q < t, q >= t + tot), m2[q] == m[q]), [m2[q]]))
                    if ok:
                        s.assume(z3.And(tot >= 0, p0 + tot <= g['eof']))
                        s.assume(FA([q], z3.Implies(z3.And(t <= q, q < t + tot), m2[q] == g['FILE'][p0 + (q - t)]), [m2[q]]))
                        g['pos'] = p0 + tot
                    else:
                        g['pos'] = fresh('pos')
                        s.assume(g['pos'] >= 0)
                    g['op'] = z3.If(tot == 0, g['op'], z3.IntVal(READ))
                k = fresh('short')
                f.assume(z3.And(0 <= k, k < c))
                return [(Val(c, SZ), st), (Val(k, SZ), f)]
            if name in ('fseek', 'fseeko', 'fseeko64'):
                fp, o, w = [tz(a.i()) for a in args[:3]]
                self.mine(ex, st, fp, n)
                f = st.copy()
                self.lost(ex, f, True)
                p = fresh('pos')
                G['dur'] = G['eof']
                st.assume(z3.And(p >= 0, z3.Implies(w == 0, p == o), z3.Implies(w == 2, p == G['eof'] + o), z3.Implies(w == 1, p == G['pos'] + o)))
                G['pos'], G['op'] = p, z3.IntVal(0)
                return [(Val(0, INT), st), (Val(-1, INT), f)]
            if name in ('ftell', 'ftello', 'ftello64'):
                self.mine(ex, st, tz(args[0].i()), n)
                f = st.copy()
                return [(Val(G['pos'], ('int', 64, True)), st), (Val(-1, ('int', 64, True)), f)]
            if name in ('rewind', 'ftruncate', 'ftruncate64', 'freopen', 'putc', 'fputc', 'fputs', 'ungetc', 'getc', 'fgetc', 'clearerr') and ex.cur != 'filter_lines':
                ex.oblige(st, 'the buffer file is accessed only by the operations under contract (%s)' % name,
                          tz(args[-1 if name != 'ungetc' and name[0] in 'pf' and name != 'ftruncate' else 0].i()) != G['fp'], n_line(n))
            if name == 'fflush':
                fp = tz(args[0].i())
                f = st.copy()
                hit = z3.Or(fp == G['fp'], fp == 0)
                G['dur'] = z3.If(hit, G['eof'], G['dur'])
                G['op'] = z3.If(z3.And(hit, G['op'] == WRITE), z3.IntVal(0), G['op'])
                self.lost(ex, f, True)
                return [(Val(0, INT), st), (Val(-1, INT), f)]
            if name == 'fclose' and ex.cur not in ('filter_lines',):
                f = st.copy()
                for s in (st, f):
                    hit = tz(args[0].i()) == s.gh['fp']
                    s.gh['fp'] = z3.If(hit, 0, s.gh['fp'])
                return [(Val(0, INT), st), (Val(-1, INT), f)]
            if name in ('fopen', 'fopen64') and ex.cur == 'filter_lines':
                f = st.copy()
                fp = fresh('fp')
                st.assume(z3.And(fp > 0, fp != G['fp']))
                # the child's own handle on the same bytes, at their start
                ex.oblige(st, 'the child reads what was stored: nothing is pending', G['dur'] == G['eof'], n_line(n))
                G['fp'], G['pos'], G['op'] = fp, z3.IntVal(0), z3.IntVal(0)
                FT = ('ptr', ('rec', '_IO_FILE'))
                return [(Val(fp, FT), st), (Val(0, FT), f)]
            if name == 'create_disk_buffer':
                r = ex.auto_call(name, args, st, n, n['inner'][1:], INT)
                out = []
                for v, s in r:
                    f = s.copy()
                    t = tz(v.i())
                    s.assume(t == 0)
                    f.assume(t < 0)
                    new = tz(ex.load(s, LV('mem', args[0].prov[0], args[0].prov[1], args[0].ty[1])).i())
                    s.assume(z3.And(new > 0, new != s.gh['fp']))
                    s.gh['newfp'] = new
                    out += [(v, s), (v, f)]
                return out
        if name == 'delete_lines' and ex.cur in self.callers:
            out = []
            for v, s in ex.auto_call(name, args, st, n, n['inner'][1:], INT):
                # proved under C01: the addressed lines, and no others, leave the buffer
                N0 = tz(ex.path_read(st, LINES))
                a, b = tz(args[0].i()), tz(args[1].i())
                s.assume(z3.Implies(tz(v.i()) >= 0, tz(ex.path_read(s, LINES)) == N0 - (b - a + 1)))
                out.append((v, s))
            return out
        return None


def frame(prog):
    from modset import ModSets
    ms = ModSets(prog)
    obl = []
    for f in sorted(prog.funcs):
        if f not in BASE:
            continue
        own = ms.own(f, BASE)
        obl.append(dict(func=f, name='the extent of a line is written only when the line is made', line=0, kind='frame', time=0.0, backend='syntactic',
                        status='discharged' if f == 'append_line_node' or not own & {LEN, SEEK} else 'refuted', trace=[]))
    return dict(obligations=obl, vacuity='sat', nret=1)


def tasks(prog):
    from run import Task, PyTask
    v = FileView(prog)
    fs = ['put_buffer_line', 'get_buffer_line', 'append_line_node', 'copy_lines'] + sorted((v.touch | v.callers) & set(BASE) - {'create_disk_buffer'})
    NORETURN.update(f for f in fs if f in ('quit',))
    return [Task(v, f, 150) for f in fs if f in prog.funcs] + [PyTask('extents', lambda: frame(prog), 30)]
