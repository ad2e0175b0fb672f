"""C07: reading inserts exactly the bytes of the input as lines.

Ghost state: the input as a sequence of bytes IN with the number already taken, the texts got and put.
  get_stream_line  takes input up to and including the next newline, and nothing more; the text returned is exactly what was taken, with one
                   newline (added if the input ended without); NULL only at the end with nothing taken, or with an error; interrupted
                   reads lose and repeat nothing; a NUL byte marks the input as binary; a missing final newline is remembered
  realloc_buffer   keeps the contents when it enlarges
  read_stream, read_stream_r   every text got is put once, in order, after the addressed line; success only at the end of the input;
                   *size is the number of bytes; the flags for binary text and missing newline are those of the input
  the text queue of read_stream_r   first in, first out, each text with its length
  read_file, read_pipe, append_from_register   the stream read is the named file, command output or register from its start
  r_cmd, E_cmd     the addressed line and the number reported
"""
from checks.listview import *

H = 'ed.file.handle'
ST = 'ed.state.'
INT = ('int', 32, True)
CH = ('ptr', ('int', 8, True))
FT = ('ptr', ('rec', '_IO_FILE'))
ASSUMPTIONS = [
    'getc and get_des_char (C15) return the next byte of the input, or EOF and set the end-of-file or error flag; the end-of-file flag can be set ahead of the last bytes only while decrypting; get_des_char writes its own block of bytes only',
    'character stores through a pointer reach only the text that pointer was derived from; an allocation overlaps no live text',
    'put_buffer_line stores the text given after the current line and advances it (proved under C05 and C01)',
    'the input has fewer than 2^62 bytes',
    'a text that ends at the end of the input without newline is the last one',
]
NORETURN = set()


def sgn(t):
    return z3.If(t < 128, t, t - 256)


class InView(BView):
    merge_limit = 8
    inv_timeout = 1500
    max_acc = 6
    or_zero = True

    def __init__(self, prog):
        super().__init__(prog)
        C = {}
        self.ghost_deps = {}
        self.is_key = 'have_key' in str(prog.types.layout('ed_execute')[0])
        r = lambda c: tz(c.ret)
        g = lambda c: c.post_st.gh
        P = lambda c, p, pre=False: tz(c.ex.path_read(c.pre_st if pre else c.post_st, p))

        def gsl(c):
            ex, st = c.ex, c.post_st
            if c.mode == 'call':
                return []
            G = g(c)
            ln = self.cell(ex, st, c.args[1])
            m = ex.mem(st, '*8').z()
            std = tz(c.args[0].i()) == self.std(ex, c.pre_st)
            k = fresh('k')
            got = r(c) != 0
            nlc = G['nl'] == 1
            # taken = what was consumed by this call
            txt = G['taken'] - z3.If(nlc, 1, 0)
            nm0, nm1 = P(c, ST + 'newline_missing', True), P(c, ST + 'newline_missing')
            b0, b1 = P(c, ST + 'input_is_binary', True), P(c, ST + 'input_is_binary')
            return [('input is taken up to the first newline only', z3.And(0 <= G['nl'], G['nl'] <= 1, z3.Implies(nlc, G['last'] == 10))),
                    ('a text ends at a newline or at the end of the input', z3.Implies(got, z3.Or(nlc, z3.And(G['eof'], txt > 0)))),
                    ('the text is what was taken', z3.Implies(z3.And(got, 0 <= k, k < txt), m[r(c) + k] == sgn(G['IN'][k]))),
                    ('the length is that of the text with its newline', z3.Implies(got, ln == txt + z3.If(z3.And(std, z3.Not(nlc)), 0, 1))),
                    ('the text ends with a newline', z3.Implies(z3.And(got, z3.Or(z3.Not(std), nlc)), m[r(c) + txt] == 10)),
                    ('a NUL follows the text', z3.Implies(got, m[r(c) + ln] == 0)),
                    ('nothing taken is dropped silently', z3.Implies(z3.Not(got), z3.Or(G['taken'] == 0, G['err'], G['nomem']))),
                    ('no text is made up at the end of the input', z3.Implies(z3.And(z3.Not(got), z3.Not(G['err']), z3.Not(G['nomem'])), G['eof'])),
                    ('a missing final newline is remembered', z3.Implies(z3.And(got, z3.Not(std)), (nm1 != 0) == z3.Not(nlc))),
                    ('the memory of a missing newline is kept otherwise', z3.Implies(z3.Or(z3.Not(got), std), nm1 == nm0)),
                    ('text with a NUL byte marks the input as binary', z3.Or(G['nomem'], (b1 != 0) == z3.Or(b0 != 0, G['nul'])))]
        C['get_stream_line'] = Contract('get_stream_line', ensures=gsl, requires=lambda c: [])

        def rb(c):
            """realloc_buffer (&b, &n, i, ed)"""
            ex = c.ex
            b0, n0 = self.cell(ex, c.pre_st, c.args[0]), self.cell(ex, c.pre_st, c.args[1])
            b1, n1 = self.cell(ex, c.post_st, c.args[0]), self.cell(ex, c.post_st, c.args[1])
            i = tz(c.args[2].i())
            m0, m1 = ex.mem(c.pre_st, '*8').z(), ex.mem(c.post_st, '*8').z()
            k = fresh('k')
            body = lambda k: z3.Implies(z3.And(0 <= k, k < n0), m1[b1 + k] == m0[b0 + k])
            if c.mode == 'call':
                q = z3.Int('q')
                c.post_st.gh['nomem'] = z3.If(r(c) == 0, z3.BoolVal(True), g(c)['nomem'])
                return [('ghost', z3.Implies(r(c) != 0, z3.And(r(c) == b1, n1 > i, n1 >= n0, b1 > 0))),
                        ('ghost', z3.Implies(r(c) == 0, z3.And(b1 == b0, n1 == n0))),
                        ('ghost', FA([q], z3.Implies(z3.And(b1 <= q, q < b1 + n0), m1[q] == m0[b0 + (q - b1)]), [m1[q]]))]
            return [('the buffer holds what is needed', z3.Implies(r(c) != 0, z3.And(r(c) == b1, n1 > i, n1 >= n0))),
                    ('the buffer is kept if it cannot be enlarged', z3.Implies(r(c) == 0, z3.And(b1 == b0, n1 == n0))),
                    ('the contents are kept', body(k))]
        C['realloc_buffer'] = Contract('realloc_buffer', ensures=rb, requires=lambda c: [])

        def rs(c):
            ex, st = c.ex, c.post_st
            G = g(c)
            if c.mode == 'call':
                G['read'] = G['read'] + 1
                G['size'] = self.cell(ex, st, c.args[2])
                G['after'], G['rfp'] = tz(c.args[1].i()), tz(c.args[0].i())
                G['rok'] = r(c) >= 0
                return [('ghost', r(c) <= 0)]
            after = tz(c.args[1].i())
            size = self.cell(ex, st, c.args[2])
            ok = r(c) >= 0
            N0 = P(c, LINES, True)
            app = after == N0
            nm, na0, na1 = P(c, ST + 'newline_missing'), P(c, ST + 'newline_appended', True), P(c, ST + 'newline_appended')
            bin0, bin1 = P(c, ST + 'is_binary', True), P(c, ST + 'is_binary')
            s = G['gsum'] - z3.If(z3.And(bin1 != 0, app, na1 != 0), 1, 0)
            key = P(c, 'ed.exec.have_key') != 0 if self.is_key else z3.BoolVal(False)
            if ex.cur == 'read_stream':
                s = z3.If(z3.And(key, s != 0), s + 8 - s % 8, s)
            return [('all text read was put', z3.Implies(ok, z3.And(z3.Not(G['pend']), G['put'] == G['got']))),
                    ('success means the end of the input was reached', z3.Implies(ok, G['ended'])),
                    ('the size is the number of bytes read', z3.Implies(ok, size == s)),
                    ('the current line is the last one read', z3.Implies(ok, P(c, ST + 'dot') == after + G['got'])),
                    ('binary text is remembered', z3.Implies(ok, (bin1 != 0) == z3.Or(bin0 != 0, G['bin']))),
                    ('a missing newline at the end of the buffer is remembered', z3.Implies(ok, (na1 != 0) == z3.If(app, nm != 0, na0 != 0))),
                    ('a missing newline is that of the last text read', z3.Implies(ok, (nm != 0) == G['nm'])),
                    ('status', r(c) <= 0)]
        for f in ('read_stream', 'read_stream_r'):
            C[f] = Contract(f, ensures=rs, requires=self.rs_req)

        def rf(k):
            def ens(c):
                ex = c.ex
                G = g(c)
                addr, size = self.cell(ex, c.post_st, c.args[k + 1]), self.cell(ex, c.post_st, c.args[k + 2])
                ok = r(c) >= 0
                if c.mode == 'call':
                    G['size'], G['after'], G['read'] = size, tz(c.args[k].i()), z3.IntVal(1)
                    return [('ghost', r(c) <= 0)]
                wo = z3.BoolVal(False)
                if 'WRITE_ONLY' in self.enums and ex.cur == 'read_file':
                    wo = z3.And(ex.bit(c.pre_st, tz(ex.path_read(c.pre_st, 'ed.exec.opt')), self.enums['WRITE_ONLY'].bit_length() - 1), G['read'] == 0)
                return [('success means the input was read, once', z3.Implies(ok, z3.Or(wo, z3.And(G['read'] == 1, G['rok'])))),
                        ('the size reported is that read', z3.Implies(z3.And(ok, z3.Not(wo)), size == G['size'])),
                        ('the lines are put after the line given', z3.Implies(z3.And(ok, z3.Not(wo)), G['after'] == tz(c.args[k].i()))),
                        ('the number of lines is reported', z3.Implies(z3.And(ok, z3.Not(wo)), addr == P(c, ST + 'dot') - tz(c.args[k].i())))]
            return ens
        C['read_file'] = Contract('read_file', ensures=rf(1), requires=lambda c: self.rd_req(c, 1))
        C['read_pipe'] = Contract('read_pipe', ensures=rf(1), requires=lambda c: self.rd_req(c, 1))

        def afr(c):
            G = g(c)
            if c.mode == 'call':
                return []
            return [('success means the register was read, once', z3.Implies(r(c) >= 0, z3.Or(G['read'] == 1, z3.And(G['read'] == 0, self.register(c.ex, c.pre_st) == 0)))),
                    ('a register that was not read in full is an error', z3.Implies(z3.And(G['read'] == 1, z3.Not(G['rok'])), r(c) < 0))]
        C['append_from_register'] = Contract('append_from_register', ensures=afr, requires=lambda c: [])
        self.queue_contracts(C)
        self.contracts = {k: v for k, v in C.items() if k in prog.funcs}

    # ------------------------------------------------ the text queue
    track_alive = ('ed_text_node',)

    def wf(self, ex, st, th):
        """the deque th is exactly the sequence tn[h..t)"""
        G = st.gh
        a = lambda k: ex.mem(st, 'ed_text_node.' + k).z()
        f, b, tx, tl = a('q_forw'), a('q_back'), a('text'), a('text_i')
        al = ex.mem(st, '@alive:ed_text_node').z()
        h, t, n, ix = G['h'], G['t'], G['tn'], G['ti']
        i = i_
        return [('the queue has two ends', z3.And(h <= t, al[th] == 1)),
                ('the first is the first', f[th] == z3.If(h < t, n[h], th)),
                ('the last is the last', b[th] == z3.If(h < t, n[t - 1], th)),
                ('forward links', FA([i], z3.Implies(z3.And(h <= i, i < t), f[n[i]] == z3.If(i == t - 1, th, n[i + 1])), [n[i]])),
                ('backward links', FA([i], z3.Implies(z3.And(h <= i, i < t), b[n[i]] == z3.If(i == h, th, n[i - 1])), [n[i]])),
                ('the nodes are distinct', FA([i], z3.Implies(z3.And(h <= i, i < t), z3.And(ix[n[i]] == i, n[i] != th, n[i] > 0, al[n[i]] == 1)), [n[i]])),
                ('each node has its text', FA([i], z3.Implies(z3.And(h <= i, i < t), z3.And(tx[n[i]] == G['QT'][i], tl[n[i]] == G['QL'][i], G['QT'][i] > 0)), [n[i]]))]

    def queue_contracts(self, C):
        r = lambda c: tz(c.ret)

        def nonempty(c):
            return [] if c.mode == 'call' else self.wf(c.ex, c.pre_st, tz(c.args[0].i()))

        def app(c):
            G = c.post_st.gh
            th = tz(c.args[0].i())
            ok = r(c) != 0
            t = G['t']
            for k, v in (('tn', r(c)), ('QT', tz(c.args[1].i())), ('QL', tz(c.args[2].i()))):
                new = z3.Array("%s'" % k, IntS, IntS)
                c.post_st.assume(new == z3.If(ok, z3.Store(G[k], t, v), G[k]))
                G[k] = new
            new = z3.Array("ti'", IntS, IntS)
            c.post_st.assume(new == z3.If(ok, z3.Store(G['ti'], r(c), t), G['ti']))
            G['ti'] = new
            G['t'] = z3.If(ok, t + 1, t)
            return self.wf(c.ex, c.post_st, th)

        def app_req(c):
            return nonempty(c) + [('the text is not null', tz(c.args[1].i()) > 0)]

        def shift(c):
            ex, st = c.ex, c.post_st
            G, G0 = st.gh, c.pre_st.gh
            th = tz(c.args[0].i())
            h, t = G0['h'], G0['t']
            if c.mode == 'call':
                G['h'] = z3.If(G0['h'] < t, h + 1, h)
                ln = self.cell(ex, st, c.args[1])
                return [('ghost', z3.If(h < t, z3.And(r(c) == G['QT'][h], ln == G['QL'][h]), r(c) == 0))] + (
                    [('ghost', f) for nm, f in self.wf(ex, st, th)] if ex.cur == 'init_text_deque' else [])
            G['h'] = z3.If(h < t, h + 1, h)
            ln = self.cell(ex, st, c.args[1])
            return [('the first text is returned', z3.Implies(h < t, z3.And(r(c) == G['QT'][h], ln == G['QL'][h]))),
                    ('an empty queue returns nothing', z3.Implies(h == t, r(c) == 0))] + self.wf(ex, st, th)

        def init(c):
            ex, st = c.ex, c.post_st
            th = tz(c.args[0].i())
            f = ex.mem(st, 'ed_text_node.q_forw').z()
            b = ex.mem(st, 'ed_text_node.q_back').z()
            return [('the queue is empty', z3.And(f[th] == th, b[th] == th))]
        C['append_text_node'] = Contract('append_text_node', requires=app_req, ensures=app)
        C['shift_text_node'] = Contract('shift_text_node', requires=nonempty, ensures=shift)
        C['init_text_deque'] = Contract('init_text_deque', requires=lambda c: [], ensures=init)

    # ------------------------------------------------ helpers
    def cell(self, ex, st, v):
        return tz(ex.load(st, LV('mem', v.prov[0], v.prov[1], v.ty[1])).i())

    def std(self, ex, st):
        return tz(ex.rd(st, '@stdin', 0))

    def arg(self, ex, k):
        return z3.Int('arg:%s' % ex.prog.funcs[ex.cur].params[k].get('name'))

    def key(self, ex, st):
        return tz(ex.path_read(st, 'ed.exec.have_key')) != 0 if self.is_key else z3.BoolVal(False)

    def register(self, ex, st):
        """the handle of the register read from"""
        key, idx = ex.path_cell(st, 'ed.core.regbuf.fp'.split('.'))
        return tz(ex.rd(st, key + '[]', tz(idx) + 8 * tz(ex.path_read(st, 'ed.core.regbuf.read_idx'))))

    def lit(self, ex, s):
        return tz(ex.strs.setdefault('"%s"' % s, GLOBAL_BASE + (1 << 44) + len(ex.strs) * (1 << 16)))

    def on_alloc(self, ex, st, r, tag):
        if ex.cur == 'read_stream_r':
            st.assume(r != st.gh['tb'])

    def rs_req(self, c):
        if c.mode != 'call':
            return []
        ex, G = c.ex, c.pre_st.gh
        fp = tz(c.args[0].i())
        h = tz(ex.path_read(c.pre_st, H)) if ex.cur == 'read_file' else z3.IntVal(0)
        out = [('the input is read once', G['read'] == 0)] if ex.cur in ('read_file', 'read_pipe', 'append_from_register') else []
        if ex.cur == 'read_file':
            out.append(('the input is the file named, from its start', z3.Or(z3.And(G['opened'], fp == G['fp']), z3.And(fp == h, G['seekset']))))
        if ex.cur == 'read_pipe':
            out.append(('the input is the output of the command', z3.And(G['opened'], fp == G['fp'])))
        if ex.cur == 'append_from_register':
            out.append(('the input is the register, from its start', z3.And(fp == self.register(ex, ex.pre), G['seekset'])))
        return out

    def rd_req(self, c, k):
        if c.mode == 'call' and c.ex.cur in ('r_cmd',):
            P = lambda p: tz(c.ex.path_read(c.pre_st, p))
            return [('the input goes after the addressed line', tz(c.args[k].i()) == P('ed.exec.region.end'))]
        if c.mode == 'call' and c.ex.cur == 'E_cmd':
            return [('the file is read into an empty buffer', tz(c.args[k].i()) == 0)]
        return []

    def init_state(self, ex, st):
        super().init_state(ex, st)
        G = st.gh
        G['IN'] = z3.Array('IN', IntS, IntS)
        for k in ('taken', 'nl', 'got', 'put', 'gsum', 'tb', 'tlen', 'read', 'size', 'after', 'rfp', 'qn', 'qh', 'fp'):
            G[k] = z3.IntVal(0)
        G['last'] = z3.IntVal(-1)
        for k in ('eof', 'err', 'nul', 'nomem', 'pend', 'ended', 'bin', 'nm', 'rok', 'noreg', 'over', 'seekset', 'opened'):
            G[k] = z3.BoolVal(False)
        G['snap'] = ex.mem(st, '*8').z()
        G['h'], G['t'] = z3.Int('h'), z3.Int('t')
        G['tn'], G['ti'] = z3.Array('tn', IntS, IntS), z3.Array('ti', IntS, IntS)
        G['th'] = z3.IntVal(0)
        G['QT'], G['QL'] = z3.Array('QT', IntS, IntS), z3.Array('QL', IntS, IntS)
        st.assume(tz(ex.path_read(st, LINES)) >= 0)
        if ex.cur == 'get_stream_line':
            for k in self.statics(ex)[0]:       # a pointer, an unsigned size
                st.assume(tz(ex.rd(st, k, 0)) >= 0)

    # ------------------------------------------------ calls
    def on_call(self, ex, name, args, st, n):
        G = st.gh
        T, Fl = z3.BoolVal(True), z3.BoolVal(False)
        ln = n_line(n)
        if ex.cur == 'realloc_buffer' and name == 'realloc':
            f = st.copy()
            b, i = tz(args[0].i()), tz(args[1].i())
            nb = fresh('nb')
            st.assume(z3.And(nb > 0, i < 1 << 63))      # no object is larger
            m = ex.mem(st, '*8').z()
            ex.havoc_keys(st, {('*8', None)})
            m1 = ex.mem(st, '*8').z()
            q = z3.Int('q')
            st.assume(FA([q], z3.Implies(z3.And(nb <= q, q < nb + i), m1[q] == m[b + (q - nb)]), [m1[q]]))
            return [(Val(nb, ('ptr', VOID)), st), (Val(0, ('ptr', VOID)), f)]
        if ex.cur == 'get_stream_line':
            if name in ('getc', 'fgetc', '_IO_getc', 'getc_unlocked', 'get_des_char'):
                ex.oblige(st, 'the input is the stream given', tz(args[0].i()) == self.arg(ex, 0), ln)
                ex.oblige(st, 'no input is taken beyond the newline', G['nl'] == 0, ln)
                ex.oblige(st, 'input is decrypted exactly if a key is set and it is not the standard input',
                          z3.And(self.key(ex, st), self.arg(ex, 0) != self.std(ex, st)) == z3.BoolVal(name == 'get_des_char'), ln)
                if name == 'get_des_char':
                    m = st.heap.get('*8')
                    r = ex.auto_call(name, args, st, n, n['inner'][1:], INT)
                    st = r[0][1]
                    if m is not None:
                        st.heap['*8'] = m       # it writes its own block of bytes only
                    G = st.gh
                e1, e2 = st.copy(), st.copy()
                c = G['IN'][G['taken']]
                st.assume(z3.And(0 <= c, c <= 255, G['taken'] < 1 << 62))
                if name == 'get_des_char':
                    st.gh['eof'] = fresh_bool('eof')
                else:
                    st.assume(z3.Not(G['eof']))
                st.gh['taken'] = G['taken'] + 1
                st.gh['nl'] = G['nl'] + z3.If(c == 10, 1, 0)
                st.gh['nul'] = z3.Or(G['nul'], c == 0)
                st.gh['last'] = c
                e1.gh['eof'], e1.gh['last'] = T, z3.IntVal(-1)
                e2.gh['err'], e2.gh['last'] = T, z3.IntVal(-1)
                e2.assume(z3.Not(e2.gh['eof']))
                return [(Val(c, INT), st), (Val(-1, INT), e1), (Val(-1, INT), e2)]
            if name == 'feof':
                v = fresh('feof')
                st.assume((v != 0) == G['eof'])
                return [(Val(v, INT), st)]
            if name == 'ferror':
                v = fresh('ferror')
                st.assume((v != 0) == G['err'])
                return [(Val(v, INT), st)]
            if name == 'clearerr':
                G['err'] = Fl
                return [(Val(0, VOID), st)]
            if name == 'realloc_buffer' and 'realloc_buffer' not in self.contracts:
                return None
        if ex.cur in ('read_file', 'read_pipe', 'append_from_register'):
            if name in ('fopen', 'fopen64', 'popen'):
                f = st.copy()
                fp = fresh('fp')
                st.assume(z3.And(fp > 0))
                if name == 'popen':
                    ex.oblige(st, 'the command run is the one given', tz(args[0].i()) == self.arg(ex, 0) + 1, ln)
                    ex.oblige(st, 'the output of the command is read', tz(args[1].i()) == self.lit(ex, 'r'), ln)
                else:
                    ex.oblige(st, 'the file opened is the one named', tz(args[0].i()) == self.arg(ex, 0), ln)
                    ex.oblige(st, 'the file is opened for reading', z3.Or(*[tz(args[1].i()) == self.lit(ex, m) for m in ('r', 'r+', 'rb', 'r+b', 'rb+')]), ln)
                G['fp'], G['opened'] = fp, T
                return [(Val(fp, FT), st), (Val(0, FT), f)]
            if name in ('fseek', 'fseeko', 'fseeko64'):
                f = st.copy()
                fp, o, w = [tz(a.i()) for a in args[:3]]
                src = tz(ex.path_read(st, H)) if ex.cur == 'read_file' else self.register(ex, ex.pre)
                G['seekset'] = z3.And(fp == src, o == 0, w == 0)
                return [(Val(0, INT), st), (Val(-1, INT), f)]
            if name == 'rewind':
                G['seekset'] = T
                return [(Val(0, VOID), st)]
        if ex.cur in ('r_cmd', 'E_cmd') and name == 'printf' and len(args) > 1:
            ex.oblige(st, 'the number reported is that of the bytes read', z3.And(G['read'] == 1, tz(args[1].i()) == G['size']), ln)
        if ex.cur in ('read_stream', 'read_stream_r'):
            if name == 'get_stream_line':
                ex.oblige(st, 'text got is put before more is read', z3.Not(G['pend']), ln)
                ex.oblige(st, 'the input is the stream given', tz(args[0].i()) == self.arg(ex, 0), ln)
                ex.oblige(st, 'nothing is read after the last text', z3.Not(G['over']), ln)
                nm0 = tz(ex.path_read(st, ST + 'newline_missing'))
                b0 = tz(ex.path_read(st, ST + 'input_is_binary'))
                ex.oblige(st, 'flags of earlier input are cleared', z3.Or(G['got'] > 0, z3.And(nm0 == 0, b0 == 0)), ln)
                out = []
                for v, s in ex.auto_call(name, args, st, n, n['inner'][1:], CH):
                    f = s.copy()
                    nm = tz(ex.path_read(s, ST + 'newline_missing'))
                    bn = tz(ex.path_read(s, ST + 'input_is_binary'))
                    L = self.cell(ex, s, args[1])
                    t = tz(v.i())
                    s.assume(z3.And(t > 0, L >= 1, L < 1 << 60))
                    g2 = s.gh
                    g2['pend'], g2['tb'], g2['tlen'] = T, t, L
                    g2['got'], g2['gsum'] = g2['got'] + 1, g2['gsum'] + L
                    s.assume(g2['gsum'] < 1 << 62)
                    g2['nm'] = nm != 0
                    g2['bin'] = bn != 0
                    s.assume(z3.Implies(b0 != 0, bn != 0))
                    g2['snap'] = ex.mem(s, '*8').z()
                    f.assume(t == 0)
                    g3 = f.gh
                    f.assume(z3.And(nm == nm0))
                    g3['bin'] = bn != 0
                    # an interrupted last line, out of memory: error; end of input: nothing was taken, flags unchanged
                    g3['ended'], g3['err'] = fresh_bool('ended'), fresh_bool('err')
                    f.assume(z3.Not(z3.And(g3['ended'], g3['err'])))
                    f.assume(z3.Implies(g3['ended'], bn == b0))
                    out += [(v, s), (v, f)]
                return out
            if name == 'feof':
                v = fresh('feof')
                st.assume((v != 0) == G['ended'])
                return [(Val(v, INT), st)]
            if name == 'ferror':
                v = fresh('ferror')
                st.assume((v != 0) == G['err'])
                return [(Val(v, INT), st)]
            if name in ('clearerr', 'fflush'):
                return [(Val(0, INT), st)]
            if name == 'put_buffer_line':
                t, L = tz(args[0].i()), tz(args[1].i())
                k = fresh('k')
                if ex.cur == 'read_stream':
                    ex.oblige(st, 'the text put is the one just read', z3.And(G['pend'], t == G['tb'], L == G['tlen']), ln)
                    m = ex.mem(st, '*8').z()
                    ex.oblige(st, 'the text is put unchanged', z3.Implies(z3.And(0 <= k, k < L), m[t + k] == G['snap'][t + k]), ln)
                else:
                    ex.oblige(st, 'texts are put in the order read', z3.And(G['pend'], t == G['QT'][G['put']], L == G['QL'][G['put']], G['put'] < G['got']), ln)
                ex.oblige(st, 'text is put after the line given', tz(ex.path_read(st, ST + 'dot')) == self.arg(ex, 1) + G['put'], ln)
                d0 = tz(ex.path_read(st, ST + 'dot'))
                out = []
                for v, s in ex.auto_call(name, args, st, n, n['inner'][1:], CH):
                    f = s.copy()
                    s.assume(z3.And(tz(v.i()) != 0, tz(ex.path_read(s, ST + 'dot')) == d0 + 1))
                    f.assume(tz(v.i()) == 0)
                    s.gh['pend'] = Fl
                    s.gh['put'] = s.gh['put'] + 1
                    out += [(v, s), (v, f)]
                return out
            if name == 'append_text_node':
                th, t, L = [tz(a.i()) for a in args[:3]]
                k = fresh('k')
                ex.oblige(st, 'the queue is the one initialised', th == G['th'], ln)
                ex.oblige(st, 'the text is not null', t > 0, ln)
                ex.oblige(st, 'a copy of the text just read is queued', z3.And(G['pend'], L == G['tlen']), ln)
                m = ex.mem(st, '*8').z()
                ex.oblige(st, 'the text is queued unchanged', z3.Implies(z3.And(0 <= k, k < L), m[t + k] == G['snap'][G['tb'] + k]), ln)
                ex.oblige(st, 'the queue holds the text itself, not the input buffer', t != G['tb'], ln)
                out = []
                for v, s in ex.auto_call(name, args, st, n, n['inner'][1:], ('ptr', ('rec', 'ed_text_node'))):
                    f = s.copy()
                    s.assume(tz(v.i()) > 0)
                    f.assume(tz(v.i()) == 0)
                    s.gh['QT'], s.gh['QL'] = z3.Store(s.gh['QT'], s.gh['qn'], t), z3.Store(s.gh['QL'], s.gh['qn'], L)
                    s.gh['qn'] = s.gh['qn'] + 1
                    s.gh['pend'] = Fl
                    out += [(v, s), (v, f)]
                return out
            if name == 'shift_text_node':
                ex.oblige(st, 'a text taken from the queue was put', z3.Not(G['pend']), ln)
                ex.oblige(st, 'the queue is the one initialised', tz(args[0].i()) == G['th'], ln)
                out = []
                for v, s in ex.auto_call(name, args, st, n, n['inner'][1:], CH):
                    f = s.copy()
                    g2 = s.gh
                    s.assume(z3.And(g2['qh'] < g2['qn'], tz(v.i()) == g2['QT'][g2['qh']], tz(v.i()) > 0, self.cell(ex, s, args[1]) == g2['QL'][g2['qh']]))
                    g2['qh'] = g2['qh'] + 1
                    g2['pend'] = T
                    f.assume(z3.And(tz(v.i()) == 0, f.gh['qh'] == f.gh['qn']))
                    out += [(v, s), (v, f)]
                return out
            if name == 'init_text_deque':
                r = ex.auto_call(name, args, st, n, n['inner'][1:], VOID)
                for v, s in r:
                    s.gh['qn'] = s.gh['qh'] = z3.IntVal(0)
                    s.gh['th'] = tz(args[0].i())
                return r
            if name in ('memcpy', 'memmove', '__builtin_memcpy', '__builtin___memcpy_chk'):
                d, s_, L = [tz(a.i()) for a in args[:3]]
                m = ex.mem(st, '*8').z()
                ex.havoc_keys(st, {('*8', None)})
                m1 = ex.mem(st, '*8').z()
                q = z3.Int('q')
                st.assume(FA([q], m1[q] == z3.If(z3.And(d <= q, q < d + L), m[s_ + (q - d)], m[q]), [m1[q]]))
                return [(Val(d, ('ptr', VOID)), st)]
        return None

    # ------------------------------------------------ loops
    def loop_cands(self, ex, entry, head, locs, keys, n):
        out = []
        G = lambda s: s.gh
        v = lambda s, i: tz(ex.lrd(s, i))
        P = lambda s, p: tz(ex.path_read(s, p))
        pp = lambda p: tz(ex.path_read(ex.pre, p))
        outs = [w for w in entry.vars.values() if w.prov is not None and w.prov[0].startswith('*out:') and w.ty[0] == 'ptr' and w.ty[1][0] == 'int']
        ints = [i for i in entry.vars if ex.lty(entry, i)[:2] == ('int', 64)]
        if ex.cur == 'get_stream_line':
            out.append(('no error', lambda s: z3.Not(G(s)['err'])))
            out.append(('memory', lambda s: z3.Not(G(s)['nomem'])))
            out.append(('no newline yet', lambda s: G(s)['nl'] == 0))
            out.append(('end seen ahead only while decrypting', lambda s: z3.Implies(G(s)['eof'], z3.And(self.key(ex, s), self.arg(ex, 0) != self.std(ex, s)))))
            out.append(('taken', lambda s: G(s)['taken'] >= 0))
            out.append(('newline missing kept', lambda s: P(s, ST + 'newline_missing') == pp(ST + 'newline_missing')))
            out.append(('binary', lambda s: (P(s, ST + 'input_is_binary') != 0) == z3.Or(pp(ST + 'input_is_binary') != 0, G(s)['nul'])))
            out.append(('key', lambda s: self.key(ex, s) == self.key(ex, ex.pre)))
            cells = []
            for w in outs:
                cells.append((w.prov[0], lambda s, w=w: self.cell(ex, s, w)))
            for i in ints:
                cells.append((short(i), lambda s, i=i: v(s, i)))
            for nm, f in cells:
                out.append(('%s counts what was taken' % nm, lambda s, f=f: f(s) == G(s)['taken']))
            bufs, sizes = self.statics(ex)
            for bk in bufs:
                b = lambda s, bk=bk: tz(ex.rd(s, bk, 0))
                q = z3.Int('q')
                out.append(('%s holds what was taken' % bk, lambda s, b=b: FA([q], z3.Implies(z3.And(0 <= q, q < G(s)['taken']), ex.mem(s, '*8').z()[b(s) + q] == sgn(G(s)['IN'][q])),
                                                                           [G(s)['IN'][q]])))
                for sk in sizes:
                    out.append(('%s is large enough' % sk, lambda s, sk=sk: G(s)['taken'] <= tz(ex.rd(s, sk, 0))))
        if ex.cur in ('read_stream', 'read_stream_r'):
            out.append(('all put', lambda s: z3.And(G(s)['put'] == G(s)['got'])))
            out.append(('none pending', lambda s: z3.Not(G(s)['pend'])))
            out.append(('not past the end', lambda s: z3.Not(G(s)['over'])))
            out.append(('queued', lambda s: z3.And(G(s)['qn'] == G(s)['got'], G(s)['qn'] >= 0)))
            out.append(('shifted', lambda s: z3.And(G(s)['qh'] == G(s)['put'], G(s)['put'] >= 0, G(s)['put'] <= G(s)['got'])))
            out.append(('none shifted', lambda s: z3.And(G(s)['qh'] == 0, G(s)['put'] == 0)))
            out.append(('counts', lambda s: z3.And(G(s)['got'] >= 0, G(s)['put'] >= 0, G(s)['gsum'] >= 0)))
            out.append(('bytes were read with each text', lambda s: G(s)['gsum'] >= G(s)['got']))
            out.append(('current line', lambda s: P(s, ST + 'dot') == self.arg(ex, 1) + G(s)['put']))
            out.append(('missing newline', lambda s: (P(s, ST + 'newline_missing') != 0) == G(s)['nm']))
            out.append(('binary', lambda s: (P(s, ST + 'input_is_binary') != 0) == G(s)['bin']))
            out.append(('flags clear at first', lambda s: z3.Or(G(s)['got'] > 0, z3.And(P(s, ST + 'newline_missing') == 0, P(s, ST + 'input_is_binary') == 0))))
            for p in ('newline_appended', 'is_binary'):
                out.append((p + ' kept', lambda s, p=p: P(s, ST + p) == pp(ST + p)))
            if self.is_key:
                out.append(('key kept', lambda s: self.key(ex, s) == self.key(ex, ex.pre)))
            for w in outs:
                out.append(('%s counts the bytes' % w.prov[0], lambda s, w=w: self.cell(ex, s, w) == G(s)['gsum']))
            for i in ints:
                out.append(('%s counts the bytes' % short(i), lambda s, i=i: v(s, i) == G(s)['gsum']))
        return out

    def statics(self, ex):
        ks = [k for k in ex.ms.statics.values() if k.startswith('@' + ex.cur + '.')]
        return ks, ks


def tasks(prog):
    from run import Task, PyTask
    v = InView(prog)
    fs = ['get_stream_line', 'realloc_buffer', 'append_text_node', 'shift_text_node', 'init_text_deque', 'read_stream', 'read_stream_r', 'read_file', 'read_pipe', 'append_from_register', 'r_cmd', 'E_cmd']
    return [Task(v, f, 150) for f in fs if f in prog.funcs]
