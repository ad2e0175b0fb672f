"""C06: a write outputs exactly the addressed lines or reports failure.

Ghost state: what has been delivered.
  put_stream_line   every character handed to the stream is the next one of the text, none is skipped or repeated (also after an
                    interrupted call); status 0 only if all of them were delivered
  write_stream      the texts put are those of the lines lp, next(lp), ... in order, each fetched from the buffer right before, each with one
                    newline (none only after the last line of the buffer when that is known to lack it); status 0 only if n lines were
                    delivered, the cipher's last block was written and the stream was flushed; *size is the number of bytes delivered
  write_file        writes lines from..to to the named file, opened in the given mode (a file already open: from its start after
                    truncation, or at its end), and reports an error unless that file was closed or stays open flushed
  write_pipe        the same for a command
  w_cmd             the range written is the addressed one, the mode is that of the command, the number reported is that delivered
"""
from checks.listview import *

CH = ('ptr', ('int', 8, True))
H = 'ed_file.handle'
ASSUMPTIONS = [
    'a character output function (putc, fwrite, and put_des_char: C15) that returns other than EOF has delivered the character, one that returns EOF has not and sets the '
    'stream error; a successful fflush has delivered what was put before; what a pipe or device does with delivered bytes is outside',
    'the stream of the current file has no pending error when a write begins (write_stream is proved to clear it whenever it fails)',
    'get_line_node returns the line at the given address (proved under C01); get_buffer_line returns the text of the line (C05)',
    'the line list is a sequence (invariant proved under C01)',
    'character stores through a pointer reach only the text that pointer was derived from',
]
KEYS = ('out', 'wn', 'wb', 'a', 'tn', 'txt', 'at', 'cnt', 'fp', 'size')
FLAGS = ('err', 'fl', 'df', 'ic', 'opened', 'seekend', 'seekset', 'trunc', 'closed', 'cfail', 'done')


def b_(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


class WrView(BView):
    merge_limit = 8
    inv_timeout = 1000
    max_acc = 6
    qkeys = frozenset([F])

    def __init__(self, prog):
        super().__init__(prog)
        C = {}
        self.ghost_deps = {}
        self.inlines |= {'is_valid_range'}
        g = lambda c: c.post_st.gh
        r = lambda c: tz(c.ret)

        def psl(c):
            if c.mode == 'call':
                self.put(c)
                return [('ghost', z3.Implies(r(c) >= 0, z3.Not(g(c)['err'])))]
            return [('every character of the text was delivered', z3.Implies(r(c) >= 0, g(c)['out'] == tz(c.args[2].i()))),
                    ('no stream error is left behind on success', z3.Implies(r(c) >= 0, z3.Not(g(c)['err']))),
                    ('status', r(c) <= 0)]
        C['put_stream_line'] = Contract('put_stream_line', ensures=psl, requires=lambda c: self.put_pre(c), ghost_mod=('err',))

        def ws(c):
            n, size = tz(c.args[2].i()), self.cell(c.ex, c.post_st, c.args[3])
            ok = r(c) >= 0
            if c.mode == 'call':
                st = c.post_st
                st.gh['done'] = z3.If(ok, z3.BoolVal(True), st.gh['done'])
                st.gh['at'], st.gh['cnt'], st.gh['fp'], st.gh['size'] = St(c.ex, st).idx[tz(c.args[1].i())], n, tz(c.args[0].i()), size
                return [('ghost', z3.Not(g(c)['err'])), ('ghost', z3.And(r(c) <= 0, size >= 0))]
            key = tz(c.ex.path_read(c.pre_st, 'ed.exec.have_key')) != 0 if self.key else False
            wb = g(c)['wb']
            return [('all addressed lines were delivered', z3.Implies(ok, g(c)['wn'] == n)),
                    ('the size reported is the number of bytes delivered', z3.Implies(ok, size == z3.If(z3.And(b_(key), wb > 0), wb + 8 - wb % 8, wb))),
                    ('the output was flushed', z3.Implies(ok, g(c)['fl'])),
                    ('the last block of an encrypted file was written', z3.Implies(z3.And(ok, b_(key)), g(c)['df'])),
                    ('no stream error is left behind', z3.Not(g(c)['err'])),
                    ('status', r(c) <= 0)]
        C['write_stream'] = Contract('write_stream', ensures=ws, requires=lambda c: self.range_pre(c, c.args[1], c.args[2]), ghost_mod=('err',))

        def wf_(c):
            frm, to = tz(c.args[-6 if c.name_ == 'write_file' else -5].i()), tz(c.args[-5 if c.name_ == 'write_file' else -4].i())
            return frm, to

        def named(nm, k):
            def ens(c):
                frm, to = tz(c.args[k].i()), tz(c.args[k + 1].i())
                n = z3.If(frm != 0, to - frm + 1, z3.IntVal(0))
                addr, size = self.cell(c.ex, c.post_st, c.args[k + 2]), self.cell(c.ex, c.post_st, c.args[k + 3])
                ok = r(c) >= 0
                if c.mode == 'call':
                    c.post_st.gh['size'], c.post_st.gh['cnt'] = size, n
                    c.post_st.gh['done'] = ok
                    return [('ghost', z3.Implies(ok, addr == n)), ('ghost', r(c) <= 0)]
                G = g(c)
                out = [('the addressed lines were delivered', z3.Implies(ok, z3.And(G['done'], G['cnt'] == n, z3.Implies(n > 0, G['at'] == frm)))),
                       ('the number of lines is reported', z3.Implies(ok, addr == n)),
                       ('the number of bytes is reported', z3.Implies(ok, size == G['size']))]
                if nm == 'write_file':
                    e = c.ex
                    out += [('the file written is closed, or remains the current file', z3.Implies(ok, z3.Or(
                        G['closed'], G['fp'] == tz(e.path_read(c.post_st, 'ed.file.handle'))))),
                        ('a failure to close the file written is an error', z3.Implies(G['cfail'], z3.Not(ok))),
                        ('the current file stays open', z3.Implies(z3.And(ok, G['closed']), G['fp'] != tz(e.path_read(c.post_st, 'ed.file.handle'))))]
                return out

            def req(c):
                frm, to = tz(c.args[k].i()), tz(c.args[k + 1].i())
                N = St(c.ex, c.pre_st).N
                out = [('lines of the buffer are written', z3.Or(frm == 0, z3.And(1 <= frm, frm <= to, to <= N)))]
                if c.mode == 'call':
                    out += self.from_cmd(c, nm, k)
                return out
            return Contract(nm, ensures=ens, requires=req)
        C['append_to_register'] = Contract('append_to_register', requires=lambda c: [('lines of the buffer are written', z3.Or(
            tz(c.args[0].i()) == 0, z3.And(1 <= tz(c.args[0].i()), tz(c.args[0].i()) <= tz(c.args[1].i()), tz(c.args[1].i()) <= St(c.ex, c.pre_st).N)))])
        C['w_cmd'] = Contract('w_cmd', requires=self.w_req)
        C['write_file'] = named('write_file', 2)
        C['write_pipe'] = named('write_pipe', 1)
        self.contracts = {k: v for k, v in C.items() if k in prog.funcs}
        self.key = 'have_key' in str(prog.types.layout('ed_execute')[0])

    def w_req(self, c):
        ex, st = c.ex, c.pre_st
        w = ex.mem(st, '*8').z()[tz(ex.path_read(st, 'ed.input')) - 1]
        return [('no register prefix', tz(ex.path_read(st, 'ed.core.regbuf.io_f')) == 0), ('the command is w or W', z3.Or(w == 87, w == 119))]

    def fnptr_call(self, ex, args, st, n, fnval):
        if ex.cur == 'exec_command' and 'w_cmd' in self.contracts:
            is_w = tz(fnval.i()) == ex.func_addr('w_cmd')
            for nm, f in self.w_req(Ctx(ex, args, st.copy(), mode='call')):
                ex.oblige(st, 'precondition of w_cmd: %s' % nm, z3.Implies(is_w, f), n_line(n), 'pre')
        return None

    def cell(self, ex, st, v):
        return tz(ex.load(st, LV('mem', v.prov[0], v.prov[1], v.ty[1])).i())

    def range_pre(self, c, lp, n):
        s = St(c.ex, c.pre_st)
        lp, n = tz(lp.i()), tz(n.i())
        a = s.idx[lp]
        out = [('the lines written are lines of the buffer', z3.And(n >= 0, z3.Implies(n > 0, z3.And(
            1 <= a, a + n - 1 <= s.N, s.node[a] == lp)))),
            ('the stream has no pending error', z3.Not(c.pre_st.gh['err']))]
        if c.mode == 'call' and c.ex.cur == 'write_file':
            out += self.ready(c)
        return out

    def ready(self, c):
        """write_file: the stream is the named file, opened in the mode given, or the open file positioned as that mode demands"""
        G = c.pre_st.gh
        fp = tz(c.args[0].i())
        pn = c.ex.prog.funcs['write_file'].params
        m = c.ex.mem(c.ex.pre, '*8').z()[z3.Int('arg:%s' % pn[6]['name'])]
        return [('the stream is the file named, or the current file', z3.Or(z3.And(G['opened'], fp == G['fp']), fp == tz(c.ex.path_read(c.pre_st, 'ed.file.handle')))),
                ('an open file is overwritten from its start', z3.Or(G['opened'], m != 119, z3.And(G['seekset'], G['trunc']))),
                ('an open file is appended to at its end', z3.Or(G['opened'], m != 97, z3.And(G['seekend'], z3.Not(G['trunc']))))]

    def from_cmd(self, c, nm, k):
        if c.ex.cur != 'w_cmd':
            return []
        ex, st = c.ex, c.pre_st
        P = lambda p: tz(ex.path_read(st, p))
        out = [('the range written is the addressed one', z3.And(tz(c.args[k].i()) == P('ed.exec.region.start'), tz(c.args[k + 1].i()) == P('ed.exec.region.end')))]
        if nm == 'write_file':
            m = ex.mem(st, '*8').z()
            md = tz(c.args[6].i())
            W = ex.mem(ex.pre, '*8').z()[tz(ex.path_read(ex.pre, 'ed.input')) - 1]
            A, Wl = self.lit(ex, 'a'), self.lit(ex, 'w')
            out.append(('W appends, w overwrites', md == z3.If(W == 87, A, Wl)))
        return out

    def lit(self, ex, s):
        return tz(ex.strs.setdefault('"%s"' % s, GLOBAL_BASE + (1 << 44) + len(ex.strs) * (1 << 16)))

    def init_state(self, ex, st):
        super().init_state(ex, st)
        if ex.cur == 'exec_command':
            ex.const_tables(st, [g for g in ex.prog.static_globals_init if 'ed_command_t' in ex.prog.globals.get(g, '') or g == 'ed_cmd'])
        ex.wr(st, 'ed_core.line_head', z3.Int('ed_core'), HEAD)
        st.assume(HEAD > 0)
        st.gh['node'], st.gh['idx'] = z3.Array('node', IntS, IntS), z3.Array('idx', IntS, IntS)
        s = St(ex, st)
        f = s.a(F)
        for q in [s.N >= 0, s.node[0] == HEAD, f[s.node[s.N]] == HEAD,
                  FA([i_], z3.Implies(z3.And(0 <= i_, i_ < s.N), f[s.node[i_]] == s.node[i_ + 1]), [f[s.node[i_]]]),
                  FA([i_], z3.Implies(z3.And(0 <= i_, i_ <= s.N), z3.And(s.idx[s.node[i_]] == i_, s.a(LEN)[s.node[i_]] >= 0,
                                                                         s.a(LEN)[s.node[i_]] < 1 << 62)), [s.node[i_]])]:
            st.assume(q)
        for k in ('out', 'wn', 'wb', 'a', 'tn', 'txt', 'at', 'cnt', 'fp', 'size'):
            st.gh[k] = z3.IntVal(0)
        for k in FLAGS:
            st.gh[k] = z3.BoolVal(False)
        st.gh['snap'] = ex.mem(st, '*8').z()

    def arg(self, ex, k):
        fn = ex.prog.funcs[ex.cur]
        return z3.Int('arg:%s' % fn.params[k].get('name'))

    # ---- put_stream_line as write_stream sees it
    def last(self, ex, st):
        """the line to be written now is the last one of the buffer, known to lack its newline"""
        P = lambda p: tz(ex.path_read(st, p))
        a = St(ex, ex.pre).idx[self.arg(ex, 1)]
        return z3.And(a + st.gh['wn'] == St(ex, ex.pre).N, P('ed.state.is_binary') != 0, P('ed.state.newline_appended') != 0)

    def put_pre(self, c):
        out = [('the stream has no pending error', z3.Not(c.pre_st.gh['err']))]
        if c.mode == 'call' and c.ex.cur == 'write_stream':
            ex, st = c.ex, c.pre_st
            G = st.gh
            a = St(ex, ex.pre).idx[self.arg(ex, 1)]
            fp, s, ln = [tz(x.i()) for x in c.args[:3]]
            L = z3.If(G['tn'] == HEAD, 0, St(ex, st).a(LEN)[G['tn']])
            m = ex.mem(st, '*8').z()
            nl = z3.If(self.last(ex, st), z3.IntVal(0), z3.IntVal(1))
            k = fresh('k')
            key = tz(ex.path_read(st, 'ed.exec.have_key')) != 0 if self.key else False
            out += [('the lines are put in order', z3.And(G['tn'] == St(ex, ex.pre).node[a + G['wn']], s == G['txt'], G['wn'] < self.arg(ex, 2))),
                    ('a line is put with one newline, the last of the buffer without if it lacks one', ln == L + nl),
                    ('the text put is that of the line', z3.Implies(z3.And(0 <= k, k < L), m[s + k] == G['snap'][s + k])),
                    ('the newline follows the text', z3.Implies(nl == 1, m[s + L] == 10)),
                    ('the line is put to the stream given', fp == self.arg(ex, 0)),
                    ('the cipher was initialised', z3.Or(z3.Not(b_(key)), G['ic']))]
        return out

    def put(self, c):
        st = c.post_st
        ok = tz(c.ret) >= 0
        st.gh['wn'] = z3.If(ok, st.gh['wn'] + 1, st.gh['wn'])
        st.gh['wb'] = z3.If(ok, st.gh['wb'] + tz(c.args[2].i()), st.gh['wb'])
        st.gh['fl'] = st.gh['df'] = z3.BoolVal(False)

    # ---- library functions
    def two(self, st):
        return st, st.copy()

    def on_call(self, ex, name, args, st, n):
        G = st.gh
        T, Fl = z3.BoolVal(True), z3.BoolVal(False)
        INT = ('int', 32, True)
        if name in ('putc', 'fputc', '_IO_putc', 'putc_unlocked', 'put_des_char') and ex.cur == 'put_stream_line':
            s, f = self.two(st)
            m = ex.mem(ex.pre, '*8').z()
            ex.oblige(st, 'the character put is the next one of the text', z3.And(
                (tz(args[0].i()) - m[self.arg(ex, 1) + G['out']]) % 256 == 0, G['out'] < self.arg(ex, 2)), n_line(n))
            ex.oblige(st, 'characters are put to the stream given', tz(args[1].i()) == self.arg(ex, 0), n_line(n))
            ex.oblige(st, 'nothing is put to a stream with a pending error', z3.Not(G['err']), n_line(n))
            key = tz(ex.path_read(st, 'ed.exec.have_key')) != 0 if self.key else False
            ex.oblige(st, 'characters are encrypted exactly if a key is set', b_(key) == b_(name == 'put_des_char'), n_line(n))
            c = fresh('c')
            s.assume(z3.And(c >= 0, c <= 255))
            s.gh['out'] = G['out'] + 1
            f.gh['err'] = T
            return [(Val(c, INT), s), (Val(-1, INT), f)]
        if name == 'fwrite' and ex.cur == 'put_stream_line':
            c = fresh('c')
            tot = tz(args[1].i()) * tz(args[2].i()) if not (isc(args[1].t) and int(args[1].t) == 1) else tz(args[2].i())
            ex.oblige(st, 'the text put is the rest of the text', z3.And(tz(args[0].i()) == self.arg(ex, 1) + G['out'], tz(args[1].i()) == 1,
                                                                      G['out'] + tot <= self.arg(ex, 2)), n_line(n))
            ex.oblige(st, 'characters are put to the stream given', tz(args[3].i()) == self.arg(ex, 0), n_line(n))
            key = tz(ex.path_read(st, 'ed.exec.have_key')) != 0 if self.key else False
            ex.oblige(st, 'characters are encrypted exactly if a key is set', z3.Not(b_(key)), n_line(n))
            st.assume(z3.And(0 <= c, c <= tot))
            st.gh['out'] = G['out'] + c
            st.gh['err'] = z3.Or(G['err'], c < tot)
            return [(Val(c, ('int', 64, False)), st)]
        if name == 'ferror':
            c = fresh('ferror')
            st.assume((c != 0) == G['err'])
            return [(Val(c, INT), st)]
        if name == 'clearerr':
            st.gh['err'] = Fl
            return [(Val(0, VOID), st)]
        if name == 'get_buffer_line':
            r = ex.auto_call(name, args, st, n, n['inner'][1:], CH)
            out = []
            for v, s in r:
                f = s.copy()
                t = tz(v.i())
                s.assume(t > 0)
                s.gh['tn'], s.gh['txt'], s.gh['snap'] = tz(args[0].i()), t, ex.mem(s, '*8').z()
                L = St(ex, s).a(LEN)[tz(args[0].i())]
                s.assume(L >= 0)
                f.assume(t == 0)
                out += [(v, s), (v, f)]
            return out
        if name == 'get_line_node':
            k = tz(args[0].i())
            N = St(ex, st).N
            for v, s in ex.auto_call(name, args, st, n, n['inner'][1:], LNODE):
                s.assume(z3.Implies(z3.And(0 <= k, k <= N), tz(v.i()) == St(ex, s).node[k]))
                return [(v, s)]
        if name == 'fflush':
            if ex.cur in ('write_stream', 'write_file'):
                s, f = self.two(st)
                if ex.cur == 'write_stream':
                    s.gh['fl'] = z3.Or(tz(args[0].i()) == self.arg(ex, 0), tz(args[0].i()) == 0)
                f.gh['err'] = T
                return [(Val(0, INT), s), (Val(-1, INT), f)]
        if name == 'flush_des_file':
            for v, s in ex.auto_call(name, args, st, n, n['inner'][1:], INT):
                f = s.copy()
                s.assume(tz(v.i()) >= 0)
                f.assume(tz(v.i()) < 0)
                s.gh['df'], s.gh['fl'] = T, Fl
                f.gh['err'] = T
                return [(v, s), (v, f)]
        if name == 'init_des_cipher':
            r = ex.auto_call(name, args, st, n, n['inner'][1:], VOID)
            for v, s in r:
                s.gh['ic'] = T
            return r
        if ex.cur == 'write_file':
            if name in ('fopen', 'fopen64'):
                s, f = self.two(st)
                fp = fresh('fp')
                s.assume(z3.And(fp > 0, fp != tz(ex.path_read(s, 'ed.file.handle'))))
                ex.oblige(st, 'the file opened is the one named', tz(args[0].i()) == self.arg(ex, 0), n_line(n))
                ex.oblige(st, 'the file is opened in the mode of the command', tz(args[1].i()) == self.arg(ex, 6), n_line(n))
                s.gh['fp'], s.gh['opened'] = fp, T
                return [(Val(fp, ('ptr', ('rec', '_IO_FILE'))), s), (Val(0, ('ptr', ('rec', '_IO_FILE'))), f)]
            if name in ('fseek', 'fseeko', 'fseeko64'):
                s, f = self.two(st)
                fp, o, w = [tz(a.i()) for a in args[:3]]
                mine = fp == tz(ex.path_read(st, 'ed.file.handle'))
                s.gh['seekend'], s.gh['seekset'] = z3.And(mine, o == 0, w == 2), z3.And(mine, o == 0, w == 0)
                return [(Val(0, INT), s), (Val(-1, INT), f)]
            if name in ('ftruncate', 'ftruncate64'):
                s, f = self.two(st)
                s.gh['trunc'] = z3.Or(tz(args[1].i()) == 0, G['trunc'])
                ex.oblige(st, 'a file that is truncated is emptied', tz(args[1].i()) == 0, n_line(n))
                return [(Val(0, INT), s), (Val(-1, INT), f)]
            if name == 'fclose':
                s, f = self.two(st)
                it = z3.And(G['done'], tz(args[0].i()) == G['fp'])
                s.gh['closed'] = z3.Or(G['closed'], it)
                f.gh['cfail'] = z3.Or(G['cfail'], it)
                return [(Val(0, INT), s), (Val(-1, INT), f)]
        if ex.cur == 'w_cmd' and name == 'printf' and len(args) > 1:
            ex.oblige(st, 'the number of bytes reported is that of the bytes delivered', z3.And(G['done'], tz(args[1].i()) == G['size']), n_line(n))
        return None

    def loop_cands(self, ex, entry, head, locs, keys, n):
        out = []
        G = lambda s: s.gh
        e = entry.gh
        out += [('no stream error', lambda s: z3.Not(G(s)['err'])), ('cipher initialised', lambda s: z3.Or(G(s)['ic'], z3.Not(e['ic'])))]
        v = lambda s, i: tz(ex.lrd(s, i))
        ints = [i for i in entry.vars if ex.lty(entry, i)[:2] == ('int', 64)]
        if ex.cur == 'put_stream_line':
            out.append(('text unchanged', lambda s: ex.mem(s, '*8').z() == ex.mem(ex.pre, '*8').z()))
            out.append(('delivered so far', lambda s: z3.And(0 <= G(s)['out'], G(s)['out'] <= self.arg(ex, 2))))
            for i in entry.vars:
                if ex.lty(entry, i)[0] == 'ptr' and ex.lty(entry, i)[1][:2] == ('int', 8):
                    out.append(('%s is the next character' % short(i), lambda s, i=i: v(s, i) == self.arg(ex, 1) + G(s)['out']))
            for i in ints:
                out.append(('%s is what is left' % short(i), lambda s, i=i: v(s, i) + G(s)['out'] == self.arg(ex, 2)))
                out.append(('%s counts the characters' % short(i), lambda s, i=i: v(s, i) == G(s)['out']))
        if ex.cur == 'write_stream':
            S0 = St(ex, ex.pre)
            a = S0.idx[self.arg(ex, 1)]
            out.append(('lines delivered', lambda s: z3.And(0 <= G(s)['wn'], G(s)['wn'] <= self.arg(ex, 2))))
            out.append(('bytes delivered', lambda s: 0 <= G(s)['wb']))
            for i in entry.vars:
                if ex.lty(entry, i) == LNODE:
                    out.append(('%s is the next line' % short(i), lambda s, i=i: z3.Or(self.arg(ex, 2) == 0, v(s, i) == z3.If(
                        a + G(s)['wn'] > S0.N, HEAD, S0.node[a + G(s)['wn']]))))
            for i in ints:
                out.append(('%s is what is left' % short(i), lambda s, i=i: v(s, i) + G(s)['wn'] == self.arg(ex, 2)))
                out.append(('%s counts the lines' % short(i), lambda s, i=i: v(s, i) == G(s)['wn']))
                out.append(('%s counts the bytes' % short(i), lambda s, i=i: v(s, i) == G(s)['wb']))
            for w in entry.vars.values():
                if w.prov is not None and w.prov[0].startswith('*out:') and w.ty[0] == 'ptr' and w.ty[1][0] == 'int':
                    out.append(('%s counts the bytes' % w.prov[0], lambda s, w=w: self.cell(ex, s, w) == G(s)['wb']))
        return out


NORETURN = {'handle_hup'}


def tasks(prog):
    from run import Task
    v = WrView(prog)
    return [Task(v, f, 150) for f in ('put_stream_line', 'write_stream', 'write_file', 'write_pipe', 'w_cmd', 'append_to_register', 'handle_hup', 'exec_command') if f in prog.funcs]
