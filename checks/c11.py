"""C11: critical sections balanced; signals deferred while structures change.

Contracts (every function of the program, all paths):
  * ensures  _mutex == old(_mutex)            (spl1: +1, spl0: -1 with requires _mutex > 0)
  * a store to a link of an existing list node, to the line count or to a growing
    buffer's size happens only with _mutex > 0
  * signal_handler: _mutex != 0 -> sets bit signo-1 of _sigflags, calls nothing;
                    _mutex == 0 -> calls exactly sighandler[signo-1](signo)
  * spl0: decrements; calls handle_hup/handle_int/handle_winch exactly when the level reaches 0
    and the signal's bit is pending
  * handle_int / handle_winch: the signal's own bit, and no other, is cleared; handle_int leaves
    only with _mutex == 0 (its precondition, obliged at every call)
"""
from checks.common import *
LEVEL = 'proof'
HANDLERS = ('handle_hup', 'handle_int', 'handle_winch')
NORETURN = {'quit', 'script_die', 'handle_hup/1', 'handle_int/2', 'main'}
ASSUMPTIONS = [
    'signal handlers interrupt only between C statements of the verified semantics (asynchronous delivery inside one C expression is not modelled)',
    'functions entered by longjmp resume in main with the level at which handle_int left, which is 0 by its precondition',
]
LINKS = ('ed_line_node.q_forw', 'ed_line_node.q_back', 'ed_undo_node.q_forw', 'ed_undo_node.q_back',
         'ed_global_node.q_forw', 'ed_global_node.q_back', 'ed_text_node.q_forw', 'ed_text_node.q_back')
# executed before the handlers are installed, or re-initialising a structure nobody else can see
EXEMPT = {'one_time_init', 'init_ed_state', 'init_text_deque', 'alloc_ed_buffer', 'main'}


def calls_log(st):
    return st.aux.get('calls', ())


class MV(BView):
    merge_limit = 6
    sep_out = False
    houdini = False
    watch = True

    def __init__(self, prog):
        super().__init__(prog)
        C = self.contracts
        if 'spl1' in prog.funcs:
            C['spl1'] = Contract('spl1', ensures=lambda c: [
                ('raises the level by one', c.post.glob('_mutex') == add(c.pre.glob('_mutex'), 1))])
        if 'spl0' in prog.funcs:
            C['spl0'] = Contract('spl0', requires=lambda c: [('section is entered', cmp('>', c.pre.glob('_mutex'), 0))],
                                 ensures=lambda c: [('lowers the level by one',
                                                     c.post.glob('_mutex') == add(c.pre.glob('_mutex'), -1))])

        held = lambda c: [('signals are held off', cmp('>', c.pre.glob('_mutex'), 0))]
        keep = lambda c: [('level unchanged', c.post.glob('_mutex') == c.pre.glob('_mutex'))]
        # functions documented to be called inside a critical section ("Assert: spl1 ()")
        for f in ('delete_lines', 'put_buffer_line', 'append_line_node', 'delete_global_nodes',
                  'reset_global_queue'):
            if f in prog.funcs:
                C[f] = Contract(f, requires=held, ensures=keep)

    def after_auto(self, ex, name, args, pre, st, n):
        st.heap['@_mutex'] = ex.mem(pre, '@_mutex')

    def fnptr_call(self, ex, args, st, n, fnval):
        # every possible target is verified to preserve the level
        keys = set()
        for f in ex.ms.fnptr_targets():
            keys |= ex.ms.of_func(f)
        m = ex.mem(st, '@_mutex')
        ex.havoc_keys(st, keys)
        st.heap['@_mutex'] = m
        return [(ex.fresh_val(st, ex.prog.ptype(n), 'fnptr'), st)]

    def entry(self, ex, name, args, st):
        m = z3.Int('mutex0')
        ex.wr(st, '@_mutex', 0, m)
        st.assume(And(m >= 0, m < 1000))

    def exit(self, ex, name, c, s):
        if name not in ('spl0', 'spl1'):
            ex.oblige(s, 'leaves as many critical sections as it entered',
                      cmp('==', ex.rd(s, '@_mutex', 0), z3.Int('mutex0')))

    def on_store(self, ex, st, lv, v):
        if lv.k != 'mem' or ex.cur in EXEMPT:
            return
        if lv.key in LINKS or lv.key == 'ed_state.lines':
            if any(same(f, lv.idx) for f in st.fr):
                return
            if ex.cur in self.locked:
                return
            ex.oblige(st, 'signals are held off while a shared structure changes (%s)' % lv.key,
                      cmp('>', ex.rd(st, '@_mutex', 0), 0), ex.curline, 'lock')

    locked = set()

    def loop_cands(self, ex, entry, head, locs, keys, n):
        m = ex.rd(entry, '@_mutex', 0)
        return [('level unchanged', lambda s: cmp('==', ex.rd(s, '@_mutex', 0), m))]


class CoarseMV(MV):
    merge_limit = 1
    coarse = {'@_mutex'} | set(LINKS) | {'ed_state.lines'}


class SigView(BView):
    """the signal primitives themselves"""
    bits_width = 31
    watch = False

    def __init__(self, prog):
        super().__init__(prog)

    def param_k(self, ex):
        return int(ex.variant) if ex.variant else None

    def entry(self, ex, name, args, st):
        m = z3.Int('mutex0')
        ex.wr(st, '@_mutex', 0, m)
        st.assume(And(m >= 0, m < 1000))
        if ex.variant:
            k = int(ex.variant)
            fn = ex.prog.funcs[name]
            args[0].t = k
            st.vars[fn.params[0]['id']] = Val(k, INT)
        ex.fl0 = ex.rd(st, '@_sigflags', 0)
        if name in ('handle_int',):
            st.assume(m == 0)
        if name == 'spl0':
            st.assume(m >= 1)   # spl0's precondition; MV proves it at every call

    def handler(self, ex, name, args, st, n):
        signo = {'handle_hup': 1, 'handle_int': 2, 'handle_winch': 28}[name]
        if ex.cur == 'spl0':
            ex.oblige(st, '%s is entered with its own signal number' % name, cmp('==', args[0].i(), signo), n_line(n), 'pre')
            ex.oblige(st, '%s runs only when no critical section is left' % name,
                      cmp('==', ex.rd(st, '@_mutex', 0), 0), n_line(n), 'pre')
            ex.oblige(st, '%s runs only for a pending signal' % name,
                      tz(ex.bit(st, ex.rd(st, '@_sigflags', 0), signo - 1)), n_line(n), 'pre')
        st.aux['calls'] = st.aux.get('calls', ()) + (name,)
        if name == 'handle_winch':
            st.assume(ex.rd(st, '@_mutex', 0) >= 0)
            return [(Val(0, VOID), st)]
        return []

    def on_call(self, ex, name, args, st, n):
        if name in HANDLERS:
            return self.handler(ex, name, args, st, n)
        if name in ('ioctl',):
            for k in ('winsize.ws_row', 'winsize.ws_col'):
                st.heap[k] = Mem(fresh_arr('Hv:' + k))
            return [(ex.fresh_val(st, INT, 'ioctl'), st)]
        if name == 'quit':
            st.aux['calls'] = st.aux.get('calls', ()) + ('quit',)
            self.at_quit(ex, st, n)
            return []
        return None

    def at_quit(self, ex, st, n):
        if ex.cur == 'handle_hup':
            act = ex.rd(st, '@_sigactive', 0)
            saved = 'write_file' in st.aux.get('calls', ())
            ex.oblige(st, 'a hangup saves a non-empty buffer before quitting',
                      Or(cmp('==', act, 0), cmp('==', ex.path_read(st, 'ed.state.lines'), 0), saved), n_line(n))

    def fnptr_call(self, ex, args, st, n, fnval):
        st.aux['calls'] = st.aux.get('calls', ()) + ('indirect',)
        ex.oblige(st, 'a deferred signal is not handled at once', cmp('==', ex.rd(st, '@_mutex', 0), 0), n_line(n))
        k = int(ex.variant)
        ex.oblige(st, 'the handler is the one registered for the signal',
                  cmp('==', fnval.i(), ex.rd(ex.pre, self.tabkey, ex.gaddr['sighandler'] + 8 * (k - 1))), n_line(n))
        ex.oblige(st, 'the handler is entered with the signal number', cmp('==', args[0].i(), k), n_line(n))
        return [(Val(0, VOID), st)]

    tabkey = '@sighandler[]'

    def flags_only(self, ex, s, f0, k, setbit):
        f1 = ex.rd(s, '@_sigflags', 0)
        goals = []
        for b in range(31):
            n1 = tz(ex.bit(s, f1, b))
            if b == k - 1:
                goals.append(n1 if setbit else Not(n1))
            else:
                goals.append(n1 == tz(ex.bit(s, f0, b)))
        return And(*goals)

    def on_exit(self, ex, st, n):
        if ex.cur == 'handle_int':
            ex.oblige(st, 'interrupt clears its own pending flag and no other', self.flags_only(ex, st, ex.fl0, 2, False), n_line(n))
            ex.oblige(st, 'interrupt leaves with no critical section entered', cmp('==', ex.rd(st, '@_mutex', 0), 0), n_line(n))
            ex.oblige(st, 'interrupt jumps only once the editor is active', cmp('!=', ex.rd(st, '@_sigactive', 0), 0), n_line(n))

    def exit(self, ex, name, c, s):
        calls = s.aux.get('calls', ())
        m0 = z3.Int('mutex0')
        m1 = ex.rd(s, '@_mutex', 0)
        if name == 'spl1':
            ex.oblige(s, 'raises the level by one', cmp('==', m1, m0 + 1))
            ex.oblige(s, 'pending flags kept', cmp('==', ex.rd(s, '@_sigflags', 0), ex.fl0))
            ex.oblige(s, 'handles nothing', not calls)
        elif name == 'spl0':
            ex.oblige(s, 'lowers the level by one', cmp('==', m1, m0 - 1))
            z = m0 == 1
            f = ex.fl0
            ex.oblige(s, 'a pending hangup is handled when the last section ends', Not(And(z, tz(ex.bit(s, f, 0)))))
            ex.oblige(s, 'a pending interrupt is handled when the last section ends', Not(And(z, tz(ex.bit(s, f, 1)))))
            ex.oblige(s, 'a pending window change is handled when the last section ends',
                      Implies(And(z, tz(ex.bit(s, f, 27))), calls == ('handle_winch',)))
            ex.oblige(s, 'pending flags kept until handled', cmp('==', ex.rd(s, '@_sigflags', 0), ex.fl0))
        elif name == 'signal_handler':
            k = int(ex.variant)
            ex.oblige(s, 'level unchanged', cmp('==', m1, m0))
            ex.oblige(s, 'deferred inside a section, handled at once outside',
                      Implies(m0 == 0, calls == ('indirect',)))
            ex.oblige(s, 'a deferred signal is remembered, all others kept',
                      Implies(m0 != 0, And(self.flags_only(ex, s, ex.fl0, k, True), not calls)))
        elif name == 'handle_winch':
            ex.oblige(s, 'clears its own pending flag and no other',
                      Implies(cmp('!=', ex.rd(s, '@_sigactive', 0), 0), self.flags_only(ex, s, ex.fl0, 28, False)))
            r0, r1 = c.pre.p('ed.display.ws_row'), c.post.p('ed.display.ws_row')
            c0, c1 = c.pre.p('ed.display.ws_col'), c.post.p('ed.display.ws_col')
            ex.oblige(s, 'window height stays sane', Or(cmp('==', r0, r1), cmp('>', r1, 1)))
            ex.oblige(s, 'window width stays sane', Or(cmp('==', c0, c1), cmp('>', c1, 8)))
            ex.oblige(s, 'level unchanged', cmp('==', m1, m0))
        elif name == 'activate_signals':
            ex.oblige(s, 'signals are active', cmp('!=', ex.rd(s, '@_sigactive', 0), 0))
        elif name == 'init_signal_handler':
            ok = cmp('>=', c.ret, 0)
            for k, h in ((1, 'handle_hup'), (2, 'handle_int'), (28, 'handle_winch')):
                if h in ex.prog.funcs:
                    ex.oblige(s, '%s is registered for its signal' % h,
                              cmp('==', ex.rd(s, self.tabkey, ex.gaddr['sighandler'] + 8 * (k - 1)), ex.func_addr(h)))


class HupView(SigView):
    def on_call(self, ex, name, args, st, n):
        if name == 'write_file':
            st.aux['calls'] = st.aux.get('calls', ()) + ('write_file',)
            ex.oblige(st, 'a hangup saves the whole buffer', And(cmp('==', args[2].i(), 1),
                      cmp('==', args[3].i(), ex.path_read(st, 'ed.state.lines'))), n_line(n))
            return [(ex.fresh_val(st, INT, 'wf'), st)]
        return SigView.on_call(self, ex, name, args, st, n)


def sig_tasks(prog):
    from run import Task
    v = SigView(prog)
    out = [Task(v, f) for f in ('spl1', 'spl0', 'activate_signals', 'init_signal_handler') if f in prog.funcs]
    for k in (1, 2, 28):
        if 'signal_handler' in prog.funcs:
            out.append(Task(v, 'signal_handler', 60, str(k)))
    for f, k in (('handle_hup', 1), ('handle_int', 2), ('handle_winch', 28)):
        if f in prog.funcs:
            out.append(Task(HupView(prog) if f == 'handle_hup' else v, f, 60, str(k)))
    return out


def tasks(prog):
    from run import Task
    from modset import ModSets
    ms = ModSets(prog)
    ms.of_func(next(iter(prog.funcs)))
    rel = {'@_mutex', 'ed_state.lines'} | set(LINKS)
    out = []
    v = MV(prog)
    cv = CoarseMV(prog)
    for f in by_size(prog, sorted(BASE)):
        if f in ('quit', 'script_die', 'spl0', 'spl1') + HANDLERS:
            continue
        if not ({k for k, p in ms.of_func(f)} & rel):
            continue
        out.append(Task(cv if f in ('main',) else v, f, 100))
    return out + sig_tasks(prog)
