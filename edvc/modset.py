"""Syntactic frame inference: which memory cells may a function (transitively) write?"""
from sym import strip, strip_par, tykey
from front import VOID

PURE_EXT = set('''strlen strcmp strncmp strcoll memcmp strchr strrchr isatty fileno feof ferror getenv strerror
 dcgettext gettext __ctype_b_loc __errno_location free fclose fflush fputs puts putchar putc fputc fprintf printf
 clearerr regexec regfree fseeko ftello unlink kill getpid access sigprocmask sigemptyset sigaddset
 signal _exit exit isalnum toupper tolower strdup setbuffer setlinebuf setvbuf fdopen fopen popen pclose freopen
 lockf flock fcntl dup2 close lseek abs labs vfork execl wcwidth isspace isdigit iswpunct fwrite
 setlocale bindtextdomain textdomain perror tcgetattr tcsetattr ioctl system sigaction pathconf rewind'''.split())


# Frames asserted by contract instead of computed (the contracts of these functions are
# verified in the signal and storage views; see DESIGN.md).  A handler that runs from
# spl0 either does not return (SIGHUP, SIGINT) or only touches the window size.
_SIG = {('@_mutex', None), ('@_sigflags', None), ('ed_display.ws_row', ('ed', 'display')),
        ('ed_display.ws_col', ('ed', 'display'))}
OVERRIDE = {
    'spl0': _SIG,
    'spl1': {('@_mutex', None)},
    'realloc_buffer': {('*ptr', None), ('*64', None), ('ed_execute.err', ('ed', 'exec'))} | _SIG,
    'quit': set(),
    'script_die': set(),
}


class ModSets:
    def __init__(self, prog):
        self.prog = prog
        self.cache = {}
        self.active = set()
        self.statics = {}
        for fn in prog.funcs.values():
            self._scan_statics(fn.body, fn.name)

    def _scan_statics(self, n, fname):
        if n.get('kind') == 'VarDecl' and n.get('storageClass') == 'static':
            self.statics[n['id']] = '@%s.%s' % (fname, n['name'])
        for c in n.get('inner', []):
            if c:
                self._scan_statics(c, fname)

    # ---- paths rooted at the ed singleton
    def pathof(self, n):
        n = strip(n)
        k = n.get('kind')
        if k == 'DeclRefExpr':
            t = self.prog.ptype(n)
            if t == ('ptr', ('rec', 'ed_buffer')):
                return ('ed',)
            return None
        if k == 'MemberExpr' and n.get('isArrow'):
            t = self.prog.ptype(n)
            if t[0] == 'ptr' and t[1][0] == 'rec':
                p = self.pathof(n['inner'][0])
                if p is not None:
                    return p + (n['name'],)
        if k == 'UnaryOperator' and n['opcode'] == '&':
            return self.pathof_addr(n['inner'][0])
        return None

    def pathof_addr(self, n):
        """path of the address of record lvalue n"""
        n = strip_par(n)
        k = n.get('kind')
        if k == 'UnaryOperator' and n['opcode'] == '*':
            return self.pathof(n['inner'][0])
        if k == 'ArraySubscriptExpr':
            i = strip(n['inner'][1])
            if i.get('kind') == 'IntegerLiteral':
                p = self.pathof(n['inner'][0])
                if p is not None:
                    v = int(i['value'])
                    return p + (v,) if v else p
        return None

    def rec_keys(self, tag, path=None):
        out = set()
        offs, _, _ = self.prog.types.layout(tag)
        for f, (o, t) in offs.items():
            if t[0] == 'rec':
                out |= self.rec_keys(t[1])
            elif t[0] == 'arr':
                if t[1][0] == 'rec':
                    out |= self.rec_keys(t[1][1])
                else:
                    out.add(('%s.%s[]' % (tag, f), None))
            else:
                out.add(('%s.%s' % (tag, f), path))
        return out

    def pointee_keys(self, t):
        if t[0] == 'rec':
            return self.rec_keys(t[1]) if t[1] not in ('_IO_FILE',) else set()
        if t[0] == 'arr':
            return self.pointee_keys(t[1])
        if t[0] in ('func', 'void'):
            return {('*8', None)} if t[0] == 'void' else set()
        return {(tykey(t), None)}

    def wkeys(self, n):
        """keys written when lvalue n is assigned"""
        n = strip_par(n)
        k = n.get('kind')
        t = self.prog.ptype(n)
        if k in ('ImplicitCastExpr', 'CStyleCastExpr'):
            return self.wkeys(n['inner'][-1])
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            if d['id'] in self.statics:
                b = (self.statics[d['id']], None)
            elif d['kind'] in ('VarDecl', 'ParmVarDecl') and d['name'] in self.prog.globals and d['kind'] != 'ParmVarDecl' \
                    and not self._is_local(d):
                b = ('@' + d['name'], None)
            else:
                b = ('L', d['id'])
            out = {b}
            if t[0] == 'rec':
                out |= self.rec_keys(t[1])
            elif t[0] == 'arr':
                out |= self.pointee_keys(t)
            return out
        if k == 'MemberExpr':
            base = n['inner'][0]
            bt = self.prog.ptype(base)
            if n.get('isArrow'):
                tag = bt[1][1] if bt[0] == 'ptr' and bt[1][0] == 'rec' else '?'
                path = self.pathof(base)
            else:
                tag = bt[1] if bt[0] == 'rec' else '?'
                path = self.pathof_addr(base)
            if t[0] == 'rec':
                return self.rec_keys(t[1])
            if t[0] == 'arr':
                if t[1][0] == 'rec':
                    return self.rec_keys(t[1][1])
                return {('%s.%s[]' % (tag, n['name']), None)}
            return {('%s.%s' % (tag, n['name']), path)}
        if k == 'ArraySubscriptExpr' or (k == 'UnaryOperator' and n['opcode'] == '*'):
            base = strip(n['inner'][0])
            bt = self.prog.ptype(base)
            if k == 'ArraySubscriptExpr' and bt[0] == 'int':
                base = strip(n['inner'][1])
                bt = self.prog.ptype(base)
            if t[0] == 'rec':
                return self.rec_keys(t[1], self.pathof_addr(n))
            if base.get('kind') == 'MemberExpr' and bt[0] == 'arr':
                return self.wkeys(base)
            if t[0] == 'arr':
                return self.pointee_keys(t)
            return {(tykey(t), None)}
        if k in ('ConditionalOperator',):
            return self.wkeys(n['inner'][1]) | self.wkeys(n['inner'][2])
        return {(tykey(t), None)}

    def _is_local(self, d):
        # file-scope objects are in prog.globals; a local with the same name shadows it
        return d['id'] in self.prog_locals()

    def prog_locals(self):
        if not hasattr(self, '_loc'):
            s = set()

            def w(n):
                if n.get('kind') == 'VarDecl' and n.get('storageClass') not in ('static', 'extern'):
                    s.add(n['id'])
                for c in n.get('inner', []):
                    if c:
                        w(c)
            for fn in self.prog.funcs.values():
                w(fn.body)
            self._loc = s
        return self._loc

    def fnptr_targets(self):
        '''functions whose address is taken outside a direct call (table initialisers etc.)'''
        if not hasattr(self, '_fpt'):
            t = set()

            def w(n, callee=False):
                if n.get('kind') == 'DeclRefExpr' and n['referencedDecl']['kind'] == 'FunctionDecl':
                    if not callee and n['referencedDecl']['name'] in self.prog.funcs:
                        t.add(n['referencedDecl']['name'])
                    return
                inner = n.get('inner', [])
                for i, c in enumerate(inner):
                    if c:
                        w(c, (n.get('kind') == 'CallExpr' and i == 0) or
                          (callee and n.get('kind') in ('ImplicitCastExpr', 'ParenExpr')))
            for fn in self.prog.funcs.values():
                w(fn.body)
            for n, _ in self.prog.static_globals_init.values():
                w(n)
            self._fpt = sorted(t)
        return self._fpt

    def of_node(self, n, contracts=None):
        out = set()
        self._walk(n, out, contracts)
        return out

    def _walk(self, n, out, contracts):
        k = n.get('kind')
        if k == 'BinaryOperator' and n['opcode'] == '=':
            out |= self.wkeys(n['inner'][0])
        elif k == 'CompoundAssignOperator':
            out |= self.wkeys(n['inner'][0])
        elif k == 'UnaryOperator' and n['opcode'] in ('++', '--'):
            out |= self.wkeys(n['inner'][0])
        elif k == 'VarDecl':
            if n['id'] in self.statics:
                return
            out.add(('L', n['id']))
        elif k == 'CallExpr':
            self._call(n, out, contracts)
        for c in n.get('inner', []):
            if c:
                self._walk(c, out, contracts)

    def _call(self, n, out, contracts):
        callee = strip(n['inner'][0])
        args = n['inner'][1:]
        name = None
        if callee.get('kind') == 'DeclRefExpr' and callee['referencedDecl']['kind'] == 'FunctionDecl':
            name = callee['referencedDecl']['name']
        if name in self.prog.funcs:
            fn = self.prog.funcs[name]
            if getattr(self, '_collecting', False):
                self._edges.add(name)
            else:
                out |= self.of_func(name)
            for a, p in zip(args, fn.params):
                if 'const' in p['type']['qualType'].split('*')[0]:
                    continue
                self._addr_arg(a, out)
            return
        if name is None:
            # function pointer: command table or signal handler: everything a command may write
            for f in self.fnptr_targets():
                if getattr(self, '_collecting', False):
                    self._edges.add(f)
                else:
                    out |= self.of_func(f)
            return
        if name in ('__ctype_b_loc',):
            return
        if name in ('malloc', 'calloc', 'realloc'):
            out.add(('@alloc', None))
        if name == 'free':
            a = args[0]
            while a['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
                a = a['inner'][0]
            t = self.prog.ptype(a)
            out.add(('@alive:' + (t[1][1] if t[0] == 'ptr' and t[1][0] == 'rec' else 'other'), None))
        if name == '__errno_location':
            return
        pts = param_types(callee['referencedDecl']['type']['qualType'])
        for i, a in enumerate(args):
            pt = pts[i] if i < len(pts) else ''
            if name in PURE_EXT:
                # may still fill an out parameter given as &x
                if name in ('regexec', 'fcntl', 'ioctl', 'tcgetattr', 'sigprocmask', 'sigaction'):
                    pass
                else:
                    continue
            if 'const' in pt.split('*')[0]:
                continue
            self._ptr_arg(a, out)

    def _addr_arg(self, a, out):
        s = strip(a)
        if s.get('kind') == 'UnaryOperator' and s['opcode'] == '&':
            out |= self.wkeys(s['inner'][0])
        elif s.get('kind') == 'ConditionalOperator':
            self._addr_arg(s['inner'][1], out)
            self._addr_arg(s['inner'][2], out)

    def _ptr_arg(self, a, out):
        s = strip(a)
        t = self.prog.ptype(s)
        if s.get('kind') == 'UnaryOperator' and s['opcode'] == '&':
            out |= self.wkeys(s['inner'][0])
        elif t[0] in ('ptr', 'arr'):
            if t[1][0] == 'rec' and t[1][1] in ('_IO_FILE', 'ed_buffer'):
                return
            if s.get('kind') == 'MemberExpr' and t[0] == 'arr':
                out |= self.wkeys(s)
                return
            out |= self.pointee_keys(t[1])

    def own(self, name, known):
        """what function `name` writes in its own text, including the text of callees that are not among the `known`
        functions (helpers that are inlined)"""
        self.of_func(name)
        out, todo, seen = set(), [name], set()
        while todo:
            f = todo.pop()
            if f in seen:
                continue
            seen.add(f)
            out |= self.direct[f]
            todo += [g for g in self.edges[f] if g in self.direct and g not in known]
        return {k for k, p in out}

    def of_func(self, name):
        if not self.cache:
            direct, edges = {}, {}
            for f in self.prog.funcs:
                self._edges = set()
                d = set()
                self._collecting = True
                self._walk(self.prog.funcs[f].body, d, None)
                self._collecting = False
                direct[f] = {x for x in d if x[0] != 'L'}
                edges[f] = self._edges
            for f, ks in OVERRIDE.items():
                if f in direct:
                    direct[f] = set(ks)
                    edges[f] = set()
            self.direct = {f: set(d) for f, d in direct.items()}
            changed = True
            while changed:
                changed = False
                for f in direct:
                    n = len(direct[f])
                    for g in edges[f]:
                        direct[f] |= direct[g]
                    if len(direct[f]) != n:
                        changed = True
            self.cache = direct
            self.edges = edges
        return self.cache[name]


def param_types(q):
    i = q.index('(')
    d = 0
    cur = ''
    out = []
    for ch in q[i + 1:-1]:
        if ch == '(':
            d += 1
        if ch == ')':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out
