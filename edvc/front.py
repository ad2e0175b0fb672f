"""Front end: turns the *current* C sources of /repo into a Program.

The text that is verified is what clang parses with the real configuration
(config.h and the real include path).  Nothing is rewritten by hand.  What the
extraction drops: declarations that the translation unit does not define
(system headers) and attributes; floating point is not supported.
"""
import json, os, re, subprocess, hashlib, pickle, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('EDVC_REPO', '/repo')
SRCS = None


def cflags(repo=None):
    repo = repo or REPO
    return ['-DHAVE_CONFIG_H', '-I' + repo + '/src', '-I' + repo, '-I' + repo + '/lib',
            '-I' + repo + '/include', '-DLOCALEDIR="/usr/local/share/locale"']


def sources(repo=None):
    repo = repo or REPO
    """the C files that make up src/ed, in the order of the Makefile variable when present"""
    d = repo + '/src'
    return sorted(f for f in os.listdir(d) if f.endswith('.c'))


# ---------------------------------------------------------------- types
VOID = ('void',)
INT = ('int', 32, True)
UINT = ('int', 32, False)
LONG = ('int', 64, True)
ULONG = ('int', 64, False)
CHAR = ('int', 8, True)
UCHAR = ('int', 8, False)
BUILTIN = {
    'int': INT, 'signed int': INT, 'signed': INT, 'unsigned int': UINT, 'unsigned': UINT,
    'long': LONG, 'long int': LONG, 'unsigned long': ULONG, 'long long': LONG,
    'unsigned long long': ULONG, 'char': CHAR, 'signed char': CHAR, 'unsigned char': UCHAR,
    'short': ('int', 16, True), 'unsigned short': ('int', 16, False), '_Bool': ('int', 8, False),
    'void': VOID, 'float': ('float',), 'double': ('float',), 'long double': ('float',),
    '__int128': ('int', 128, True), 'unsigned __int128': ('int', 128, False),
}


def ptr(t):
    return ('ptr', t)


class Types:
    def __init__(self):
        self.typedefs = {}     # name -> type string or ('rec',tag)
        self.records = {}      # tag -> [(field, typestr)]
        self.isunion = set()
        self.cache = {}
        self._layout = {}

    def parse(self, s):
        if s in self.cache:
            return self.cache[s]
        t = self._parse(s)
        self.cache[s] = t
        return t

    def _parse(self, s):
        s = s.strip()
        s = re.sub(r'\b(const|volatile|restrict|__restrict|register|static|extern)\b', ' ', s)
        s = re.sub(r'\s+', ' ', s).strip()
        s = re.sub(r'__attribute__\(\(.*?\)\)', '', s).strip()
        if '(*' in s:                       # pointer to function (or to array)
            m = re.match(r'^(.*)\(\*+(?:\[(\d+)\])?\)\((.*)\)$', s)
            if m and m.group(2):
                return ('arr', ('ptr', ('func', VOID)), int(m.group(2)))
            return ('ptr', ('func', VOID))
        if s.endswith(')'):
            i = s.index('(')
            return ('func', self.parse(s[:i]))
        m = re.match(r'^(.*?)((?:\[\d*\])+)$', s)
        if m:
            base = m.group(1)
            dims = re.findall(r'\[(\d*)\]', m.group(2))
            t = self.parse(base)
            for d in reversed(dims):
                t = ('arr', t, int(d) if d else 0)
            return t
        if s.endswith('*'):
            return ('ptr', self.parse(s[:-1]))
        if s in BUILTIN:
            return BUILTIN[s]
        if s.startswith('struct ') or s.startswith('union '):
            return ('rec', s.split(' ', 1)[1])
        if s.startswith('enum '):
            return UINT
        if s in self.typedefs:
            u = self.typedefs[s]
            if isinstance(u, tuple):
                return u
            if u == s:
                return ('rec', s)
            return self.parse(u)
        if s in ('__builtin_va_list', '__va_list_tag'):
            return ('rec', '__va_list')
        return ('rec', s)

    def size(self, t):
        k = t[0]
        if k == 'int':
            return t[1] // 8
        if k == 'ptr':
            return 8
        if k == 'arr':
            return t[2] * self.size(t[1])
        if k == 'rec':
            return self.layout(t[1])[1]
        if k == 'float':
            return 8
        return 1

    def align(self, t):
        k = t[0]
        if k == 'arr':
            return self.align(t[1])
        if k == 'rec':
            return self.layout(t[1])[2]
        return max(1, self.size(t))

    def layout(self, tag):
        """{field: (offset, type)}, size, align"""
        if tag in self._layout:
            return self._layout[tag]
        offs = {}
        o = 0
        al = 1
        mx = 0
        for f, ts in self.records.get(tag, []):
            t = self.parse(ts) if isinstance(ts, str) else ts
            a = self.align(t)
            al = max(al, a)
            if tag in self.isunion:
                offs[f] = (0, t)
                mx = max(mx, self.size(t))
            else:
                o = (o + a - 1) // a * a
                offs[f] = (o, t)
                o += self.size(t)
        sz = max(o, mx)
        sz = (sz + al - 1) // al * al
        r = (offs, max(sz, 1), al)
        self._layout[tag] = r
        return r


class Func:
    __slots__ = ('name', 'file', 'node', 'params', 'body', 'ret', 'static', 'line', 'hash')


class Program:
    def __init__(self):
        self.types = Types()
        self.funcs = {}
        self.globals = {}     # name -> typestr
        self.errors = []
        self.statics = {}     # func -> [(name, typestr, initnode)]
        self.static_globals_init = {}

    def ptype(self, node):
        t = node.get('type', {})
        return self.types.parse(t.get('desugaredQualType') or t.get('qualType'))


def _lines(n, cur):
    """attach 'ln' (line of first token, expansion location) to every node, in dump order"""
    for k, v in n.items():
        if k == 'loc':
            cur = _locline(v, cur)[0]
        elif k == 'range':
            cur, ln = _locline(v.get('begin', {}), cur)
            n_ln = ln
            cur, _ = _locline(v.get('end', {}), cur)
        elif k == 'inner':
            for c in v:
                if c:
                    cur = _lines(c, cur)
    if 'range' in n:
        n['ln'] = n_ln
        del n['range']
    return cur


def _locline(l, cur):
    """-> (current line after printing, expansion line)"""
    if 'spellingLoc' in l or 'expansionLoc' in l:
        ex = cur
        for k, v in l.items():
            if k in ('spellingLoc', 'expansionLoc'):
                if 'line' in v:
                    cur = v['line']
                ex = cur
        return cur, ex
    if 'line' in l:
        cur = l['line']
    return cur, cur


def _one(arg):
    repo, f = arg
    p = subprocess.run(['clang', '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json'] + cflags(repo) +
                       [repo + '/src/' + f], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if not p.stdout:
        raise RuntimeError('clang produced no AST for %s: %s' % (f, p.stderr.decode()[:500]))
    tu = json.loads(p.stdout)
    res = {'file': f, 'err': p.stderr.decode()[:2000] if p.returncode else None, 'records': {}, 'unions': set(),
           'typedefs': {}, 'globals': {}, 'ginit': {}, 'funcs': [], 'enums': {}, 'protos': {}}
    pfx = f + ':'
    anon = {}

    def record(n):
        tag = n.get('name')
        if not tag:
            tag = 'anon@' + f + n['id']
            anon[n['id']] = tag
        if n.get('completeDefinition'):
            fl = []
            last_anon = None
            for c in n.get('inner', []):
                if c.get('kind') == 'RecordDecl':
                    record(c)
                    last_anon = c
                elif c.get('kind') == 'FieldDecl':
                    ts = c['type'].get('desugaredQualType') or c['type']['qualType']
                    if last_anon is not None and ('unnamed' in ts or 'anonymous' in ts) and '*' not in ts:
                        ts = ('rec', anon.get(last_anon['id'], last_anon.get('name')))
                    fl.append((c.get('name', '?anon%d' % len(fl)), ts))
            res['records'].setdefault(tag, fl)
            if n.get('tagUsed') == 'union':
                res['unions'].add(tag)
        for c in n.get('inner', []):
            if c.get('kind') == 'EnumDecl':
                enum(c)

    def cval(x):
        if 'value' in x:
            return int(x['value'])
        for c in x.get('inner', []):
            r = cval(c)
            if r is not None:
                return r
        return None

    def enum(n):
        nxt = 0
        for c in n.get('inner', []):
            if c.get('kind') == 'EnumConstantDecl':
                v = None
                for q in c.get('inner', []):
                    v = cval(q)
                if v is None:
                    v = nxt
                res['enums'][c['name']] = v
                nxt = v + 1

    cur = 0
    for n in tu['inner']:
        cur = _lines(n, cur)
        k = n.get('kind')
        if k == 'RecordDecl':
            record(n)
        elif k == 'EnumDecl':
            enum(n)
        elif k == 'TypedefDecl':
            ts = n['type'].get('qualType')
            dec = None
            for c in n.get('inner', []):
                for q in [c] + c.get('inner', []):
                    od = q.get('ownedTagDecl') or q.get('decl')
                    if od and od.get('kind') == 'RecordDecl' and not od.get('name') \
                            and od['id'] in anon and not ts.rstrip().endswith(('*', ']', ')')):
                        dec = anon[od['id']]
            if dec:
                res['records'].setdefault(n['name'], res['records'].get(dec, []))
                if dec in res['unions']:
                    res['unions'].add(n['name'])
                res['typedefs'][n['name']] = ('rec', n['name'])
            else:
                res['typedefs'].setdefault(n['name'], ts)
        elif k == 'VarDecl':
            res['globals'].setdefault(n['name'], n['type'].get('desugaredQualType') or n['type']['qualType'])
            if n.get('inner') and n.get('storageClass') != 'extern' and not _in_header(n):
                _prefix_ids(n, pfx)
                res['ginit'][n['name']] = n
        elif k == 'FunctionDecl':
            body = any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', []))
            if body and n.get('storageClass') != 'extern' and not _in_header(n):
                _prefix_ids(n, pfx)
                res['funcs'].append(n)
    return res


def load(repo=None, procs=8):
    repo = repo or REPO
    prog = Program()
    prog.enums = {}
    prog.repo = repo
    files = sources(repo)
    import multiprocessing as mp
    with mp.get_context('fork').Pool(procs) as pool:
        rs = pool.map(_one, [(repo, f) for f in files], chunksize=1)
    T = prog.types
    for r in rs:
        if r['err']:
            prog.errors.append((r['file'], r['err']))
        for k, v in r['records'].items():
            if not T.records.get(k):
                T.records[k] = v
        T.isunion |= r['unions']
        for k, v in r['typedefs'].items():
            T.typedefs.setdefault(k, v)
        prog.enums.update(r['enums'])
        for k, v in r['globals'].items():
            prog.globals.setdefault(k, v)
        for k, v in r['ginit'].items():
            prog.static_globals_init[k] = (v, r['file'])
        for n in r['funcs']:
            fn = Func()
            fn.name = n['name']
            fn.file = r['file']
            fn.node = n
            fn.params = [c for c in n.get('inner', []) if c.get('kind') == 'ParmVarDecl']
            fn.body = [c for c in n['inner'] if c.get('kind') == 'CompoundStmt'][0]
            fn.static = n.get('storageClass') == 'static'
            fn.line = n.get('ln', 0)
            q = n['type']['qualType']
            fn.ret = q[:q.index('(')].strip()
            if n['name'] in prog.funcs:
                prog.errors.append((r['file'], 'duplicate function name ' + n['name']))
            prog.funcs[n['name']] = fn
    return prog


def _in_header(n):
    loc = n.get('loc', {})
    for l in (loc, loc.get('spellingLoc', {}), loc.get('expansionLoc', {})):
        if 'includedFrom' in l:
            return True
    return False


def _prefix_ids(n, pfx):
    if isinstance(n, dict):
        if 'id' in n:
            n['id'] = pfx + n['id']
        for v in n.values():
            if isinstance(v, (dict, list)):
                _prefix_ids(v, pfx)
    elif isinstance(n, list):
        for v in n:
            if isinstance(v, (dict, list)):
                _prefix_ids(v, pfx)


