"""Replays ed sessions against a program built from the current sources and compares with what the verified tree answered.

golden/<fam>.json.xz holds, for every generated session, the outcome recorded on the tree for which all obligations are
discharged (tools/mkgolden.py).  A session whose outcome differs is a concrete failing input for a violated obligation; the
sessions are never consulted unless an obligation has failed."""
import concurrent.futures as cf
import hashlib
import json
import lzma
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import gen

REPO = os.environ.get('EDVC_REPO', '/repo')
NOBODY = 65534


def build(out, repo=REPO, flags=('-O1', '-g')):
    """compile src/*.c of the working tree in scratch directory out"""
    src = sorted(f for f in os.listdir(os.path.join(repo, 'src')) if f.endswith('.c'))
    inc = ['-DHAVE_CONFIG_H', '-I' + repo + '/src', '-I' + repo, '-I' + repo + '/lib', '-I' + repo + '/include',
           '-DLOCALEDIR="/usr/local/share/locale"', '-DRE_ENABLE_I18N=1', '-w']
    mk = open(os.path.join(repo, 'src', 'Makefile')).read()
    import re
    m = re.search(r'^ed_SOURCES *=((?:.*\\\n)*.*)', mk, re.M)
    if m:
        src = [f for f in m.group(1).replace('\\', ' ').split() if f.endswith('.c') and os.path.exists(os.path.join(repo, 'src', f))]

    def cc(f):
        o = os.path.join(out, f[:-2] + '.o')
        p = subprocess.run(['gcc', *flags, *inc, '-c', os.path.join(repo, 'src', f), '-o', o], capture_output=True, text=True)
        return o, p
    with cf.ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(cc, src))
    bad = [p.stderr for o, p in rs if p.returncode]
    if bad:
        raise RuntimeError('compile: ' + bad[0][:500])
    exe = os.path.join(out, 'ed')
    libs = [l for l in (os.path.join(repo, 'lib/libgnu.a'),) if os.path.exists(l)]
    p = subprocess.run(['gcc', *flags, '-o', exe] + [o for o, _ in rs] + libs + ['-lssl', '-lcrypto'], capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError('link: ' + p.stderr[:500])
    red = os.path.join(out, 'red')
    if not os.path.exists(red):
        os.link(exe, red)
    os.chmod(out, 0o755)
    return exe


def demote():
    try:
        if os.getuid() == 0:
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
    except OSError:
        os._exit(77)


def can_demote():
    try:
        return subprocess.run(['/bin/true'], preexec_fn=demote).returncode == 0
    except Exception:
        return False


def contained():
    """sessions run as nobody; where that cannot be, only in a user namespace (where root is nobody outside)"""
    if os.getuid() != 0 or can_demote():
        return True
    return open('/proc/self/uid_map').read().split() != ['0', '0', '4294967295']


DEMOTE = can_demote() if os.getuid() == 0 else False


def play(exe, s, timeout=10, env=None, wrap=()):
    """outcome of a session: what it printed, its status, the files it left"""
    d = tempfile.mkdtemp(prefix='edplay.')
    try:
        w = os.path.join(d, 'w')
        os.makedirs(w)
        enc = lambda t: t.encode('utf-8' if s.get('utf8') else 'latin-1')
        for n, t in s['files'].items():
            p = os.path.join(w, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(t.encode('latin-1'))
        os.chmod(d, 0o755)
        for r, ds, fs in os.walk(w):
            for f in [r] + [os.path.join(r, f) for f in fs]:
                if DEMOTE:
                    os.chown(f, NOBODY, NOBODY)
        e = dict(PATH='/usr/bin:/bin', HOME=w, TMPDIR=w, LC_ALL='C', SHELL='/bin/sh')
        e.update(s.get('env') or {})
        e.update(env or {})
        prog = exe if s.get('prog', 'ed') == 'ed' else os.path.join(os.path.dirname(exe), 'red')
        try:
            p = subprocess.run(list(wrap) + [prog] + s['args'], input=enc(s['stdin']), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=w, env=e,
                               timeout=timeout, preexec_fn=demote if DEMOTE else None, start_new_session=True)
            rc, out = p.returncode, p.stdout
        except subprocess.TimeoutExpired as x:
            rc, out = 'timeout', (x.stdout or b'')[:2000]
        files = {}
        for r, ds, fs in os.walk(w):
            for f in sorted(fs):
                p = os.path.join(r, f)
                try:
                    files[os.path.relpath(p, w)] = open(p, 'rb').read().decode('latin-1')
                except OSError:
                    pass
        # what is unchanged need not be reported
        files = {n: t for n, t in files.items() if s['files'].get(n) != t}
        gone = [n for n in s['files'] if not os.path.exists(os.path.join(w, n))]
        out = out.decode('latin-1').replace(os.path.dirname(prog) + '/', '').replace(w, 'W')
        if 'ERROR: AddressSanitizer' in out:
            # addresses and process numbers differ between runs
            import re
            return dict(rc=rc, out='\n'.join(re.findall(r'SUMMARY: .*|(?:READ|WRITE) of size \d+', out)), files={}, gone=gone)
        return dict(rc=rc, out=out if len(out) < 20000 else hashlib.sha1(out.encode('latin-1')).hexdigest(),
                    files={n: t if len(t) < 20000 else hashlib.sha1(t.encode('latin-1')).hexdigest() for n, t in files.items()}, gone=gone)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def golden(fam):
    p = os.path.join(HERE, 'golden', fam + '.json.xz')
    if not os.path.exists(p):
        return {}
    return json.loads(lzma.open(p).read())


def search(exe, fams, budget=150, limit=1, env=None):
    """sessions whose outcome differs from the recorded one"""
    t0 = time.time()
    found = []
    tried = 0
    with cf.ThreadPoolExecutor(8) as ex:
        for fam in fams:
            g = golden(fam)
            todo = sorted(g, key=int)
            for k in range(0, len(todo), 64):
                if time.time() - t0 > budget:
                    return found, tried
                part = todo[k:k + 64]
                ss = [gen.session(fam, int(i)) for i in part]
                for i, s, o in zip(part, ss, ex.map(lambda s: play(exe, s, env=env, timeout=20 if env else 10), ss)):
                    tried += 1
                    if o != g[i]:
                        if o['rc'] == -13:
                            continue                        # a command ended before its input was written: depends on timing
                        again = [play(exe, s, timeout=20, env=env) for _ in range(3)]       # a difference must repeat
                        o2 = again[-1]
                        if all(x != g[i] and x['rc'] != -13 for x in again) and (o2 == o or o2['rc'] == 'timeout' or isinstance(o2['rc'], int) and o2['rc'] < 0):
                            found.append(dict(family=fam, session=int(i), args=s['args'], env=s['env'], files=s['files'], stdin=s['stdin'],
                                              expected=g[i], got=o2))
                            if len(found) >= limit:
                                return found, tried
    return found, tried


FIRST = dict(C01='edit io regs', C02='undo edit', C03='edit addr page', C04='addr edit', C05='long edit', C06='io mod', C07='io long', C08='mod io',
             C09='marks edit glob', C10='glob', C11='edit io', C12='restr', C13='subst', C14='utf8 list', C15='list', C16='regs', C17='grow long subst utf8', C18='cmds',
             C19='page')


def order(prop):
    f = FIRST.get(prop, '').split()
    return f + [g for g in gen.FAMS if g not in f]


ASAN = ('-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer')


def replay(fams, budget=150, repo=REPO, asan=False):
    if not contained():
        return None
    d = tempfile.mkdtemp(prefix='edbuild.')
    try:
        exe = build(d, repo, ASAN) if asan else build(d, repo)
        found, tried = search(exe, fams, budget, env=dict(ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1') if asan else None)
        return found[0] if found else None
    finally:
        shutil.rmtree(d, ignore_errors=True)
