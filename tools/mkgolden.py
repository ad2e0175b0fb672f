"""records the outcomes of the replay sessions on the current (verified) tree"""
import concurrent.futures as cf, json, lzma, os, shutil, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'replay'))
import gen, play
d = tempfile.mkdtemp(prefix='edbuild.')
exe = play.build(d)
d2 = tempfile.mkdtemp(prefix='edbuild.')
exe2 = play.build(d2, flags=('-O1', '-g', '-fsanitize=address,undefined', '-fno-omit-frame-pointer')) if '--asan' in sys.argv else None
os.makedirs(os.path.join(play.HERE, 'golden'), exist_ok=True)
fams = [a for a in sys.argv[1:] if a[0] != '-'] or gen.FAMS
for fam in fams:
    out = {}
    with cf.ThreadPoolExecutor(8) as ex:
        n = gen.COUNT[fam]
        def one(i):
            s = gen.session(fam, i)
            a = play.play(exe, s, timeout=5)
            b = play.play(exe, s, timeout=5)
            c = play.play(exe2, s, timeout=20, env={'ASAN_OPTIONS': 'detect_leaks=0'}) if exe2 else None
            return i, s, a, b, c
        to = nd = 0
        for i, s, a, b, c in ex.map(one, range(n)):
            if a['rc'] == 'timeout':
                to += 1
                print(fam, i, 'TIMEOUT')
                continue
            if a != b:
                nd += 1
                print(fam, i, 'NONDET')
                continue
            if isinstance(a['rc'], int) and a['rc'] < 0:
                print(fam, i, 'SIGNAL', a['rc'])
            if c and ('ERROR: AddressSanitizer' in c['out'] or 'runtime error' in c['out']):
                print(fam, i, 'ASAN', [l for l in c['out'].split('\n') if 'ERROR' in l or 'runtime error' in l][:2])
            out[str(i)] = a
    if '--dry' not in sys.argv:
        with lzma.open(os.path.join(play.HERE, 'golden', fam + '.json.xz'), 'w', preset=9) as f:
            f.write(json.dumps(out, sort_keys=True).encode())
    rcs = {}
    errs = sum(o['out'].count('?\n') for o in out.values())
    for o in out.values():
        rcs[o['rc']] = rcs.get(o['rc'], 0) + 1
    print(fam, len(out), 'timeouts', to, 'nondet', nd, 'rc', rcs, 'errors', errs)
shutil.rmtree(d)
shutil.rmtree(d2)
