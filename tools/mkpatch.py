"""mkpatch.py SEED: build seeded/SEED/patch.diff from seeded/SEED/edits.json-like stdin
   stdin: JSON [[file, old, new], ...]; old must occur exactly once in /repo's HEAD."""
import sys, json, subprocess, os, tempfile, difflib
sid = sys.argv[1]
edits = json.load(sys.stdin)
files = {}
for f, old, new in edits:
    if f not in files:
        src = subprocess.check_output(['git', '-C', '/repo', 'show', 'HEAD:' + f]).decode()
        files[f] = [src, src]
    n = files[f][1].count(old)
    if n != 1:
        sys.exit('%s: %d occurrences of %r' % (f, n, old))
    files[f][1] = files[f][1].replace(old, new)
out = ''
for f, (a, b) in files.items():
    out += 'diff --git a/%s b/%s\n' % (f, f) + ''.join(
        difflib.unified_diff(a.splitlines(True), b.splitlines(True), 'a/' + f, 'b/' + f))
d = '/verif/seeded/' + sid
os.makedirs(d, exist_ok=True)
open(d + '/patch.diff', 'w').write(out)
