import os, json
from execu import *
HERE = os.path.dirname(os.path.abspath(__file__))
BASE = set(json.load(open(os.path.join(HERE, '..', 'edvc', 'baseline.json'))))


class BView(View):
    """functions of the pinned commit are verified on their own and called by contract or computed frame;
    a function that is not among them (an extracted helper, a renamed function) is inlined into its callers"""

    def __init__(self, prog):
        super().__init__(prog.enums)
        self.prog = prog
        self.known = set(BASE)

    def should_inline(self, ex, name):
        return name in self.inlines or name not in self.known


def by_size(prog, names):
    def size(n):
        return 1 + sum(size(c) for c in n.get('inner', []) if c)
    return sorted([f for f in names if f in prog.funcs], key=lambda f: -size(prog.funcs[f].body))
