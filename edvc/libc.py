"""Models of library functions.  Everything else is treated as: unknown result,
non-const pointee arguments forgotten (see Executor.ext_call)."""
import z3
from sym import *


def alive(ex, st, tag):
    return ex.mem(st, '@alive:' + tag)


def tag_of(ty):
    return ty[1][1] if ty[0] == 'ptr' and ty[1][0] == 'rec' else 'other'


def m_malloc(ex, st, args, n, ty):
    s0 = st.copy()
    r = fresh('new')
    tag = tag_of(ex.alloc_ty) if ex.alloc_ty else 'other'
    ex.alloc_ty = None
    st.assume(And(r > 0, r < GLOBAL_BASE))
    for t in ex.view.track_alive:
        st.assume(eq(alive(ex, st, t).read(r), 0))
    ex.wr(st, '@alive:' + tag, r, 1)
    st.fr.append(r)
    for x in list(st.fr)[:-1]:
        pass
    ex.view.on_alloc(ex, st, r, tag)
    st.trace.append((n.get('ln', 0), 'malloc ok'))
    s0.trace.append((n.get('ln', 0), 'malloc fails'))
    if ex.view.malloc_never_fails:
        return [(Val(r, ty), st)]
    return [(Val(r, ty), st), (Val(0, ty), s0)]


def m_realloc(ex, st, args, n, ty):
    return m_malloc(ex, st, args, n, ty)


def m_free(ex, st, args, n, ty):
    p = args[0].i()
    a = n['inner'][1]
    while a['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
        a = a['inner'][0]
    tag = tag_of(ex.prog.ptype(a))
    ex.view.on_free(ex, st, p, tag, n)
    if ex.view.check_free:
        ex.oblige(st, 'freed pointer is a live allocation', Or(eq(p, 0), eq(alive(ex, st, tag).read(p), 1)), n.get('ln', 0), 'mem')
    ex.wr(st, '@alive:' + tag, p, 0)
    return [(Val(0, VOID), st)]


VOID = ('void',)


def m_noreturn(ex, st, args, n, ty):
    ex.view.on_exit(ex, st, n)
    return []


def m_strlen(ex, st, args, n, ty):
    t = fresh('strlen')
    st.assume(And(t >= 0, t < (1 << 46)))
    return [(Val(t, ty), st)]


def m_str(ex, st, args, n, ty):
    t = fresh('text')
    st.assume(And(t > 0, t < GLOBAL_BASE))
    return [(Val(t, ty), st)]


def m_errno(ex, st, args, n, ty):
    return [(Val(GLOBAL_BASE - 64, ty), st)]


EXT = {
    'malloc': m_malloc, 'calloc': m_malloc, 'realloc': m_realloc, 'free': m_free,
    '_exit': m_noreturn, 'exit': m_noreturn, 'abort': m_noreturn, 'siglongjmp': m_noreturn, 'longjmp': m_noreturn,
    'strlen': m_strlen, 'dcgettext': m_str, 'gettext': m_str, 'strerror': m_str, '__errno_location': m_errno,
}
