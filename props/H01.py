from common import *

TU_OH = tu('ownedhandle.cc')
SRCS = [TU_OH]
INV = w64(2 ** 64 - 1)


def setup(ctx):
    E = ctx.mk([TU_OH])
    st = State()
    # handles closed so far: the last value closed, how often CloseHandle succeeded / was called
    g(st, n=0, calls=0, last=w64(0))

    def close(E, s, args, ci):
        h = hv(args[0])
        E.oblige(s, z3.And(h != 0, h != INV), 'precondition', 'never closes an invalid or null handle')
        a, b = s.copy(), s
        g(a, n=a.ghost['n'] + 1, calls=a.ghost['calls'] + 1, last=h)
        g(b, calls=b.ghost['calls'] + 1)
        return Outs([(a, Ret(1)), (b, Ret(0))])
    handler(E, r'^CloseHandle$', close, 'CloseHandle closes the handle, or fails and closes nothing')
    handler(E, r'^throwWindowsError\(', lambda E, s, a, ci: Throw('@_ZTI15WinptyException', E.new_cells(s, 16, 'exc')), 'throwWindowsError throws a WinptyException')
    handler(E, r'^GetLastError$', lambda E, s, a, ci: fresh('err', 32), 'GetLastError returns any code')
    return E, st


def obj(E, st, name, h):
    V = new_object(E, st, 'OwnedHandle', name)
    V.set(st, 'm_h', Ptr(0, h))
    return V


def held(V, s):
    return hv(V.get(s, 'm_h', True))


def valid(h):
    return z3.And(h != 0, h != INV)


def unit_simple(ctx):
    E, st = setup(ctx)
    h = z3.BitVec('h', 64)
    V = new_object(E, st, 'OwnedHandle', 'a')
    for s, o in E.exec_fn(st.copy(), E.find_fn(r'^e_default'), [V.ptr]):
        E.oblige(s, held(V, s) == 0, 'postcondition', 'a new owner is empty')
    for s, o in E.exec_fn(st.copy(), E.find_fn(r'^e_ctor'), [V.ptr, Ptr(0, h)]):
        E.oblige(s, held(V, s) == h, 'postcondition', 'takes the handle')
        E.oblige(s, s.ghost['calls'] == 0, 'postcondition', 'taking a handle closes nothing')
    V = obj(E, st, 'b', h)
    for s, o in E.exec_fn(st.copy(), E.find_fn(r'^e_get'), [V.ptr]):
        E.oblige(s, hv(o.v) == h, 'postcondition', 'get returns the handle')
        E.oblige(s, held(V, s) == h, 'frame', 'get changes nothing')
    for s, o in E.exec_fn(st.copy(), E.find_fn(r'^e_release'), [V.ptr]):
        E.oblige(s, hv(o.v) == h, 'postcondition', 'release returns the handle')
        E.oblige(s, held(V, s) == 0, 'postcondition', 'release leaves the owner empty')
        E.oblige(s, s.ghost['calls'] == 0, 'postcondition', 'release closes nothing')
    W = obj(E, st, 'c', z3.BitVec('junk', 64))
    for s, o in E.exec_fn(st.copy(), E.find_fn(r'^e_move'), [W.ptr, V.ptr]):
        E.oblige(s, held(W, s) == h, 'postcondition', 'a move takes the handle')
        E.oblige(s, held(V, s) == 0, 'postcondition', 'a move leaves the source empty')
        E.oblige(s, s.ghost['calls'] == 0, 'postcondition', 'a move closes nothing')


def unit_dispose(ctx):
    for nothrow in (0, 1, None):
        E, st = setup(ctx)
        h = z3.BitVec('h', 64)
        V = obj(E, st, 'a', h)
        it = E.exec_fn(st, E.find_fn(r'^OwnedHandle::dispose\('), [V.ptr, nothrow]) if nothrow is not None else E.exec_fn(st, E.find_fn(r'^e_dtor'), [V.ptr])
        for s, o in it:
            n, c = s.ghost['n'], s.ghost['calls']
            E.oblige(s, c <= 1, 'postcondition', 'one attempt to close')
            if isinstance(o, Throw):
                E.oblige(s, nothrow == 0, 'exception', 'only a dispose that may throw throws')
                E.oblige(s, n == 0, 'postcondition', 'fails only when nothing was closed')
                continue
            E.oblige(s, c == 1 if E.must(s, valid(h)) else (z3.Not(valid(h)) if c == 0 else False), 'postcondition', 'a valid held handle is closed, nothing else')
            if n == 1:
                E.oblige(s, s.ghost['last'] == h, 'postcondition', 'the held handle is the one closed')
            if nothrow is not None:
                E.oblige(s, held(V, s) == 0, 'postcondition', 'dispose leaves the owner empty')
                E.oblige(s, n == c if nothrow == 0 else True, 'postcondition', 'success means closed')


def unit_assign(ctx):
    E, st = setup(ctx)
    h, k = z3.BitVec('h', 64), z3.BitVec('k', 64)
    A, B = obj(E, st, 'a', h), obj(E, st, 'b', k)
    for s, o in E.exec_fn(st.copy(), E.find_fn(r'^e_assign'), [A.ptr, B.ptr]):
        n, c = s.ghost['n'], s.ghost['calls']
        if isinstance(o, Throw):
            E.oblige(s, n == 0, 'postcondition', 'fails only when nothing was closed')
            E.oblige(s, held(B, s) == k, 'postcondition', 'a failed assignment leaves the source its handle')
            continue
        E.oblige(s, held(A, s) == k, 'postcondition', 'takes the new handle')
        E.oblige(s, held(B, s) == 0, 'postcondition', 'the source is empty')
        E.oblige(s, s.ghost['last'] == h if n == 1 else (z3.Not(valid(h)) if n == 0 else False), 'postcondition', 'the replaced handle is closed exactly once')
    # onto itself: closed at most once, nothing owned twice
    for s, o in E.exec_fn(st.copy(), E.find_fn(r'^e_assign'), [A.ptr, A.ptr]):
        n, c = s.ghost['n'], s.ghost['calls']
        if isinstance(o, Ret):
            E.oblige(s, n <= 1, 'postcondition', 'self-assignment closes at most once')
            E.oblige(s, held(A, s) == 0 if n else True, 'postcondition', 'a closed handle is no longer held')


UNITS = [('construct, move, release', unit_simple), ('dispose and destroy', unit_dispose), ('move assignment', unit_assign)]
HARNESS = ['h_h01']
ASSUMPTIONS = ['a handle value is given to one owner only (the callers create it from the operating system); the per-method contracts then give exactly-once closing over any history']
RULE = 'harness: random histories of construction, moves, releases, assignments, disposal (with CloseHandle sometimes failing) and destruction over a pool of owners, closes recorded by a stand-in; distinct = histories by hash'
