"""Shared vocabulary for the terminal-input properties (ConsoleInput.cc)."""
from common import *
import std as _std

SRC = 'src/agent/ConsoleInput.cc'
RE = 'src/agent/ConsoleInputReencoding.cc'
_std.ELEM.setdefault('_INPUT_RECORD', (20, {k: 2 for k in range(0, 20, 2)}))

KEY_EVENT, MOUSE_EVENT = 1, 2
RALT, LALT, RCTRL, LCTRL, SHIFT, ENHANCED = 1, 2, 4, 8, 0x10, 0x100
VK = dict(BACK=8, TAB=9, CLEAR=0xC, RETURN=0xD, SHIFT=0x10, CONTROL=0x11, MENU=0x12, ESCAPE=0x1B, SPACE=0x20, PRIOR=0x21, NEXT=0x22, END=0x23,
          HOME=0x24, LEFT=0x25, UP=0x26, RIGHT=0x27, DOWN=0x28, INSERT=0x2D, DELETE=0x2E, F1=0x70, F2=0x71, F3=0x72, F4=0x73, F5=0x74, F6=0x75,
          F7=0x76, F8=0x77, F9=0x78, F10=0x79, F11=0x7A, F12=0x7B)


class Input:
    """an input buffer of exactly n >= 1 bytes"""

    def __init__(self, E, st, lo=1, name='input', base=None):
        self.a = FArr.base(8, name)
        self.n = z3.BitVec(name + 'Size', 32)
        st.assume(z3.And(self.n >= lo, self.n <= 1 << 24))
        self.ptr = E.new_arr(st, 1, {0: 1}, z3.SignExt(32, self.n), name, {0: self.a})
        E.inputs[name + 'Size'] = self.n
        for i in range(28):
            E.inputs['%s[%d]' % (name, i)] = self.b(i)

    def b(self, i):
        return bv(self.a.read(i), 8)

    def digit(self, i):
        return z3.And(z3.UGE(self.b(i), 48), z3.ULE(self.b(i), 57))


def walk(E, st, I, toks):
    """the reference scanner: -> [(state, result, values)] where result is 0 (not
    this form), -1 (a proper beginning of it) or the length of the match.
    toks: ('c', byte) | ('set', bytes, name) | ('any', name) | ('int', name, signed)"""
    res = []

    def adv(s, i, ti, vals, cont):
        """byte i has been accepted and more must follow"""
        for s2, end in E.fork(s, z3.SignExt(32, I.n) == i + 1):
            if end:
                res.append((s2, -1, vals))
            else:
                cont(s2, i + 1, ti, vals)

    def tok(s, i, ti, vals):
        t = toks[ti]
        last = ti == len(toks) - 1
        if t[0] in ('c', 'set', 'any'):
            b = I.b(i)
            c = b == t[1] if t[0] == 'c' else z3.Or(*[b == x for x in t[1]]) if t[0] == 'set' else z3.BoolVal(True)
            for s2, ok in E.fork(s, c):
                if not ok:
                    res.append((s2, 0, vals))
                    continue
                v2 = vals if t[0] == 'c' else dict(vals, **{t[-1]: b})
                if last:
                    res.append((s2, i + 1, v2))
                else:
                    adv(s2, i, ti + 1, v2, tok)
            return
        if t[2]:
            for s2, neg in E.fork(s, I.b(i) == 45):
                if neg:
                    adv(s2, i, ti, vals, lambda s3, j, tj, v: digits(s3, j, tj, v, 0, w32(0), True))
                else:
                    digits(s2, i, ti, vals, 0, w32(0), False)
            return
        digits(s, i, ti, vals, 0, w32(0), False)

    def digits(s, i, ti, vals, k, acc, neg):
        for s2, d in E.fork(s, I.digit(i)):
            if d:
                if k == 7:
                    res.append((s2, 0, vals))
                    continue
                acc2 = acc * 10 + z3.SignExt(24, I.b(i)) - 48
                adv(s2, i, ti, vals, lambda s3, j, tj, v: digits(s3, j, tj, v, k + 1, acc2, neg))
            elif k == 0:
                res.append((s2, 0, vals))
            else:
                tok(s2, i, ti + 1, dict(vals, **{toks[ti][1]: -acc if neg else acc}))
    tok(st, 0, 0, {})
    return res


CSI = [('c', 0x1b), ('c', ord('['))]
DSR = CSI + [('int', 'row', False), ('c', ord(';')), ('int', 'col', False), ('c', ord('R'))]
M1006 = CSI + [('c', ord('<')), ('int', 'flags', False), ('c', ord(';')), ('int', 'x', True), ('c', ord(';')), ('int', 'y', True), ('set', [ord('M'), ord('m')], 'end')]
M1015 = CSI + [('int', 'flags', False), ('c', ord(';')), ('int', 'x', True), ('c', ord(';')), ('int', 'y', True), ('c', ord('M'))]
MDEF = CSI + [('c', ord('M')), ('any', 'flags'), ('any', 'x'), ('any', 'y')]


def clampw(v, w):
    """the 0-based position, held inside a window of w cells"""
    v, w = bv(v, 32), bv(w, 32)
    return z3.If(v < 0, w32(0), z3.If(v > w - 1, w - 1, v))


def sat16(v):
    v = bv(v, 32)
    return z3.If(v < -32768, w32(-32768), z3.If(v > 32767, w32(32767), v))


def quiet_trace(E):
    """tracing has no effect on the console: the message text is not modelled"""
    handler(E, r'^isTracingEnabled\(', lambda E, st, a, ci: z3.Bool('tracing'), 'isTracingEnabled: any answer')
    handler(E, r'^hasDebugFlag\(', lambda E, st, a, ci: 0, 'hasDebugFlag (debug dumps are off)')


def minmax(E):
    handler(E, r'std::(min|max)<(int|long|short|unsigned int|unsigned long|unsigned long long|long long)>\(', _std.h_minmax, 'std::min / std::max')


def records(E, st, name='records'):
    """a std::vector<INPUT_RECORD> that already holds some records"""
    p = E.new_cells(st, 24, name)
    n0 = z3.BitVec('records0', 64)
    st.assume(z3.ULE(n0, 1 << 32))
    old = {k: FArr.base(16, 'rec.%d' % k) for k in range(0, 20, 2)}
    seq_put(E, st, p, new_seq(E, st, '_INPUT_RECORD', n0, dict(old), False, 'records'))
    return p, n0, old


def rec(E, st, p, i):
    """record i as a dict of its key/mouse event members"""
    q = seq_get(E, st, p)
    f = farrs_of(E, st, q)
    h = lambda o: bv(f[o].read(i), 16)
    d = lambda o: z3.Concat(h(o + 2), h(o))
    return dict(type=h(0), down=d(4), repeat=h(8), vk=h(10), scan=h(12), ch=h(14), state=d(16), X=h(4), Y=h(6), buttons=d(8), ctl=d(12), flags=d(16)), bv(q.len, 64)
