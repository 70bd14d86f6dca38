"""The default key table: the registrations made by the real code (each InputMap::set call by
its contract) are collected by symbolic execution -- everything is concrete here -- and
compared with the documented table, written down independently below."""
from conin import *

SRCS = ['src/agent/DefaultInputMap.cc']
LIMIT = 600
DEPS = ['I05']
HARNESS = [('h_input', ['--mode', 'i06'])]
sSHIFT, sLALT, sCTRL, sENH = SHIFT, LALT, LCTRL, ENHANCED
E_ = '\x1b'
SPECIAL = {VK[k] for k in ('UP', 'DOWN', 'LEFT', 'RIGHT', 'INSERT', 'DELETE', 'HOME', 'END', 'PRIOR', 'NEXT')}


def mod_state(m):
    m -= 1
    return (sSHIFT if m & 1 else 0) | (sLALT if m & 2 else 0) | (sCTRL if m & 4 else 0)


def documented():
    T = {}

    def put(s, vk, ch, st):
        if st & sCTRL and chr(ch) in '+-*/':
            ch = 0
        if st & sCTRL and vk == VK['RETURN']:
            ch = 10
        T[s] = (vk, ch, st | (sENH if vk in SPECIAL else 0))

    def both(alt, s, vk, ch, st):
        if alt:
            put(E_ + s, vk, ch, st | sLALT)
        put(s, vk, ch, st)

    def plain(alt, pre, i, vk, ch=0, st=0):
        both(alt, E_ + pre + i, vk, ch, st)

    def bare(alt, pre, i, vk, ch=0, st=0):          # ESC [ 5 A
        for m in range(2, 9):
            both(alt, E_ + pre + str(m) + i, vk, ch, st | mod_state(m))

    def semi(alt, pre, i, vk, ch=0, st=0):          # ESC [ 1 ; 5 A
        for m in range(2, 9):
            both(alt, E_ + pre + '1;' + str(m) + i, vk, ch, st | mod_state(m))
    # cursor keys: xterm, putty (ESC O), rxvt shift (lower case), rxvt control (ESC O, lower case)
    for c, k in zip('ABCD', ('UP', 'DOWN', 'RIGHT', 'LEFT')):
        for f in (plain, bare, semi):
            f(True, '[', c, VK[k])
        plain(True, 'O', c, VK[k])
        plain(True, '[', c.lower(), VK[k], 0, sSHIFT)
        plain(True, 'O', c.lower(), VK[k], 0, sCTRL)
    # keypad 5
    for c in 'EG':
        plain(True, '[', c, VK['CLEAR'])
        semi(True, '[', c, VK['CLEAR'])
    plain(True, 'O', 'G', VK['CLEAR'])
    for c, k in zip('HF', ('HOME', 'END')):
        for f in (plain, bare, semi):
            f(True, '[', c, VK[k])
        plain(True, 'O', c, VK[k])
    # F1..F4: xterm, VTE (ESC O 1 ; m), Konsole (ESC O m)
    for i, c in enumerate('PQRS'):
        semi(True, '[', c, VK['F1'] + i)
        for f in (plain, bare, semi):
            f(False, 'O', c, VK['F1'] + i)
    # application keypad
    for c, vk, ch in (('M', 0x0d, '\r'), ('j', 0x6a, '*'), ('k', 0x6b, '+'), ('m', 0x6d, '-'), ('n', VK['DELETE'], '\0'), ('o', 0x6f, '/'), ('p', VK['INSERT'], '\0'),
                      ('q', VK['END'], '\0'), ('r', VK['DOWN'], '\0'), ('s', VK['NEXT'], '\0'), ('t', VK['LEFT'], '\0'), ('u', VK['CLEAR'], '\0'),
                      ('v', VK['RIGHT'], '\0'), ('w', VK['HOME'], '\0'), ('x', VK['UP'], '\0'), ('y', VK['PRIOR'], '\0')):
        plain(True, 'O', c, vk, ord(ch))
        bare(True, 'O', c, vk, ord(ch))
        plain(True, '[', c, vk, ord(ch))
        semi(True, '[', c, vk, ord(ch))
    plain(False, '[', 'Z', VK['TAB'], 9, sSHIFT)
    # numbered keys; the last character is ~, or in rxvt $ (shift), ^ (control), @ (both)
    F = lambda n: VK['F1'] + n - 1
    num = [(1, VK['HOME'], 0), (2, VK['INSERT'], 0), (3, VK['DELETE'], 0), (4, VK['END'], 0), (5, VK['PRIOR'], 0), (6, VK['NEXT'], 0), (7, VK['HOME'], 0), (8, VK['END'], 0)]
    num += [(n, F(k), 0) for k, n in enumerate((11, 12, 13, 14, 15, 17, 18, 19, 20, 21, 23, 24), 1)]
    num += [(n, F(k), sSHIFT) for k, n in enumerate((25, 26, 28, 29, 31, 32, 33, 34), 3)]
    for n, vk, st in num:
        for suf, ss in (('~', 0), ('$', sSHIFT), ('^', sCTRL), ('@', sSHIFT | sCTRL)):
            both(True, E_ + '[%d' % n + suf, vk, 0, st | ss)
            for m in range(2, 9):
                both(True, E_ + '[%d;%d' % (n, m) + suf, vk, 0, st | ss | mod_state(m))
    put('\x7f', VK['BACK'], 8, 0)
    put(E_ + '\x7f', VK['BACK'], 8, sLALT)
    put('\x03', ord('C'), 3, sCTRL)
    for i in range(5):                                # linux console
        both(True, E_ + '[[' + chr(65 + i), F(i + 1), 0, 0)
    return T


def show(s):
    return ' '.join('ESC' if c == E_ else c if 32 < ord(c) < 127 else '%#x' % ord(c) for c in s)


def unit_table(ctx):
    E = ctx.mk(SRCS)
    E.unroll = 2000
    quiet_trace(E)
    st = State()
    this = E.new_cells(st, 1 << 12, 'inputMap')
    got = {}

    def set_(E, s, a, ci):
        n = a[2]
        E.oblige(s, (0 < n < 64) if isinstance(n, int) else False, 'precondition', 'a sequence of at least one byte is registered')
        E.oblige(s, a[0].oid == this.oid, 'precondition', 'the sequence is registered in the given table')
        b = []
        for i in range(n):
            p = Ptr(a[1].oid, add64(a[1].off, i))
            b.append(E.load(s, p, ('i', 8), ci.mod))
        k = [E.load_raw(s, Ptr(a[3].oid, add64(a[3].off, o)), w, None) for o, w in ((0, 2), (4, 4), (8, 2))]
        if not all(isinstance(x, int) for x in b + k):
            raise Unsupported('the table is not constant')
        got[''.join(map(chr, b))] = tuple(k)
        return None
    contract(E, r'InputMap::set\(', set_, 'InputMap::set (verified by I05): the sequence now has this key, others keep theirs')
    f = E.find_fn(r'addDefaultEntriesToInputMap\(')
    n = 0
    doc = documented()
    for s, o in E.exec_fn(st, f, [this]):
        n += 1
        for q, k in doc.items():
            E.oblige(s, got.get(q) == k, 'postcondition', 'sequence %s: key %#x char %#x state %#x' % ((show(q),) + k))
        extra = [q for q in got if q not in doc]
        E.oblige(s, not extra, 'postcondition', 'nothing else is registered' if not extra else 'nothing else is registered (found %s)' % show(extra[0]))
    E.oblige(State(), n == 1, 'postcondition', 'the table is built in one straight run')


UNITS = [('table', unit_table)]
