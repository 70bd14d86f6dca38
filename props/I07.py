"""When the terminal is asked for mouse reports: ConsoleInput's start-up, updateInputFlags and
shouldActivateTerminalMouse under contract; the agent's timer (X01) and the terminal's
switch (T03) carry the answer on."""
from conin import *

SRCS = [SRC]
DEPS = [('X01', ['onPollTimeout'], True), ('T03', ['enableMouseMode'], True), ('C01', ['resizeWindow', 'scrapeBuffers'], False)]
HARNESS = [('h_input', ['--mode', 'i07'])]
RULE = 'harness: every console input mode of 16 bits with every mouse mode, failures of the console calls included; distinct = (mode, mouse mode, failure)'
EE, MI, QE, EI, INS = 0x80, 0x10, 0x40, 0x200, 0x20
AUTO = 1
P = 'postcondition'
FLAGS = (('m_enableExtendedEnabled', EE), ('m_mouseInputEnabled', MI), ('m_quickEditEnabled', QE), ('m_escapeInputEnabled', EI))


def console(E, st, conin):
    """the console's input mode: each read gives it or fails; a change is recorded"""
    mode0 = z3.BitVec('consoleMode', 32)
    E.inputs['consoleMode'] = mode0
    g(st, mode=mode0, sets=(), known=z3.BitVecVal(0, 32), reads=())

    def get(E, s, a, ci):
        E.oblige(s, hv(a[0]) == conin, 'precondition', 'the mode of the console input is asked')
        ok = fresh('modeReadable', 1)
        out = []
        for s1, y in E.fork(s, ok):
            if y:
                E.store_raw(s1, a[1], s1.ghost['mode'], 4)
            g(s1, known=s1.ghost['mode'] if y else z3.BitVecVal(0, 32), reads=s1.ghost['reads'] + (y,))
            out.append((s1, Ret(1 if y else 0)))
        return Outs(out)
    handler(E, r'^GetConsoleMode$', get, 'Win32 GetConsoleMode: the mode or failure')

    def put(E, s, a, ci):
        E.oblige(s, hv(a[0]) == conin, 'precondition', 'the mode of the console input is changed')
        ok = fresh('modeWritable', 1)
        out = []
        for s1, y in E.fork(s, ok):
            g(s1, sets=s1.ghost['sets'] + (bv(a[1], 32),))
            if y:
                g(s1, mode=bv(a[1], 32))
            out.append((s1, Ret(1 if y else 0)))
        return Outs(out)
    handler(E, r'^SetConsoleMode$', put, 'Win32 SetConsoleMode: takes the mode or fails')
    return mode0


def flags_are(E, s, V, m):
    E.oblige_all(s, [((bv(V.get(s, n), 8) != 0) == (m & b != 0), P, 'the flag %s is that of the console mode' % n[2:]) for n, b in FLAGS])


def unit_update(ctx):
    E = ctx.mk(SRCS)
    quiet_trace(E)
    st = State()
    V = new_object(E, st, 'ConsoleInput', 'this')
    conin = z3.BitVec('conin', 64)
    V.set(st, 'm_conin', conin)
    console(E, st, conin)
    mm = bv(V.get(st, 'm_mouseMode'), 32)
    force = z3.Bool('forceTrace')
    E.targets.append('ConsoleInput::updateInputFlags')
    for s, o in E.exec_fn(st, E.find_fn(r'ConsoleInput::updateInputFlags\('), [V.ptr, force]):
        if not isinstance(o, Ret):
            continue
        E.oblige(s, len(s.ghost['reads']) >= 1, P, 'the mode is read')
        flags_are(E, s, V, s.ghost['known'])
        E.oblige(s, len(s.ghost['sets']) == 0, 'frame', 'the mode is not changed')
        E.oblige(s, bv(V.get(s, 'm_mouseMode'), 32) == mm, 'frame', 'the mouse mode is not changed')


def unit_should(ctx):
    E = ctx.mk(SRCS)
    quiet_trace(E)
    st = State()
    V = new_object(E, st, 'ConsoleInput', 'this')
    mm = z3.BitVec('mouseMode', 32)
    V.set(st, 'm_mouseMode', mm)
    b = {}
    for n, _ in FLAGS:
        b[n] = z3.Bool(n)
        V.set(st, n, bv(b[n], 8))
    E.inputs.update(mouseMode=mm, **b)
    E.targets.append('ConsoleInput::shouldActivateTerminalMouse')
    for s, o in E.exec_fn(st, E.find_fn(r'ConsoleInput::shouldActivateTerminalMouse\('), [V.ptr]):
        if not isinstance(o, Ret):
            continue
        want = z3.Or(mm == 2, z3.And(mm == AUTO, b['m_mouseInputEnabled'], z3.Not(b['m_quickEditEnabled']), b['m_enableExtendedEnabled']))
        E.oblige(s, boolv(o.v) == want, P, 'reports are wanted as the mouse mode and the console mode say')
        E.oblige_all(s, [((bv(V.get(s, n), 8) != 0) == b[n], 'frame', 'no flag changes') for n, _ in FLAGS] + [(bv(V.get(s, 'm_mouseMode'), 32) == mm, 'frame', 'the mouse mode is not changed')])


def unit_ctor(ctx):
    E = ctx.mk(SRCS)
    quiet_trace(E)
    st = State()
    V = new_object(E, st, 'ConsoleInput', 'this')
    conin, mm = z3.BitVec('conin', 64), z3.BitVec('mouseMode', 32)
    m0 = console(E, st, conin)
    E.inputs['mouseMode'] = mm
    contract(E, r'addDefaultEntriesToInputMap\(', lambda E, s, a, ci: None, 'addDefaultEntriesToInputMap (property I06)')
    handler(E, r'^InputMap::InputMap\(', lambda E, s, a, ci: None, 'InputMap: default constructor')
    handler(E, r'^InputMap::dumpInputMap\(', lambda E, s, a, ci: None, 'InputMap::dumpInputMap: debug output only')
    handler(E, r'^hasDebugFlag\(', lambda E, s, a, ci: fresh('debug', 1), 'hasDebugFlag')
    E.targets.append('ConsoleInput::ConsoleInput')
    dsr, con = E.new_cells(st, 8, 'dsrSender'), E.new_cells(st, 64, 'console')
    for s, o in E.exec_fn(st, E.find_fn(r'^ConsoleInput::ConsoleInput\('), [V.ptr, Ptr(0, conin), mm, dsr, con]):
        if not isinstance(o, Ret):
            continue
        E.oblige(s, z3.And(hv(V.get(s, 'm_conin', True)) == conin, bv(V.get(s, 'm_mouseMode'), 32) == mm), P, 'the console input and the mouse mode are kept')
        want = m0 | EE | INS
        want = z3.If(mm == AUTO, want | QE, want & ~z3.BitVecVal(QE, 32))
        rd = s.ghost['reads']
        ok = len(rd) >= 1 and rd[0]
        if not ok:
            E.oblige(s, len(s.ghost['sets']) == 0, P, 'a mode that could not be read is not changed')
        elif not s.ghost['sets']:
            E.oblige(s, m0 == want, P, 'the mode is set, unless it is already as wanted')
        for m in s.ghost['sets']:
            E.oblige(s, m == want, P, 'extended flags and insert mode on, quick edit on for the automatic mode and off otherwise, the rest as it was')
        flags_are(E, s, V, s.ghost['known'])


UNITS = [('updateInputFlags', unit_update), ('shouldActivateTerminalMouse', unit_should), ('start', unit_ctor)]
