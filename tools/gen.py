#!/usr/bin/env python3-vt
"""Writes properties.jsonl and MANIFEST.json from the table below.  A property is
claimed when props/<id>.py exists; the rest is listed under not_applicable."""
import json, os, importlib, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, S, L, X = 'src/agent/', 'src/shared/', 'src/libwinpty/', 'src/unix-adapter/'


def P(id, title, statement, over, text, why, files, mech, level='proof', note='', na=None, observe=(), state=()):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level=level, note=note, na=na, observe=list(observe), state=list(state))


TEST = 'The stable tests cover only StringBuilder, the UTF codecs on sample values and a trivial start-up; '
PROPS = [
P('U01', 'UTF-8/UTF-16 conversion is exactly the standard mapping, in bounds',
  'Encoding a code point yields exactly its RFC 3629 UTF-8 form (or its UTF-16 form) and yields nothing for surrogates and values above U+10FFFF. Decoding a UTF-8 sequence yields its code point exactly when the sequence is well formed, rejecting overlong forms, surrogates, out-of-range values and bad continuation bytes, and reads no byte past the length its first byte announces. No unused output byte or unit is written.',
  ['inputs'], 'every 32-bit code, every first byte, every byte sequence, every surrogate pair', TEST + 'the unit test decodes sample sequences; the property is over all 2^32 codes and all byte sequences.',
  [A + 'UnicodeEncoding.h'], [('encodeUtf8/decodeUtf8/utf8CharLength/encodeUtf16/decodeSurrogatePair', A + 'UnicodeEncoding.h')], observe=['return values and written units']),
P('T01', 'Console colours reach the terminal as the right SGR attributes',
  'For every 16-bit console cell attribute, the colour escape sequence sent to the terminal, followed from any previous terminal state, leaves the terminal with the foreground, background, intensity, underscore and reverse setting that the attribute stands for. The sequence is a single well-formed SGR sequence.',
  ['inputs'], 'all 65536 attributes, any previous terminal colour', TEST + 'no test runs the terminal output code.',
  [A + 'Terminal.cc'], [('outputSetColor, outputSetColorSgrParams', A + 'Terminal.cc')]),
P('T02', 'A console row appears on the terminal as it is in the console',
  'After a row of console cells is sent, the terminal shows exactly that row: each character (combining surrogate pairs and double-width cells, replacing undisplayable ones) at its place and in its colour, blanks elsewhere, nothing beyond the row, whatever was shown or partly shown before. The cursor is hidden before text runs past the console cursor, and only the unchanged beginning of a row is ever left unsent.',
  ['inputs', 'histories'], 'all rows of any width and content, all earlier output states, all cursor columns, plain or escape mode, colour or not', TEST + 'no test runs the terminal output code; the row cache makes each output depend on the whole history.',
  [A + 'Terminal.cc', A + 'Terminal.h'], [('Terminal::sendLine', A + 'Terminal.cc'), ('scanUnicodeScalarValue, fixSpecialCharacters', A + 'Terminal.cc')]),
P('T03', 'Terminal cursor, visibility and mouse-mode bookkeeping matches the terminal',
  'Whatever sequence of row output, cursor moves, cursor hiding, resets and mouse-mode switches happens, the terminal\'s cursor line, column, visibility and mouse mode are those requested, and the cursor is visible after it was shown at a place. In plain mode no escape sequence is sent except colour changes when colour is enabled.',
  ['histories', 'configurations'], 'all operation sequences, plain and escape modes, with or without colour', TEST + 'no test runs the terminal output code.',
  [A + 'Terminal.cc'], [('moveTerminalToLine, hideTerminalCursor, showTerminalCursor, reset, enableMouseMode', A + 'Terminal.cc')]),
P('S01', 'A changed console row is always noticed, an unchanged one is not',
  'Comparing a row read from the console against the remembered row reports a change exactly when the row would look different. It looks the same if the columns common to both are equal, columns that disappear were blanks in the colour of the new row\'s last cell, and columns that appear are, now and wherever an earlier wider row was remembered there, blanks in the colour of the old row\'s last cell. Afterwards the new row is what is remembered; no row is read or written out of bounds.',
  ['inputs', 'histories'], 'all rows, all lengths up to the maximum width, all sequences of updates', TEST + 'no test compares rows.',
  [A + 'ConsoleLine.cc'], [('ConsoleLine::detectChangeAndSetLine, ConsoleLine::setLine, ConsoleLine::blank', A + 'ConsoleLine.cc')]),
P('S02', 'A console rectangle read in pieces is the exact rectangle',
  'Reading any rectangle of the console buffer, however large, delivers each requested cell exactly once at its place, with no cell read outside the rectangle and no memory outside the result written. Each single console read stays within the size the console API accepts.',
  ['inputs'], 'all rectangles the console buffer can contain', TEST + 'no test reads the console.',
  [A + 'LargeConsoleRead.cc', A + 'LargeConsoleRead.h'], [('largeConsoleRead', A + 'LargeConsoleRead.cc'), ('LargeConsoleReadBuffer::lineData', A + 'LargeConsoleRead.h')]),
P('S03', 'Repeated scraping brings the terminal into step with the console',
  'After any sequence of console writes, scrolls, clears, cursor moves and resizes, a scrape of the then-still console leaves the terminal showing each row of the console window down to the last one with content (rows below that have never been sent and are blank in the colour of the row above), with the cursor where the console has it or hidden if it is hidden or outside; rows that left the window since the scrape before are sent too. A scrape sends lines in increasing order, each at most once. What is remembered of a line is what the terminal shows of it, except for rows erased above the window by a resize. A scrape of a running console that finds it changed sends nothing; the console is described by what it says while it is scraped. Every console access stays inside the buffer, and sync markers are written above the window only.',
  ['histories', 'inputs'], 'all sequences of console changes and scrapes, all console buffer and window sizes', TEST + 'no test drives the scraper; the property is about histories of console contents.',
  [A + 'Scraper.cc', A + 'Scraper.h'], [('Scraper::scrollingScrapeOutput, directScrapeOutput, syncConsoleContentAndSize, resizeImpl, resetConsoleTracking, scanForDirtyLines, clearBufferLines, findSyncMarker, createSyncMarker, syncMarkerText', A + 'Scraper.cc')]),
P('I01', 'Terminal input is recognised byte-exactly, whatever the write boundaries',
  'Every input byte is consumed exactly once and in order, each either as part of one recognised sequence or as text, and each step consumes at least one byte and never more than is buffered. Splitting the input over several writes (without a long pause) produces the same console input records as one write. Incomplete sequences are held back, with one cursor-position query to the terminal outstanding; after the time limit of one second without input they are taken as they stand, and an incomplete character is discarded.',
  ['inputs', 'schedules'], 'all byte strings, all ways of cutting them into writes', TEST + 'no test feeds terminal input.',
  [A + 'ConsoleInput.cc'], [('ConsoleInput::doWrite, scanInput, flushIncompleteEscapeCode', A + 'ConsoleInput.cc')]),
P('I02', 'Terminal replies and mouse reports decode to the reported values',
  'A cursor-position report is recognised exactly when it has the form ESC [ row ; column R. Mouse reports in each of the three encodings decode to the reported button, modifiers, press or release and 0-based position, clamped to the window; anything else is not taken as a report and incomplete prefixes ask for more input.',
  ['inputs'], 'all byte strings of every length', TEST + 'no test feeds terminal input.',
  [A + 'ConsoleInput.cc'], [('matchDsr, matchMouseDefault, matchMouse1006, matchMouse1015, matchMouseRecord, ConsoleInput::scanMouseInput', A + 'ConsoleInput.cc')]),
P('I03', 'Every synthesised key press is complete: modifiers pressed and released',
  'For each recognised key, the console receives the modifier presses, the key press, the key release and the modifier releases in balanced order, with the control-key state of each record being that of the modifiers then held, and the key\'s code, character and scan code unchanged. No modifier remains pressed afterwards.',
  ['inputs'], 'all keys, characters and modifier states', TEST + 'no test synthesises keys.',
  [A + 'ConsoleInput.cc'], [('ConsoleInput::appendKeyPress, appendInputRecord, appendCPInputRecords', A + 'ConsoleInput.cc')]),
P('I04', 'Text typed at the terminal arrives as the same characters',
  'Each well-formed UTF-8 character of the input produces key records whose characters are its UTF-16 form, in order; malformed input bytes produce no wrong character and are not lost track of. Characters after ESC arrive as Alt combinations of the same characters.',
  ['inputs'], 'all Unicode characters, all byte strings', TEST + 'no test feeds terminal input.',
  [A + 'ConsoleInput.cc'], [('ConsoleInput::appendUtf8Char, scanInput', A + 'ConsoleInput.cc')]),
P('I05', 'Escape-sequence lookup finds the longest registered sequence',
  'Looking up input in the key table returns the key of the longest registered sequence that is a prefix of the input, with its length, and says whether more input could complete a longer one. Registering sequences never disturbs the ones registered before, and no table access leaves its node.',
  ['inputs', 'histories'], 'all sets of registered sequences, all inputs', TEST + 'no test uses the key table.',
  [A + 'InputMap.cc', A + 'InputMap.h'], [('InputMap::set, setHelper, getOrCreateChild, lookupKey, getChild', A + 'InputMap.cc')]),
P('I06', 'The default key table maps each documented sequence to its key',
  'For every documented terminal escape sequence (cursor, function, editing and keypad keys in xterm, rxvt and linux forms, with modifier parameters 2-8 and the ESC prefix as Alt), the default table yields the Windows key and the modifier state the sequence stands for. No other sequence is registered in their place.',
  ['inputs'], 'all sequences of the documented forms with every modifier', TEST + 'no test uses the key table.',
  [A + 'DefaultInputMap.cc'], [('addDefaultEntriesToInputMap and helpers', A + 'DefaultInputMap.cc')]),
P('I07', 'Mouse reports are wanted exactly when the mode and the console say so',
  'Terminal mouse reporting is never wanted in mouse mode "none", always in mode "force", and in mode "auto" exactly when the console input mode has mouse input and extended flags on and quick edit off. The console mode is read anew before each scrape (one that cannot be read counts as zero), and while the output is open the terminal is switched accordingly. At start-up extended flags and insert mode are switched on, quick edit is switched on in mode "auto" and off otherwise, and the other console mode bits stay. Mouse positions refer to the console window of the last scrape or resize.',
  ['inputs', 'configurations', 'histories'], 'all console modes, all mouse modes, all failures of the console calls', TEST + 'no test looks at the console mode or the mouse mode.',
  [A + 'ConsoleInput.cc', A + 'Agent.cc'], [('ConsoleInput::ConsoleInput, updateInputFlags, shouldActivateTerminalMouse', A + 'ConsoleInput.cc'), ('Agent::onPollTimeout', A + 'Agent.cc')]),
P('B01', 'Messages decode to what was encoded; malformed ones are rejected',
  'Any sequence of values written into a message reads back as the same values in the same order, and the message is then used up exactly. Reading a value of another type, past the end, or from a truncated or corrupted message fails with a decoding error; it never reads outside the message, never crashes and never fails with a different error.',
  ['inputs', 'histories'], 'all value sequences, all byte strings as messages, all read sequences', TEST + 'no test uses the message buffers.',
  [S + 'Buffer.cc', S + 'Buffer.h'], [('WriteBuffer::put*, ReadBuffer::get*, assertEof', S + 'Buffer.cc')]),
P('B02', 'Control packets are handled once each, in order, and answered with one reply',
  'The agent processes each complete control packet exactly once and in order regardless of how the bytes arrive, sends one length-prefixed reply per packet of a known type (a packet of an unknown type is skipped without a reply), and leaves incomplete packets for later. A resize request applies the requested size, clamped to what the console can hold.',
  ['inputs', 'schedules'], 'all packet sequences, all ways of splitting the byte stream', TEST + 'no test drives the control pipe at byte level.',
  [A + 'Agent.cc'], [('Agent::pollControlPipe, handlePacket, handleSetSizePacket, writePacket', A + 'Agent.cc')]),
P('L01', 'Each library call is one request and one reply; a failure ends the session',
  'A library call that talks to the agent sends one length-prefixed request and reads exactly one reply. A pipe failure, a truncated or malformed reply, a time-out or a lost agent makes the call fail with an error and closes the connection, so that no later call can read a stale reply; every later call then fails at once. No operation on the pipe is still pending when a call returns.',
  ['inputs', 'fault_sequences'], 'all reply byte strings, all failure points of pipe operations', TEST + 'no test injects pipe faults.',
  [L + 'winpty.cc'], [('RpcOperation, writePacket, readPacket, transceive', L + 'winpty.cc')]),
P('L02', 'The API never lets an error escape and never reports success wrongly',
  'Every exported library function returns its documented failure value and fills in an error object with a non-zero code and a non-empty message whenever it fails, clears it when it succeeds, and lets no exception escape, including under memory exhaustion. Error objects can always be inspected and freed, including none.',
  ['inputs', 'fault_sequences'], 'all API calls, all exceptions the implementation can raise', TEST + 'no test makes API calls fail.',
  [L + 'winpty.cc'], [('API_TRY, API_CATCH, translateException, winpty_error_*', L + 'winpty.cc')]),
P('L03', 'Configuration objects keep exactly the options that were set',
  'Configuration constructors accept exactly the documented flag combinations; other flags, and sizes, mouse modes and time limits outside the valid range, are refused by an assertion and never taken over. Every value set is kept and is the value that reaches the agent: the agent command line and start-up carry the configured flags, mouse mode and size (which the agent limits to what the console can hold) unchanged, and the time limit governs every wait for the agent.',
  ['inputs', 'configurations'], 'all flags, sizes, modes and strings', TEST + 'no test checks flags or sizes.',
  [L + 'winpty.cc', A + 'main.cc', A + 'Agent.cc'], [('winpty_config_*, winpty_spawn_config_new, winpty_open, createAgentSession', L + 'winpty.cc'), ('main, Agent::Agent', A + 'main.cc, Agent.cc')]),
P('L04', 'Spawning returns real process handles or an error, never both',
  'A spawn request carries the configured program, command line, directory, environment and flags unchanged; on success the caller receives exactly the requested handles, on failure to create the process the exact Windows error code, and never a mixture. Handles that the caller did not ask for are not leaked to it.',
  ['inputs', 'fault_sequences'], 'all spawn configurations and replies', TEST + 'no test checks failures of spawning.',
  [L + 'winpty.cc', A + 'Agent.cc'], [('winpty_spawn', L + 'winpty.cc'), ('Agent::handleStartProcessPacket', A + 'Agent.cc')]),
P('N01', 'Pipe data arrives complete, in order, exactly once, whatever the I/O timing',
  'Everything written to a pipe is handed to the operating system in order, without loss, duplication or change, for every way asynchronous writes complete; everything the operating system delivers is available to the reader once and in order. No buffer is modified or released while an operation on it is pending, and a closed or broken pipe reports that it is closed.',
  ['schedules', 'histories', 'fault_sequences'], 'all interleavings of partial, pending and failing I/O completions with reads and writes', TEST + 'no test uses partial or pending I/O.',
  [A + 'NamedPipe.cc', A + 'NamedPipe.h'], [('InputWorker, OutputWorker, IoWorker::service, NamedPipe::write/read/peek/readToString/closePipe', A + 'NamedPipe.cc')]),
P('N02', 'Named pipes are created for one local owner only',
  'Every pipe the agent or the library creates is restricted to a single instance that must be the first of its name, refuses remote clients where the system supports it, and is protected by a security descriptor granting access only to the system, administrators and the owner. Pipe and object names contain the process id, a counter that never repeats in a process, the time and, unless the system\'s generator fails, 128 random bits.',
  ['inputs', 'configurations'], 'all pipes and names created', TEST + 'no test inspects security attributes.',
  [S + 'WindowsSecurity.cc', S + 'GenRandom.cc', A + 'NamedPipe.cc'], [('createPipeSecurityDescriptorOwnerFullControl, GenRandom::uniqueName', S + 'WindowsSecurity.cc, GenRandom.cc'), ('NamedPipe::openServerPipe', A + 'NamedPipe.cc')]),
P('X01', 'All output is delivered before the agent shuts the output pipes',
  'When the child process ends and automatic shutdown was requested, the agent scrapes the console once more and closes each output pipe only after every byte queued on it was accepted by the operating system. The agent does not close an output pipe while the child is still running, switches the mouse mode off before closing, and exits by itself exactly when that was requested and every output pipe is closed.',
  ['schedules', 'histories'], 'all timings of child exit and pipe completion', TEST + 'no test races output with exit.',
  [A + 'Agent.cc'], [('Agent::onPollTimeout, autoClosePipesForShutdown', A + 'Agent.cc')]),
P('C01', 'A console that was frozen is always unfrozen again',
  'Every operation that freezes the console (scraping, resizing, synchronising) restores the frozen state that was there before when it ends, whichever way it ends. On a console that cannot safely be read while it runs, it is frozen whenever it is scraped; window and history are changed only while it is frozen, its buffer and font only while it runs. A message is sent to the console exactly when the frozen state changes.',
  ['histories', 'fault_sequences'], 'all operation sequences, all early exits', TEST + 'no test freezes the console.',
  [A + 'Win32Console.cc', A + 'Agent.cc', A + 'Scraper.cc'], [('Win32Console::setFrozen, FreezeGuard', A + 'Win32Console.cc')]),
P('G01', 'Listing console processes gives the list or its size and keeps the session',
  'A request for the console process list returns the processes attached to the console when the caller\'s array is large enough, and otherwise the required count without writing to the array. Either way the session stays usable for further calls.',
  ['inputs'], 'all process counts and array sizes', TEST + 'no test lists processes.',
  [L + 'winpty.cc', A + 'Agent.cc'], [('winpty_get_console_process_list', L + 'winpty.cc'), ('Agent::handleGetConsoleProcessListPacket', A + 'Agent.cc')]),
P('D01', 'Numbers are formatted to exactly their decimal or hexadecimal digits',
  'Formatting any integer of any width, signed or unsigned, including the extreme values, gives exactly its decimal (or hexadecimal) representation without leading zeros, and never writes outside its buffer. The text builder appends its operands in order.',
  ['inputs'], 'all values of all integer types', 'The StringBuilder test formats sample values; the property is over all 2^64 values.',
  [S + 'StringBuilder.h'], [('gdecOfInt, decOfInt, hexOfInt, StringBuilder', S + 'StringBuilder.h')]),
P('D02', 'Bounded string formatting never overruns and always terminates the string',
  'Formatting or copying text into a buffer of any size writes only inside the buffer, terminates it with a null character and holds the longest prefix that fits, and reports truncation by a failure result. Text conversions between encodings preserve every well-formed string.',
  ['inputs'], 'all strings and buffer sizes', TEST + 'no test truncates.',
  [S + 'winpty_snprintf.h', S + 'StringUtil.cc', S + 'StringUtil.h'], [('winpty_vsnprintf, winpty_snprintf, winpty_wcsncpy*, utf8FromWide', S + 'winpty_snprintf.h, StringUtil.cc')]),
P('H01', 'Owned handles are closed exactly once',
  'A handle owned by the program is closed exactly once, when its owner is destroyed, replaced or disposed, and not at all after being released; moving ownership leaves the source empty. An invalid or null handle is never closed.',
  ['histories'], 'all sequences of construction, moves, releases, assignments and destruction', TEST + 'no test counts handle closes.',
  [S + 'OwnedHandle.cc', S + 'OwnedHandle.h'], [('OwnedHandle', S + 'OwnedHandle.h, OwnedHandle.cc')]),
P('Q01', 'Quoted command lines parse back to the same arguments',
  'The command line built from any list of arguments splits, by the Microsoft C runtime rules, into exactly those arguments. This holds for arguments with spaces, quotes, backslashes and empty arguments; the program name (the first) must have no quotes and no backslash at its end, as that runtime does not unescape it.',
  ['inputs'], 'all argument lists', 'The adapter is not built by the tests.',
  [X + 'main.cc'], [('argvToCommandLine', X + 'main.cc')]),
P('V01', 'Adapter output is written completely and in order',
  'Writing a block to the terminal delivers every byte in order, continuing after partial writes and interruptions, and fails only on a real error; the adapter\'s input and output loops forward everything they read.',
  ['inputs', 'fault_sequences'], 'all sizes, all sequences of partial writes and interruptions', 'The adapter is not built by the tests.',
  [X + 'Util.cc'], [('writeAll', X + 'Util.cc')]),
P('Z01', 'The whole system makes progress under every scheduling',
  'Under every interleaving of the agent, the library, the console host and the child, output is eventually delivered and requests are eventually answered.',
  ['schedules'], 'all schedules of all processes', TEST + 'schedules across processes are not sampled.',
  [A + 'EventLoop.cc', L + 'winpty.cc'], [('EventLoop::run', A + 'EventLoop.cc')],
  na='liveness across processes and the Windows console host: contracts on functions state partial correctness and termination of loops, not fairness of the operating system scheduler.'),
P('Z02', 'The console host renders what the child wrote',
  'Text that a console program writes with the Windows console API is what the console buffer holds when the agent reads it.',
  ['programs'], 'all console programs', TEST + 'no test compares against the real console host.',
  [A + 'Win32ConsoleBuffer.cc'], [('Win32ConsoleBuffer', A + 'Win32ConsoleBuffer.cc')],
  na='the console host is a closed external program; there is no source to put under contract, and this sandbox has no Windows (wine\'s console is a different implementation).'),
]

NOTE = {
 'proof': 'Every obligation generated from the current source by symbolic execution with function contracts and loop invariants is discharged by Z3 for all inputs (no bound); the native harness is a bounded companion. Trusted: clang\'s front end, the VC generator in irv/, Z3, and the library/OS contracts listed in the evidence.',
 'exploration': 'Bounded check of the real code against an independent oracle, plus the obligations listed in the evidence for the parts under contract; labelled bounded.',
}


def main():
    sys.path[:0] = [os.path.join(V, d) for d in ('irv', 'props', 'native')]
    checks, na = [], []
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['id']
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                 'why_tests_cant': p['why'], 'anchors': {'files': [x for x in p['files']], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}
            if p['observe']:
                d['anchors']['observe_at'] = p['observe']
            f.write(json.dumps(d) + '\n')
            if os.path.exists(os.path.join(V, 'props', p['id'] + '.py')):
                m = importlib.import_module(p['id'])
                lv = getattr(m, 'LEVEL', 'proof')
                checks.append({'property': p['id'], 'quick_cmd': 'python3-vt /verif/check.py %s quick' % p['id'],
                               'thorough_cmd': 'python3-vt /verif/check.py %s thorough' % p['id'],
                               'technique': getattr(m, 'TECHNIQUE', 'contract-based deductive verification (VCs from LLVM IR of the real code, Z3), with bounded native replay harness'),
                               'level': lv, 'level_note': getattr(m, 'LEVEL_NOTE', NOTE[lv])})
            else:
                na.append({'property': p['id'], 'reason': p['na'] or 'no check has been built for it'})
    json.dump({'version': 1, 'setup_cmd': 'bash /verif/setup.sh', 'checks': checks, 'not_applicable': na,
               'notes': 'Checks need nothing from setup beyond the installed tools; no hooks in /repo.'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'claimed', len(na), 'not')


main()
