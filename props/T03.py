from terminal import *
import agentcc
UNITS = [('moveTerminalToLine', unit_move), ('showTerminalCursor', unit_show), ('hideTerminalCursor', unit_hide), ('reset', unit_reset), ('enableMouseMode', unit_mouse), ('syncConsoleTitle', agentcc.unit_sync_title)]
DEPS = [('T02', ['sendLine'], True)]
HARNESS = [('h_term', ['--mode', 't03'])]
