from coninscan import *
import agentcc

LIMIT = 300
DEPS = ['I05', ('I02', ['matchDsr'], True)]
HARNESS = [('h_input', ['--mode', 'i01'])]
UNITS = [('scanInput', unit_scan), ('stable', unit_stable), ('doWrite', unit_dowrite), ('flushInputRecords', unit_flushrecords), ('writeInput', unit_writeinput),
         ('flushIncompleteEscapeCode', unit_flush), ('pollConinPipe', agentcc.unit_poll_conin)]
SRCS = SRCS + [agentcc.AG]
