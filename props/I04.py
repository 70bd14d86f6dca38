from coninscan import *

LIMIT = 300
DEPS = ['U01']
HARNESS = [('h_input', ['--mode', 'i04'])]
UNITS = [('scanInput', unit_scan), ('appendUtf8Char', unit_utf8char), ('doWrite', unit_dowrite)]
