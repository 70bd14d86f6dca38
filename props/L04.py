import agentcc
from libcc import *

SRCS = [WP, TU_MSG, OH, BUF, agentcc.AG]
UNITS = [('spawn', unit_spawn), ('handle64', unit_handle64), ('startProcess', agentcc.unit_start_process)]
DEPS = ['B01']
HARNESS = [('h_lib', ['--mode', 'l04']), ('h_agent', ['--mode', 'l04'])]
