import agentcc
from libcc import *

SRCS = [WP, TU_MSG, OH, BUF, agentcc.AG]
UNITS = [('library', unit_process_list), ('agent', agentcc.unit_process_list)]
DEPS = ['B01']
HARNESS = [('h_lib', ['--mode', 'g01']), ('h_agent', ['--mode', 'g01'])]
