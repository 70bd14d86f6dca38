from libcc import *
import startcc

SRCS = [WP, TU_MSG, OH, BUF, startcc.MAIN, startcc.AG]
UNITS = [('config', unit_config), ('env', unit_env), ('spawnconfig', unit_spawn_config), ('open', unit_open), ('session', unit_session), ('start', unit_start_agent), ('names', unit_names),
         ('agentMain', startcc.unit_main), ('agentConstructor', startcc.unit_agent_ctor)]
HARNESS = [('h_lib', ['--mode', 'l03'])]
