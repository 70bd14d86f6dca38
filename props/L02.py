from libcc import *

SRCS = [WP, TU_MSG, OH, BUF]
UNITS = [('translate', unit_translate), ('exceptions', unit_exceptions), ('names', unit_names), ('open', unit_open), ('setSize', unit_set_size),
         ('processList', unit_process_list), ('spawn', unit_spawn), ('config', unit_config), ('spawnconfig', unit_spawn_config)]
HARNESS = [('h_lib', ['--mode', 'l02'])]
