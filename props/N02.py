import secure
from secure import *

SRCS = [WS, GR, OH, NP, agentcc.AG, WP, TU_MSG]
UNITS = [('descriptor', secure.unit_descriptor), ('flag', secure.unit_flag), ('server pipe', secure.unit_server_pipe), ('data pipes', secure.unit_data_pipes),
         ('control pipe', unit_create_pipe), ('client', unit_verify_client), ('session', unit_session), ('random', secure.unit_random), ('hex', secure.unit_hex), ('unique name', secure.unit_unique)]
HARNESS = ['h_n02', ('h_lib', ['--mode', 'l03'])]
RULE = 'harness: every call of the simulated system failing in turn, over random tokens, sizes, systems and pipe directions; distinct = cases'
