import libcc
from libcc import *

SRCS = [WP, TU_MSG, BUF]
UNITS = [('handlePendingIo', unit_pending), ('handleReadWriteErrors', unit_errors), ('writeData', unit_write_data), ('readData', unit_read_data), ('readAll', unit_read_all),
         ('readPacket', unit_read_packet), ('writePacket', unit_write_packet), ('connectControlPipe', unit_connect), ('setSize', unit_set_size),
         ('processList', unit_process_list), ('spawn', unit_spawn)]
DEPS = ['B01', ('L02', ['translate'], True)]
HARNESS = [('h_lib', ['--mode', 'l01'])]
