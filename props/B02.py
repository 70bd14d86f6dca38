from agentcc import *

SRCS = [AG, BUF]
UNITS = [('writePacket', unit_write_packet), ('newPacket', unit_new_packet), ('pollControlPipe', unit_poll_control), ('handlePacket', unit_handle_packet),
         ('handleSetSizePacket', unit_set_size), ('processList', unit_process_list), ('resizeWindow', unit_resize_window), ('scrapeBuffers', unit_scrape_buffers)]
DEPS = ['B01', 'N01']
HARNESS = [('h_agent', ['--mode', 'b02'])]
