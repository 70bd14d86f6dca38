from agentcc import *

SRCS = [AG]
UNITS = [('autoClose', unit_auto_close), ('onPollTimeout', unit_poll_timeout), ('onPipeIo', unit_pipe_io), ('scrapeBuffers', unit_scrape_buffers)]
DEPS = ['N01', 'T03']
HARNESS = [('h_agent', ['--mode', 'x01'])]
