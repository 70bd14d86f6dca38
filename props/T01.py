from terminal import *
UNITS = [('outputSetColor', unit_color)]
HARNESS = [('h_term', ['--mode', 't01'])]
