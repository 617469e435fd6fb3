from bufcommon import *


def run(ctx):
    ctx.level = "model_checking"
    ctx.assumptions = ["host is little-endian with the fundamental type widths of x86-64 Linux (the specification's Width table)",
                       "buffers stay below a few kilobytes; sizes are 64-bit in the code and unbounded integers in the specification"]
    check_buffer(ctx, "PackBufFifo.cfg", "PackBufGraph.cfg", "PackBufTrace.cfg", False)
    ctx.cov["exhaustive_over"] = "all states and transitions of two buffers of at most 2 bytes over a 2-letter alphabet; every transition replayed on the real class"
