#!/usr/bin/env python3
"""C31: NumPy's compiled element-wise kernels on every layout, special value and instruction set."""
from mclib import *


def main():
    chk = Check("C31", "model_checking")
    build("vecloops")
    harness(chk, "vecloops", pick(0, 1), 8, timeout=pick(600, 3000))
    chk.space("kernel_calls values complex_values", "elements values complex_values", "kernel_calls complex_values")
    chk.finish()


if __name__ == "__main__":
    main()
