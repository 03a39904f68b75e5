#!/usr/bin/env python3
"""C26: float conversions on all 16/32-bit inputs and every class of 64-bit inputs, against exact arithmetic."""
from mclib import *


def main():
    chk = Check("C26", "model_checking")
    build("floatlib")
    harness(chk, "floatlib", pick(0, 1), 8, timeout=pick(600, 3000))
    inputs = "half_to_float float_to_half_and_double double_to_half double_to_float"
    chk.space(inputs, inputs + " half_to_float float_to_half_and_double", "non_nan_results")
    chk.finish()


if __name__ == "__main__":
    main()
