#!/usr/bin/env python3
"""C21: capture, escape and side-effect facts against every execution of bounded heap functions."""
from mclib import *


def main():
    chk = Check("C21", "model_checking")
    build("capture")
    harness(chk, "capture", pick(0, 1), 8, timeout=pick(700, 3000))
    c = chk.coverage
    chk.space("functions", "executions", "escape_queries removals")
    chk.finish()


if __name__ == "__main__":
    main()
