#!/usr/bin/env python3
"""C23: the pass manager over every bounded registration history, against a reference model."""
from mclib import *


def main():
    chk = Check("C23", "model_checking")
    build("pm")
    harness(chk, "pm", pick(0, 1), 8, timeout=pick(600, 3000))
    chk.space("histories", "events", "runs_compared")
    chk.finish()


if __name__ == "__main__":
    main()
