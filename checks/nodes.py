#!/usr/bin/env python3
"""C24: what IR nodes report and replace, and how trees are walked and edited."""
from mclib import *


def main():
    chk = Check("C24", "model_checking")
    build("nodes")
    for budget in pick((1, 2), (1, 2, 3)):
        for mode in ("replace", "walk"):
            harness(chk, "nodes", mode, budget, 8, timeout=pick(600, 3000))
    chk.space("trees", "queries replacements", "walks")
    chk.finish()


if __name__ == "__main__":
    main()
