#!/usr/bin/env python3
"""C18: cloning every small IR tree and function."""
from mclib import *


def main():
    chk = Check("C18", "model_checking")
    build("nodes")
    for budget in pick((1, 2), (1, 2, 3)):
        harness(chk, "nodes", "clone", budget, 8, timeout=pick(600, 3000))
    chk.space("trees", "nodes_compared", "clones")
    chk.finish()


if __name__ == "__main__":
    main()
