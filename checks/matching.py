#!/usr/bin/env python3
"""C19: structural matching on every pair of small IR trees."""
from mclib import *


def main():
    chk = Check("C19", "model_checking")
    build("nodes")
    harness(chk, "nodes", "match", 1, 8, timeout=pick(600, 3000))
    chk.space("universe", "matches", "accepted rejected")
    chk.finish()


if __name__ == "__main__":
    main()
