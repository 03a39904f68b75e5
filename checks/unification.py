#!/usr/bin/env python3
"""C25: unification of types, its undoing, generalisation and instantiation, and the names of types."""
from mclib import *


def main():
    chk = Check("C25", "model_checking")
    build("types")
    harness(chk, "types", "unify", 1, 8)
    harness(chk, "types", "unify", 2, 8, timeout=pick(600, 3000))
    if THOROUGH:
        harness(chk, "types", "unify", 3, 8, timeout=6000)
    harness(chk, "types", "names", pick(1, 2), 8, timeout=pick(600, 3000))
    harness(chk, "types", "texts", pick(4, 5), 8)
    chk.space("states types texts", "steps pairs scores", "histories queries")
    chk.finish()


if __name__ == "__main__":
    main()
