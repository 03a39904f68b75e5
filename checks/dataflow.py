#!/usr/bin/env python3
"""C20: control-flow graphs, reaching definitions and dominators against every execution."""
from mclib import *


def main():
    chk = Check("C20", "model_checking")
    build("dataflow")
    # statements per function, exceptions and loop iterations per execution
    for args in pick([(2, 2, 4), (3, 1, 3)], [(3, 2, 4), (4, 1, 3)]):
        harness(chk, "dataflow", *args, 8, timeout=pick(600, 3000))
    # the address of the variable, or of a member of it, may be handed out
    for profile in "pointers", "fields":
        harness(chk, "dataflow", pick(3, 4), 0, 3, 8, profile, timeout=pick(600, 3000))
    c = chk.coverage
    chk.space("programs", "executions", "dominance_queries reaching_queries")
    chk.finish()


if __name__ == "__main__":
    main()
