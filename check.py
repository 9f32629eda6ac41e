#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import runner

if __name__ == "__main__":
    rep = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    sys.exit(runner.main(sys.argv[1], rep))
