#!/usr/bin/env python3
"""Entry point of every check:  check.py <property id> [<property id> ...]"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
sys.setrecursionlimit(20000)
import runner
if __name__ == "__main__":
    sys.exit(runner.main(sys.argv[1:]))
