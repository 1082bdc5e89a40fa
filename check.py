#!/usr/bin/env python3
"""Check one property: build the harness against /repo's working tree, run the generated cases,
shrink and save a failing one, and write evidence.

usage: check.py ID [--tier quick|thorough] [--seed N] [--scale X]
       check.py ID --replay FILE
Exit: 0 held, 1 violated (with a VIOLATION line), 2 the check could not do its job.
"""
import json, os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import engine

if __name__ == "__main__":
    sys.exit(engine.main(sys.argv[1:]))
