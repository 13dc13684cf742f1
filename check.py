#!/usr/bin/env python3-vt
"""check.py <PROPERTY>: rebuild, explore, decide, report (exit 0 held / 1 violation / 2 no answer)"""
import os
import sys
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
sys.setrecursionlimit(100000)
import props

if __name__ == "__main__":
    sys.exit(props.main(sys.argv[1]))
