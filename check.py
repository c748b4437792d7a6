#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--repo DIR]"""
import os
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa.runner import main  # noqa: E402

if __name__ == '__main__':
    rc = []
    threading.stack_size(512 * 1024 * 1024)
    sys.setrecursionlimit(30000)
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 3)
