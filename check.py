#!/usr/bin/env python3-vt
import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)
pid = sys.argv[1]
m = importlib.import_module('props.' + pid)
rc = [2]


def go():
    try:
        m.check().run()
    except SystemExit as e:
        rc[0] = e.code or 0
    except BaseException:
        import traceback
        traceback.print_exc()
        rc[0] = 2


t = threading.Thread(target=go)
t.start(); t.join()
sys.stdout.flush()
os._exit(rc[0]) if False else sys.exit(rc[0])
