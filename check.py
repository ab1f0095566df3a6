#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--repo DIR]: decide one property by static analysis of /repo's source."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import threading


def run():
    a = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    root = '/repo'
    pid = None
    while a:
        x = a.pop(0)
        if x == '--tier':
            tier = a.pop(0)
        elif x == '--repo':
            root = a.pop(0)
        else:
            pid = x
    from vfa.report import main
    sys.setrecursionlimit(20000)
    code[0] = main(pid, tier if tier in ('quick', 'thorough') else 'quick', root)


code = [2]
threading.stack_size(512 * 1024 * 1024)
th = threading.Thread(target=run)
th.start()
th.join(820 if os.environ.get('VFA_LIMIT') is None else float(os.environ['VFA_LIMIT']))
while th.is_alive():        # stop in time to report what has been decided
    import ctypes
    from vfa.report import Late
    ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(th.ident), ctypes.py_object(Late))
    th.join(15)
sys.stdout.flush()
os._exit(code[0])
