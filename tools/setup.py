"""Nothing to build: the analyser is plain Python.  Check that it imports and that /repo parses."""
import ast
import os
import sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import vfa.spec  # noqa
n = 0
for top, dirs, files in os.walk('/repo/neocore'):
    for f in files:
        if f.endswith('.py'):
            ast.parse(open(os.path.join(top, f), encoding='utf-8').read())
            n += 1
print('analyser ready,', n, 'source files')
