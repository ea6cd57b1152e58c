"""Nothing has to be built: checks that the machinery and the code under test are there."""
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
import importlib  # noqa: E402
for i in range(1, 27):
    importlib.import_module('mc.props.c%02d' % i)
os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
print('ready')
