import os, importlib
for _f in sorted(os.listdir(os.path.dirname(__file__))):
    if _f.endswith('.py') and _f[0] in 'CP' : importlib.import_module('props.' + _f[:-3])
