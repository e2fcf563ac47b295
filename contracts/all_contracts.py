import importlib, os, glob
_d = os.path.dirname(os.path.abspath(__file__))
for f in sorted(glob.glob(_d + '/c_*.py')):
    importlib.import_module(os.path.basename(f)[:-3])
