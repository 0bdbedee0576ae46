import ast, importlib, sys
sys.path.insert(0, sys.argv[1])
import numpy as np


def flat(x, out):
    if isinstance(x, list):
        out.append(float(len(x)))
    if isinstance(x, (list, tuple)):
        for y in x: flat(y, out)
    else:
        out.append(float(x))


for line in open(sys.argv[2]):
    module, name, args = ast.literal_eval(line)
    if module == "ccx": args = [np.array(a, dtype=float) for a in args[:2]] + list(args[2:])
    out = []
    flat(getattr(importlib.import_module(module), name)(*args), out)
    print(len(out), *map(repr, out))
