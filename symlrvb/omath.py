"""the original math functions (the math module itself is patched for the code under test)"""
import math as _m
for _k in dir(_m):
    if not _k.startswith('_'):
        globals()[_k] = getattr(_m, _k)
