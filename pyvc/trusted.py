"""what every proof rests on"""
BASE = [
    'the pyvc interpreter (pyvc/interp.py, loops.py): its reading of Python statements and expressions, cross-checked by running every contract under CPython as well',
    'the library models of pyvc/models.py (str, bytes, dict, list, int, struct, urllib.parse, json, time, random, threading.Lock, tornado futures), listed per run under library_models_used',
    'z3 and cvc5',
    'floating point arithmetic is treated as real arithmetic; Python integers are mathematical integers (exact)',
    'text is treated through the operations the code applies to it (equality, length, letter case, prefix, concatenation, splitting, number parsing, quoting) as uninterpreted functions with the stated axioms',
    'logging calls have no effect on the program state and do not raise',
]
