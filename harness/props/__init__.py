"""One module per group of properties; load() imports them all."""
import importlib
import os


def load():
    here = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(here)):
        if f.endswith(".py") and f.startswith("p_"):
            importlib.import_module("props." + f[:-3])
