"""pysym PROPERTY [--thorough] | replay FILE"""
import json
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import z3  # noqa
except ImportError:
    # only z3 of that environment: numpy and scikit-learn are the ones the package runs on
    import importlib.util
    spec = importlib.util.spec_from_file_location("z3", Z3 + "/z3/__init__.py", submodule_search_locations=[Z3 + "/z3"])
    m = importlib.util.module_from_spec(spec)
    sys.modules["z3"] = m
    spec.loader.exec_module(m)
import types
import symx
import native
import drive
sys.path.insert(0, "/repo/python")
lib = types.ModuleType("sparseglm._lib")
sys.modules["sparseglm._lib"] = lib
import sklearn.base, sklearn.utils  # noqa: before the number functions are wrapped
import importlib


def harnesses(prop):
    return importlib.import_module(prop.lower()).HARNESSES


if sys.argv[1] == "replay":
    sys.exit(drive.replay(sys.argv[2], harnesses(json.load(open(sys.argv[2]))["property"])))
symx.install_math()
sys.exit(drive.main(sys.argv[1], harnesses(sys.argv[1]), sys.argv[2:]))
