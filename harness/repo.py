"""Puts the repository's packages (and stand-ins for packages that are not installed) on the path, from /repo's working tree."""
import os, sys, logging
from vlib import REPO

STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs")
_done = set()


def _add(*parts):
    p = os.path.join(REPO, *parts)
    if p not in sys.path:
        sys.path.insert(0, p)


def use(*what):
    logging.disable(logging.CRITICAL)
    for w in what:
        if w in _done:
            continue
        _done.add(w)
        if w == "core": _add("core")
        elif w == "engine": use("core", "stubs"); _add("inference_engine")
        elif w == "stubs":
            sys.path.append(STUBS)
            import keras_stub, misc_stub
            keras_stub.install(); misc_stub.install()
        elif w == "quantizer": use("core", "engine", "stubs"); _add("quantizer")
        elif w == "keras2json": use("core", "stubs"); _add("model_converters", "keras2json")
        elif w == "onnx2json": use("core", "stubs"); _add("model_converters", "onnx2json")
        elif w == "tflite2json": use("core", "stubs"); _add("model_converters", "tflite2json")
        elif w == "demo": use("core", "engine", "stubs"); _add("demo", "demo_lib")
