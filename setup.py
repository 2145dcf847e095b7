"""setup_cmd: self-checks the exact arithmetic the specifications judge with, and its native evaluation."""
import glob, json, os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
import vlib
native = os.path.join(vlib.SPEC, "native")
with tempfile.TemporaryDirectory() as d:
    tables = []
    for cp in (vlib.CP, vlib.CP.replace(native + ":", "")):
        vlib.CP = cp
        r = vlib.tlc("NumTest", "INIT Init\nNEXT Next\nINVARIANT OK\nCONSTANT R = 12\n", d, workers=4)
        print("NumTest", r["distinct"], "states", "(native)" if native in cp else "(definitions)")
        assert ("Loading DAdd" in r["out"]) == (native in cp), r["out"][-3000:]
        out = os.path.join(d, f"cross{len(tables)}.json")
        vlib.tlc("NumCross", "INIT Init\nNEXT Next\nPOSTCONDITION Emit\n", d, env={"OUT": out})
        tables.append(open(out).read())
    assert tables[0] == tables[1] and len(tables[0]) > 100000, "the native operators differ from their definitions"
    print("NumCross", len(tables[0]), "characters of results agree")
    r = vlib.tlc("TranscTest", "INIT Init\nNEXT Next\nINVARIANT OK\n", d, workers=4)
    print("TranscTest", r["distinct"], "states")
