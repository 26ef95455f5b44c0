#!/usr/bin/env python3
"""Replay one recorded violation, verbosely: replay.py FILE"""
import sys, os, json, tempfile, shutil, subprocess
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE + "/engine"); sys.path.insert(0, HERE)
import build
from checks import CHECKS
r = json.load(open(sys.argv[1])); h = [x for x in CHECKS[r["property"]]["harnesses"] if x["name"] == r["harness"]][0]
w = tempfile.mkdtemp(prefix="dlbmc.replay.")
try:
    v = h.get("dlb", ())
    if "native" in v: exe = build.build_native(w, h["name"], h["name"] + ".cpp")
    else:
     o = build.build_dlb(w, tsan="tsan" in v, debug="debug" in v, mpi="mpi" in v)
     exe = build.build_prog(w, h["name"], [HERE + "/h/" + h["name"] + ".cpp"], o, [HERE + "/h/" + s for s in h.get("shims", ())], cxxflags=h.get("cxxflags", ()))
    sys.exit(subprocess.run([exe, "--job", r["job"], "--level", str(r["level"]), "--replay", r["violation"]["path"]] + (["--thorough"] if r["tier"] == "thorough" else []), env=dict(os.environ, VN_VERBOSE="1")).returncode)
finally: shutil.rmtree(w, ignore_errors=True)
