#!/usr/bin/env python3
"""setup_cmd: builds the variants of the library the checks use, so that each check only needs an incremental build."""
import os, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True
import build
def one(v):
    t = ["ArcWelder", "GcodeProcessorLib"] + {"rel": ["ArcWelderConsole", "ArcStraightener", "PyArcWelder"], "asan": ["ArcWelderConsole", "ArcStraightener"]}.get(v, [])
    if v == "pyasan": t = ["PyArcWelder"]
    build.build(v, t)
    if v == "pyasan": return
    if v == "fuzz": build.driver(v, "weld_fuzz", extra_flags=("-fsanitize=fuzzer",))
    else: build.driver(v, "weld_driver")
with ThreadPoolExecutor(3) as ex: list(ex.map(one, ["rel", "asan", "tsan", "fuzz", "dbg", "pyasan"]))
print("ok")
