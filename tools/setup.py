"""Checks that what the checks need is there, and that all harnesses build from /repo's tree."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.dont_write_bytecode = True
import hypothesis
from vlib import build
d = tempfile.mkdtemp(prefix="wvcheck-", dir="/tmp")
try:
    for k in build.KINDS:
        build.build(k, d)
    print("ready: hypothesis %s, %d harnesses build" % (hypothesis.__version__, len(build.KINDS)))
finally:
    shutil.rmtree(d, ignore_errors=True)
