"""Run one check on an overlay: try1.py ID SPECFILE (a Python list of (file, old, new))."""
import sys, os, threading
sys.path.insert(0, '/verif/tools')
from mut import apply, run, Model
def go():
    run(sys.argv[1], model=Model(overlay=apply(eval(open(sys.argv[2]).read()))), write=False, quiet=False)
t = threading.Thread(target=go); t.start(); t.join()
