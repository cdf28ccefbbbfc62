"""driver.js over a process with the functions of libs/api/wasm, joined by pipes."""
import os, subprocess, sys

r1, w1 = os.pipe()
r2, w2 = os.pipe()
subprocess.Popen([os.environ["RT_API"], "wasm"], stdin=r1, stdout=w2)
os.close(r1)
os.close(w2)
os.set_inheritable(r2, True)
os.set_inheritable(w1, True)
os.environ["RT_FDS"] = "%d,%d" % (r2, w1)
os.execvp("node", ["node", sys.argv[1]])
