"""Nothing to build ahead: every check compiles what it needs.  Shows that the tools are there and the specification parses."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import engine
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
for m in sorted(os.listdir(os.path.join(V, "spec"))):
    if not m.endswith(".tla"): continue
    r = subprocess.run(["java", "-cp", engine.CP, "tla2sany.SANY", m], cwd=os.path.join(V, "spec"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0: print(r.stdout); sys.exit(1)
for c in (["g++", "--version"], ["clang++", "--version"]): subprocess.run(c, check=True, stdout=subprocess.DEVNULL)
print("ok")
