"""replay.py <replay.json>: run a recorded counterexample through the real code again."""
import json, sys, tempfile, shutil, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine, props
d = json.load(open(sys.argv[1]))
job = next(j for j in props.PROPS[d["property"]]["jobs"] if j.name == d["job"])
w = tempfile.mkdtemp(prefix="vreplay_")
try:
    print(engine.replay(job, engine.Builder(w), [int(x) for x in d["tape"]]))
finally:
    shutil.rmtree(w, ignore_errors=True)
