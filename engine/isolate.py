"""Server process which runs the real code of one harness, so that a run which
never returns can be abandoned: python -m engine.isolate C23 "harness name"
(one JSON request per line on stdin, one pickled answer per request)."""
import base64
import json
import os
import pickle
import subprocess
import sys
import threading
import queue


class Client:
    def __init__(self, pid, name, timeout=60.0):
        root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        self.p = subprocess.Popen([sys.executable, "-m", "engine.isolate", pid, name], cwd=root, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, bufsize=1)
        self.q = queue.Queue()
        self.timeout = timeout
        threading.Thread(target=self._read, daemon=True).start()

    def _read(self):
        for line in self.p.stdout:
            if line.startswith("ANSWER "):
                self.q.put(line[7:])
        self.q.put(None)

    def ask(self, env, opaques):
        """outputs (numpy leaves), or raises what the real code raised / TimeoutError"""
        self.p.stdin.write(json.dumps(dict(env=env, opaques=opaques)) + "\n")
        self.p.stdin.flush()
        try:
            a = self.q.get(timeout=self.timeout)
        except queue.Empty:
            self.close()
            raise TimeoutError(f"the call does not return within {self.timeout:.0f} s")
        if a is None:
            raise RuntimeError("the process running the real code died")
        ok, v = pickle.loads(base64.b64decode(a))
        if ok:
            return v
        raise RuntimeError(v)

    def close(self):
        try:
            self.p.kill()
        except Exception:
            pass


def serve(pid, name):
    from . import run, opaque

    m, hs = run.load(pid)
    from . import harness
    import jax
    import numpy as np

    h = next(x for x in hs if x.name == name)
    r = harness.Run(h, "quick", 1, 60)
    os.environ["VERIF_ISOLATED"] = "1"
    for line in sys.stdin:
        d = json.loads(line)
        opaque.CONCRETE.clear()
        for k, j in d["opaques"].items():
            opaque.CONCRETE[k] = opaque.Poly.from_json(j)
        opaque.CONCRETE.update(h.concrete)
        out, exc = r.conc_call(d["env"])
        if exc is None:
            ans = (True, jax.tree_util.tree_map(np.asarray, out))
        else:
            ans = (False, f"{type(exc).__name__}: {exc}")
        print("ANSWER " + base64.b64encode(pickle.dumps(ans)).decode(), flush=True)


if __name__ == "__main__":
    serve(sys.argv[1], sys.argv[2])
