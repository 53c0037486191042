"""Python counterpart of vc.h: runs each case in its own process, with a time limit, and writes one JSON line per case."""
import hashlib, json, os, signal, sys, time, traceback

class Result:
    def __init__(self): self.states = set(); self.transitions = self.traces = self.evaluations = 0; self.samples = []; self.viol = {}; self.counters = {}; self.note = ""; self.exhaustive = True
R = Result(); THOROUGH = False
def thorough(): return THOROUGH
def state(s):
    if len(R.samples) < 3: R.samples.append(str(s)[:200])
    R.states.add(hashlib.blake2b(str(s).encode(), digest_size=8).digest())
def step(n=1): R.transitions += n
def trace(n=1): R.traces += n
def note(s): R.note = str(s)[:400]
def expect(ok, key, detail):
    R.evaluations += 1
    if not ok:
        v = R.viol.setdefault(key, [0, ""]); v[0] += 1
        if v[0] == 1: v[1] = (detail() if callable(detail) else str(detail))[:600]
    return ok
def _row(name, t0): return {"case": name, "states": len(R.states), "transitions": R.transitions, "traces": R.traces, "evaluations": R.evaluations, "exhaustive": R.exhaustive, "wall_s": round(time.time() - t0, 3), "counters": R.counters, "samples": R.samples, "violations": [{"key": k, "count": v[0], "detail": v[1]} for k, v in R.viol.items()]}
def run(cases):
    global R, THOROUGH
    out, only, jobs = "/dev/stdout", "", 8; a = sys.argv[1:]
    while a:
        k = a.pop(0)
        if k == "--out": out = a.pop(0)
        elif k == "--tier": THOROUGH = a.pop(0) == "thorough"
        elif k == "--only": only = a.pop(0)
    cases = [c for c in cases if only in c[0]]; lim = 3000 if THOROUGH else 400; live = {}; rows = []; nxt = 0; base = os.environ.get("VERIF_SCRATCH", "/tmp")
    while nxt < len(cases) or live:
        while nxt < len(cases) and len(live) < jobs:
            name, fn = cases[nxt]; part = os.path.join(base, "part-%d-%d" % (os.getpid(), nxt)); sys.stdout.flush(); pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.setpgid(0, 0); t0 = time.time(); R = Result(); globals()["R"] = R
                    if not os.environ.get("VC_VERBOSE"):
                        n = os.open("/dev/null", os.O_WRONLY); os.dup2(n, 1)
                    try: fn()
                    except BaseException as e: expect(False, "exception:" + name, "uncaught %s: %s while exploring: %s\n%s" % (type(e).__name__, e, R.note, traceback.format_exc()[-300:]))
                    sys.settrace(None)
                    with open(part, "w") as f: f.write(json.dumps(_row(name, t0)) + "\n")
                except BaseException: traceback.print_exc(); code = 9
                os._exit(code)
            live[pid] = [name, part, time.time(), False]; nxt += 1
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid in live:
            name, part, t0, killed = live.pop(pid)
            try: rows.append(json.loads(open(part).read())); os.remove(part)
            except Exception:
                R = Result(); expect(False, ("hang:" if killed else "crash:") + name, "status %d" % st); R.exhaustive = False; rows.append(_row(name, t0))
            try: os.killpg(pid, signal.SIGKILL)
            except OSError: pass
        for p, l in live.items():
            if time.time() - l[2] > lim and not l[3]:
                l[3] = True
                try: os.killpg(p, signal.SIGKILL)
                except OSError: os.kill(p, signal.SIGKILL)
        time.sleep(0.003)
    with open(out, "w") as f:
        for r in rows: f.write(json.dumps(r) + "\n")
