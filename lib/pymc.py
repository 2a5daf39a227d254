"""Stateless model checker for Python code: exhaustive depth-first enumeration of every choice
sequence of a scenario, executed on the real code, divided among worker processes (the counterpart
of mc.hpp).  The parent never loads the code under test; a worker that dies or hangs is a violation
of the execution it was in."""
import sys, os, json, time, mmap, struct, subprocess, hashlib, traceback

class Violation(Exception):
    def __init__(self, key, msg): super().__init__(key + ": " + msg); self.key, self.msg = key, msg
class Skip(BaseException): pass
class Prune(BaseException): pass

class Ctx:
    def __init__(self, split, wi, n):
        self.split, self.wi, self.n = split, wi, n
        self.trail, self.pos, self.index, self.owned, self.replay = [], 0, -1, False, False
        self.steps, self.trace, self.hook = 0, [], None
        self.states, self.outcomes, self.seen = set(), {}, []
    def choose(self, n):
        if n <= 0: raise Violation("harness", "choose(0)")
        if not self.replay and not self.owned and self.pos == self.split: self.claim()
        if self.pos < len(self.trail):
            c, a = self.trail[self.pos]
            if a != n:
                if not (self.replay and c < n): raise Violation("harness", "nondeterministic execution: arity changed at depth %d" % self.pos)
        else:
            c = 0; self.trail.append((0, n))
        self.pos += 1
        if self.hook: self.hook(self)
        return c
    def claim(self):
        self.owned = True
        h = hashlib.md5(repr(self.trail[:self.split]).encode()).digest()
        if h[0] % self.n != self.wi: raise Skip()
    def pick(self, l): return l[self.choose(len(l))]
    def flip(self): return self.choose(2) == 1
    def fail(self, key, msg): raise Violation(key, msg)
    def say(self, s): self.trace.append(s)
    def step(self, n=1): self.steps += n
    def state(self, x): self.states.add(hash(x) if isinstance(x, (int, str, bytes, tuple)) else hash(repr(x)))
    def outcome(self, x): self.seen.append(x)
    def advance(self):
        t = self.trail; del t[self.pos:]
        while t and t[-1][0] + 1 >= t[-1][1]: t.pop()
        if not t: return False
        t[-1] = (t[-1][0] + 1, t[-1][1])
        if len(t) <= self.split: self.owned = False
        return True

def worker(scenarios, name, wi, n, board, deadline, cleanup=None, replay=None):
    """explores what belongs to this worker; prints one JSON line; board is a file that shows the execution under way"""
    f = open(board, "r+b"); mm = mmap.mmap(f.fileno(), 4096)
    split, body = scenarios[name]
    c = Ctx(split, wi, n); execs = steps = maxd = 0; samples = []; res = {"done": True}
    def show(c):
        mm[0:8] = struct.pack("<Q", execs + 1); s = json.dumps([x for x, _ in c.trail]).encode()[:4000]
        mm[8:12] = struct.pack("<I", len(s)); mm[12:12 + len(s)] = s
    c.hook = show
    if replay is not None:
        c.trail = [(x, 0) for x in replay]; c.replay = c.owned = True
        try: body(c); print("no violation"); rc = 0
        except Violation as e: print("VIOLATED %s: %s" % (e.key, e.msg)); rc = 1
        print("trail %s" % [x for x, _ in c.trail])
        for t in c.trace: print("  " + t)
        return rc
    while True:
        c.pos = 0; c.steps = 0; c.trace = []; c.seen = []; own = True
        try:
            body(c)
            if not c.owned and wi != 0: own = False   # ended before the work was divided: counted once
        except Skip: own = False
        except Prune: own = own and (c.owned or wi == 0)
        except Violation as e:
            res = {"done": False, "key": e.key, "msg": e.msg, "trail": [x for x, _ in c.trail[:c.pos]], "trace": c.trace[-60:]}; break
        except Exception as e:
            res = {"done": False, "key": "exception:" + type(e).__name__, "msg": traceback.format_exc()[-3000:], "trail": [x for x, _ in c.trail[:c.pos]], "trace": c.trace[-60:]}; break
        finally:
            if cleanup: cleanup()
        if own:
            execs += 1; steps += c.steps; maxd = max(maxd, c.pos)
            for x in c.seen: c.outcomes[x] = c.outcomes.get(x, 0) + 1
            if len(samples) < 1 and c.trace and execs > 3: samples.append("; ".join(c.trace)[:800])
        else: show(c)
        if not c.advance(): break
        if time.time() > deadline: res = {"done": True, "cap": True}; break
    res.update(execs=execs, steps=steps, maxd=maxd, samples=samples, states=list(c.states)[:400000], outcomes=c.outcomes)
    sys.stdout.write("\nRESULT " + json.dumps(res) + "\n"); sys.stdout.flush()
    return 0

def known(path, prop):
    k = {}
    if os.path.exists(path):
        for l in open(path):
            if l.startswith("open:"):
                w = l[5:].split()
                if len(w) > 1 and w[0] == "property=" + prop and w[1].startswith("key="): k[w[1][4:]] = " ".join(w[2:])
    return k

def explore(prop, tier, names, command, env, here, bounds, assumptions, cap, stall=60, nworkers=8):
    t0 = time.time(); kn = known(os.path.join(here, "known_findings.txt"), prop)
    tot = dict(execs=0, steps=0); states = set(); outcomes = {}; samples = []; scj = []; viol = None; complete = True; seen = {}
    os.makedirs(os.path.join(here, "replays"), exist_ok=True)
    for name in names:
        s0 = time.time(); procs = []; st = dict(execs=0, steps=0, maxd=0); sstates = set(); done = True
        for i in range(nworkers):
            board = "/dev/shm/pymc-%s-%d-%d" % (prop, os.getpid(), i)
            with open(board, "wb") as f: f.write(b"\0" * 4096)
            e = open(board + ".err", "wb"); o = open(board + ".out", "wb")
            p = subprocess.Popen(command + ["--worker", name, str(i), str(nworkers), board, str(t0 + cap), tier], env=env, stdout=o, stderr=e, stdin=subprocess.DEVNULL, start_new_session=True)
            procs.append([p, board, 0, time.time(), o, e])
        bad = []
        def trail(board):
            b = open(board, "rb").read(); n = struct.unpack("<I", b[8:12])[0]
            try: return json.loads(b[12:12 + n] or b"[]")
            except ValueError: return []
        live = list(procs)
        while live:
            time.sleep(0.05)
            for q in list(live):
                p, board = q[0], q[1]; b = open(board, "rb").read(12); seq = b
                if seq != q[2]: q[2], q[3] = seq, time.time()
                if p.poll() is None:
                    if time.time() - q[3] > stall:
                        os.killpg(p.pid, 9); p.wait(); bad.append(dict(key="hang", msg="no progress for %d s" % stall, trail=trail(board), trace=[])); live.remove(q)
                    continue
                live.remove(q); q[4].close(); q[5].close()
                out = open(board + ".out", "rb").read().decode(errors="replace"); err = open(board + ".err", "rb").read().decode(errors="replace")
                r = [l for l in out.split("\n") if l.startswith("RESULT ")]
                if not r: bad.append(dict(key="crash", msg="worker ended with status %s: %s" % (p.returncode, err[-3500:] or out[-1500:]), trail=trail(board), trace=[])); continue
                r = json.loads(r[-1][7:])
                st["execs"] += r["execs"]; st["steps"] += r["steps"]; st["maxd"] = max(st["maxd"], r["maxd"]); sstates.update(r["states"]); samples += r["samples"][:1]
                for k, v in r["outcomes"].items(): outcomes[k] = outcomes.get(k, 0) + v
                if r.get("cap"): done = False
                if not r["done"]: bad.append(r)
            if bad:
                for q in live: os.killpg(q[0].pid, 9); q[0].wait()
                live = []
        for q in procs:
            for x in ("", ".err", ".out"):
                try: os.unlink(q[1] + x)
                except OSError: pass
        tot["execs"] += st["execs"]; tot["steps"] += st["steps"]; states |= sstates; complete = complete and done
        scj.append(dict(scenario=name, deviations=0, executions=st["execs"], transitions=st["steps"], states=len(sstates), max_depth=st["maxd"], exhausted=done and not bad, wall_s=round(time.time() - s0, 2)))
        print(json.dumps(scj[-1])); sys.stdout.flush()
        for b in bad:
            if b["key"] in kn: seen[b["key"]] = seen.get(b["key"], 0) + 1; continue
            path = os.path.join(here, "replays", "%s-%s.replay" % (prop, name))
            with open(path, "w") as f: f.write("property %s\ntier %s\nscenario %s\ntrail %s\nreport\n%s: %s\n%s\n" % (prop, tier, name, " ".join(map(str, b["trail"])), b["key"], b["msg"], "\n".join(b["trace"])))
            print("MCKEY %s\nMCMSG %s" % (b["key"], b["msg"])); viol = path; break
        if viol: break
    for k, n in seen.items(): print("KNOWN-FINDING: property=%s %s (%s)" % (prop, kn[k], k))
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking",
              coverage=dict(states=len(states) or tot["execs"], transitions=tot["steps"] or tot["execs"], executions=tot["execs"], traces_validated_against_impl=tot["execs"], exhaustive=complete and not viol,
                            samples=samples[:6] or ["(no trace recorded)"], scenarios=scj, outcomes=outcomes),
              assumptions=assumptions, bounds=bounds, wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    with open(os.path.join(here, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("outcomes: " + " ".join("%s=%d" % kv for kv in sorted(outcomes.items())))
    print("%s %s: %d executions, %d transitions, %d states, %.1f s%s" % (prop, tier, tot["execs"], tot["steps"], len(states), time.time() - t0, "" if complete else " (time cap reached)"))
    if viol: print("VIOLATION property=%s replay=%s" % (prop, viol)); return 1
    return 0
