"""Scenarios -> driver -> trace -> TLC -> verdict, and the bookkeeping of a check."""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
WORK = os.path.join(VERIF, "build", "work")
REPLAY = os.path.join(VERIF, "build", "replay")
EVID = os.path.join(VERIF, "evidence")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)


class ModelError(Exception):
    """The machinery (not the library) failed: an error exit."""


# ---------------------------------------------------------------- driver
def _drive_shard(exe, scens, tag, env):
    d = tempfile.mkdtemp(prefix=f"drv-{tag}-", dir=WORK)
    try:
        inp, out = d + "/in.ndjson", d + "/out.ndjson"
        with open(inp, "w") as f:
            for s in scens:
                f.write(json.dumps(s, separators=(",", ":")) + "\n")
        events = [[] for _ in scens]
        first = 0
        crashes = 0
        open(out, "w").close()
        while first < len(scens):
            p = subprocess.run([exe, inp, out, str(first)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                               env={**os.environ, **env, "LC_ALL": "C.UTF-8"}, cwd=d)
            done, cur = set(), None
            evs = {}
            with open(out) as f:
                for ln in f:
                    try:
                        r = json.loads(ln)
                    except ValueError:
                        continue            # a line cut by a crash
                    i, e = r["i"], r["e"]
                    if e["ev"] == "begin":
                        cur = i
                        evs[i] = []
                    elif e["ev"] == "end":
                        done.add(i)
                    else:
                        evs[i].append(e)
            for i in done:
                events[i] = evs[i]
            open(out, "w").close()
            if p.returncode == 0:
                if len([i for i in done]) + first != len(scens) and False:
                    raise ModelError("driver stopped early")
                break
            if p.returncode in (96, 97) or cur is None:
                raise ModelError(f"driver failed ({p.returncode}): {p.stderr.decode(errors='replace')[-2000:]}")
            # the library crashed, hung or aborted in scenario `cur`
            err = p.stderr.decode(errors="replace")
            events[cur] = evs.get(cur, []) + [{"ev": "crash", "sig": -p.returncode if p.returncode < 0 else p.returncode,
                                               "what": _crash_text(err)}]
            first = cur + 1
            crashes += 1
            if crashes > 60:                # enough: the remaining scenarios are left out
                for j in range(first, len(scens)):
                    events[j] = None
                break
        return events
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _crash_text(err):
    m = re.search(r"(ERROR: AddressSanitizer[^\n]*|WARNING: ThreadSanitizer[^\n]*|terminate called[^\n]*|runtime error[^\n]*)", err)
    return (m.group(1) if m else err.strip().splitlines()[-1] if err.strip() else "").encode("ascii", "replace").decode()[:300]


def drive(exe, scens, tag="x", env=None, shards=NCPU):
    """Returns, per scenario, the list of observed events (None if it was not run)."""
    os.makedirs(WORK, exist_ok=True)
    n = max(1, min(shards, len(scens)))
    parts = [list(range(k, len(scens), n)) for k in range(n)]
    res = [None] * len(scens)
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        for part, evs in zip(parts, ex.map(lambda p: _drive_shard(exe, [scens[i] for i in p], tag, env or {}), parts)):
            for i, e in zip(part, evs):
                res[i] = e
    for r in res:
        for e in r or []:
            if e["ev"] == "throw" and (e["what"].startswith("[json") or e["what"].startswith("bad ") or "map::at" in e["what"]):
                raise ModelError("driver: " + e["what"])
    return res


def to_trace(sc, events):
    """The trace line: what the specification needs to know of the scenario, and the events."""
    t = {k: v for k, v in sc.items() if k not in ("steps", "id", "limit", "texts_only", "note")}
    t["events"] = events
    for k in ("engines", "ctxs", "progs", "ins"):
        t.setdefault(k, [])
    for e in t["engines"]:
        e.setdefault("save", 0)
    return t


def printed(out, tag):
    """the tuples <<"tag", ..., "json">> TLC printed, as (middle integers, decoded json)"""
    r = []
    for ln in out.splitlines():
        if ln.startswith(f'<<"{tag}", '):
            m = re.match(r'<<"%s", ((?:-?\d+, )*)(".*")>>$' % tag, ln)
            r.append(([int(x) for x in m.group(1).split(", ") if x], json.loads(json.loads(m.group(2)))))
    return r


# ---------------------------------------------------------------- TLC
def tlc(module, cfg=None, env=None, workers=1, args=(), timeout=1500, heap="3g"):
    os.makedirs(WORK, exist_ok=True)
    md = tempfile.mkdtemp(prefix="tlc-", dir=WORK)
    try:
        cmd = ["java", f"-Djava.io.tmpdir={md}", "-Xss512m", f"-Xmx{heap}", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4",
               "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", *args]
        if cfg:
            cmd += ["-config", cfg]
        cmd.append(module)
        p = subprocess.run(cmd, cwd=SPEC, capture_output=True, text=True, timeout=timeout, env={**os.environ, **(env or {})})
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as e:
        raise ModelError(f"TLC on {module} exceeded {timeout} s")
    finally:
        shutil.rmtree(md, ignore_errors=True)


def tlc_stats(out):
    m = re.search(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
    if not m:
        raise ModelError("TLC gave no statistics:\n" + out[-3000:])
    return int(m.group(1)), int(m.group(2))


def _validate_shard(module, cfg, traces, timeout):
    fd, path = tempfile.mkstemp(prefix="trace-", suffix=".ndjson", dir=WORK)
    try:
        with os.fdopen(fd, "w") as f:
            for t in traces:
                f.write(json.dumps(t, separators=(",", ":")) + "\n")
        rc, out = tlc(module, cfg, {"TRACE_FILE": path}, args=["-continue"], timeout=timeout)
        rej = {}
        for m in re.finditer(r'<<"REJECT", (\d+), (\d+)>>', out):
            rej[int(m.group(1)) - 1] = int(m.group(2)) - 1
        gen, distinct = tlc_stats(out)
        want = sum((rej[i] + 2) if i in rej else len(t["events"]) + 1 for i, t in enumerate(traces))
        if distinct != want or "Error: Evaluating" in out or "TLC threw" in out or rc not in (0, 12):
            raise ModelError(f"{module}: {distinct} states, expected {want} (rc {rc}):\n" + out[-4000:])
        return rej, gen, distinct
    finally:
        os.remove(path)


def validate(module, traces, cfg=None, shards=NCPU, timeout=1500):
    """TLC checks every trace.  Returns ({scenario: rejected event}, states generated, distinct)."""
    os.makedirs(WORK, exist_ok=True)
    n = max(1, min(shards, (len(traces) + 3) // 4))
    parts = [list(range(k, len(traces), n)) for k in range(n)]
    rej, gen, distinct = {}, 0, 0
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        for part, r in zip(parts, ex.map(lambda p: _validate_shard(module, cfg, [traces[i] for i in p], timeout), parts)):
            for i, e in r[0].items():
                rej[part[i]] = e
            gen += r[1]
            distinct += r[2]
    return rej, gen, distinct


# ---------------------------------------------------------------- a check
class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.states = self.transitions = self.traces = 0
        self.violations, self.samples, self.notes = [], [], {}
        self.known = self._known()
        self.known_hit = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def _known(self):
        """known-findings.jsonl: {"property", "key", "what"}; a scenario carries its key."""
        r = {}
        p = os.path.join(VERIF, "known-findings.jsonl")
        if os.path.exists(p):
            for ln in open(p):
                if ln.strip():
                    d = json.loads(ln)
                    if d.get("status") == "open" and d["property"] == self.pid:
                        r[d["key"]] = d["what"]
        return r

    def model(self, module, cfg=None, workers=NCPU, args=(), timeout=800, label=None, fails=False):
        """Exhaustive (or simulated) checking of a specification by itself; fails: an invariant must
        be violated (the model of a design that the property excludes)."""
        rc, out = tlc(module, cfg, workers=workers, args=args, timeout=timeout)
        if rc != (12 if fails else 0):
            raise ModelError(f"model {module}/{cfg} fails (rc {rc}):\n{out[-4000:]}")
        gen, distinct = tlc_stats(out)
        self.states += distinct
        self.transitions += gen
        self.notes.setdefault("models", []).append({"model": label or cfg or module, "states": distinct, "transitions": gen})
        return out

    def conform(self, exe, scens, module, cfg=None, label="", env=None, shards=NCPU, tries=1):
        """Run scenarios against the library and validate what was observed."""
        evs = drive(exe, scens, self.pid, env, shards)
        idx = [i for i, e in enumerate(evs) if e is not None]
        traces = [to_trace(scens[i], evs[i]) for i in idx]
        rej, gen, distinct = validate(module, traces, cfg)
        self.states += distinct
        self.transitions += gen
        self.traces += len(traces)
        nev = sum(len(t["events"]) for t in traces)
        fam = self.notes.setdefault("families", {}).setdefault(label or module, {"scenarios": 0, "events": 0})
        fam["scenarios"] += len(traces)
        fam["events"] += nev
        if len(self.samples) < 12 and traces:
            k = len(traces) // 2
            self.samples.append({"family": label, "scenario": _short(scens[idx[k]]), "events": _short(traces[k]["events"][:3])})
        # report a rejection only if a re-run repeats it
        bad = sorted(rej)
        new = [k for k in bad if scens[idx[k]].get("key") not in self.known]
        bad = new[:12] + [k for k in bad if k not in new]
        confirmed = []
        for _ in range(tries):      # more than one for what depends on timing
            if bad:
                sub = [scens[idx[k]] for k in bad]
                ev2 = drive(exe, sub, self.pid, env, shards)
                t2 = [to_trace(sc, e) for sc, e in zip(sub, ev2)]
                rej2, _, _ = validate(module, t2, cfg, shards)
                confirmed += [(sub[i], t2[i], rej2[i]) for i in sorted(rej2)]
                bad = [k for i, k in enumerate(bad) if i not in rej2]
        for _ in bad:
            self.notes.setdefault("unrepeated_rejections", []).append(label)
        for sc, t2, at in confirmed:
            self._reject(sc, t2, at, module, label)
        return traces

    def _reject(self, sc, trace, at, module, label):
        key = sc.get("key")
        if key in self.known:
            self.known_hit.setdefault(key, self.known[key])
            return
        self.violation({"label": label, "module": module, "scenario": sc, "event_index": at,
                        "event": trace["events"][at] if at < len(trace["events"]) else None})

    def violation(self, info):
        os.makedirs(REPLAY, exist_ok=True)
        h = hashlib.sha256(json.dumps(info, sort_keys=True).encode()).hexdigest()[:12]
        path = f"{REPLAY}/{self.pid}-{h}.json"
        with open(path, "w") as f:
            json.dump(info, f, indent=1)
        self.violations.append(path)

    def known_finding(self, key):
        """A listed finding whose failure was reproduced outside conform()."""
        self.known_hit.setdefault(key, self.known[key])

    def finish(self, assumptions=(), exhaustive=None):
        os.makedirs(EVID, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples or ["none"], **self.notes}
        if exhaustive is not None:
            cov["exhaustive"] = exhaustive
        with open(f"{EVID}/{self.pid}.json", "w") as f:
            json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
                       "coverage": cov, "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 1),
                       "violations": len(self.violations)}, f, indent=1)
        for k, w in self.known_hit.items():
            print(f"KNOWN-FINDING: property={self.pid} {w}")
        for k in self.known:
            if k not in self.known_hit:
                print(f"note: listed finding {k} did not occur in this run")
        if self.violations:
            for p in self.violations[:20]:
                print(f"VIOLATION property={self.pid} replay={p}")
            return 1
        print(f"{self.pid}: held on {self.traces} traces, {self.states} states, {round(time.time() - self.t0, 1)} s")
        return 0


def _short(x, n=1500):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."
