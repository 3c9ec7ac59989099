"""
Shared machinery of the checks: running TLC (exhaustive model checking, behaviour
generation, trace judging), running the drivers which exercise the real mabel code, and
reporting (evidence, known findings, violations).

Plain python3 standard library only. The drivers run in /opt/venv (where mabel and its
dependencies are installed).
"""
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
EVIDENCE = os.path.join(VERIF, "evidence")
REPO = os.environ.get("VERIF_REPO", "/repo")
PYTHON = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = max(2, min(8, os.cpu_count() or 2))


class MachineryError(Exception):
    """the check itself couldn't do its work: no verdict"""


class TlcResult:
    def __init__(self):
        self.generated = 0
        self.distinct = 0
        self.depth = 0
        self.lines = []
        self.out = ""
        self.wall = 0.0


def _tla_safe(v, path="$"):
    """the JSON reader of TLC has no null and no fractions"""
    if isinstance(v, bool):
        return
    if isinstance(v, int):
        if not -(2**31) < v < 2**31:
            raise MachineryError(f"integer out of range at {path}: {v}")
        return
    if isinstance(v, str):
        if any(ord(c) > 126 or ord(c) < 32 for c in v):
            raise MachineryError(f"unsafe text at {path}: {v!r}")
        return
    if isinstance(v, list):
        for i, x in enumerate(v):
            _tla_safe(x, f"{path}[{i}]")
        return
    if isinstance(v, dict):
        if not v:
            raise MachineryError(f"empty record at {path}")
        for k, x in v.items():
            _tla_safe(x, f"{path}.{k}")
        return
    raise MachineryError(f"unsafe value at {path}: {v!r}")


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.rng = random.Random(f"{prop}-{seed}")
        self.scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.models = []
        self.gens = []
        self.kinds = {}
        self.samples = []
        self.distinct = set()
        self.rejects = []  # (case, clause, judge module)
        self.notes = []
        self.level = "model_checking"
        self.assumptions = []
        self.extra = {}

    # ---------------------------------------------------------------- helpers
    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough=None):
        """the number of something for this tier"""
        if self.thorough:
            return thorough if thorough is not None else quick * 10
        return quick

    def log(self, *a):
        print(f"[{self.prop} {time.time()-self.t0:6.1f}s]", *a, flush=True)

    # ---------------------------------------------------------------- TLC
    def _cfg(self, cfg, over):
        """a configuration file of spec/, with the constants (or statements) in over replaced"""
        if not over:
            return cfg
        lines = open(os.path.join(SPEC, cfg)).read().splitlines()
        for k, v in over.items():
            v = str(v).upper() if isinstance(v, bool) else v
            if k.isupper() and k in ("INVARIANT", "PROPERTY", "VIEW", "CONSTRAINT", "SPECIFICATION"):
                lines = [x for x in lines if not x.startswith(k)]
                if v:
                    lines.append(f"{k} {v}")
                continue
            pat = re.compile(r"^(CONSTANTS?\s+|\s*)" + re.escape(k) + r"\s*=.*$")
            hit = [i for i, x in enumerate(lines) if pat.match(x)]
            if len(hit) != 1:
                raise MachineryError(f"{cfg} has no constant {k}")
            m = pat.match(lines[hit[0]])
            lines[hit[0]] = f"{m.group(1)}{k} = {v}"
        fd, path = tempfile.mkstemp(suffix=".cfg", dir=self.scratch)
        with os.fdopen(fd, "w") as f:
            f.write("\n".join(lines) + "\n")
        return path

    def tlc(self, module, cfg=None, env=None, args=(), timeout=800, workers=None, heap="6g", over=None):
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.scratch)
        cfg = cfg or module + ".cfg"
        cmd = [
            "java",
            "-XX:+UseParallelGC",
            f"-Xmx{heap}",
            "-Xss16m",
            "-cp",
            JARS,
            "tlc2.TLC",
            "-workers",
            str(workers or NPROC),
            "-metadir",
            meta,
            "-noGenerateSpecTE",
            "-deadlock",
            "-config",
            self._cfg(cfg, over),
            *args,
            module + ".tla",
        ]
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        try:
            p = subprocess.run(
                cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout
            )
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC on {module} took more than {timeout}s")
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        r = TlcResult()
        r.wall = time.time() - t
        r.out = p.stdout.decode("utf8", "replace")
        r.rc = p.returncode
        r.lines = r.out.splitlines()
        for m in re.finditer(r"^(\d+) states generated, (\d+) distinct states found", r.out, re.M):
            r.generated, r.distinct = int(m.group(1)), int(m.group(2))
        for m in re.finditer(r"The number of states generated: (\d+)", r.out):  # simulation
            r.generated = int(m.group(1))
        m = re.search(r"depth of the complete state graph search is (\d+)", r.out)
        if m:
            r.depth = int(m.group(1))
        self.states += r.distinct
        self.transitions += r.generated
        return r

    def mc(self, module, cfg=None, expect_violation=None, args=(), timeout=800, over=None, **kw):
        """
        Exhaustive model checking of a design model. With expect_violation the model must
        violate that invariant or property: used to show that the model isn't vacuous (a
        deliberately broken design is found out).
        """
        r = self.tlc(module, cfg, args=args, timeout=timeout, over=over, **kw)
        bad = re.search(r"(Invariant (\S+) is violated|Temporal properties were violated|Action property (\S+).* is violated|property (\S+) is violated)", r.out)
        if expect_violation:
            if not bad or (expect_violation is not True and expect_violation not in bad.group(0)):
                raise MachineryError(f"{module}/{cfg}: expected a violation of {expect_violation}\n" + r.out[-3000:])
        else:
            if bad or r.rc != 0 or "Model checking completed. No error has been found" not in r.out:
                raise MachineryError(f"model {module}/{cfg} fails on its own:\n" + r.out[-6000:])
        self.models.append(
            dict(model=module, cfg=cfg or module + ".cfg", distinct_states=r.distinct,
                 states_generated=r.generated, depth=r.depth, wall_s=round(r.wall, 1),
                 **({"constants": {k: str(x) for k, x in over.items()}} if over else {}),
                 **({"broken_variant_detected": str(expect_violation)} if expect_violation else {}))
        )
        self.log(f"model {cfg or module} {over or ''}{' (broken, found)' if expect_violation else ''}: {r.distinct} distinct states, depth {r.depth}, {r.wall:.1f}s")
        return r

    def mc_broken(self, module, variants, over=None, invariant=True, name="BUG", cfg=None, timeout=800):
        """every deliberately broken variant of a design must be found out (run side by side)"""
        from concurrent.futures import ThreadPoolExecutor

        def one(b):
            o = dict(over or {})
            inv = invariant
            if isinstance(b, tuple):
                b, inv, extra = (*b, {})[:3]
                o.update(extra)
            o[name] = f'"{b}"'
            if isinstance(inv, str) and inv.startswith("prop:"):
                inv = True
            elif isinstance(inv, str):
                o["INVARIANT"] = inv
            return self.mc(module, cfg, expect_violation=inv, over=o, timeout=timeout, workers=2, heap="2g")

        with ThreadPoolExecutor(max_workers=4) as ex:
            list(ex.map(one, variants))

    def gen(self, module, cfg=None, simulate=None, depth=60, limit=None, timeout=800, env=None, over=None):
        """
        Behaviours printed by a model as JSON (PrintT(ToJson(..))): exhaustively when simulate
        is None, or from that many random walks.
        """
        args = []
        workers = None
        if simulate:
            args = ["-simulate", f"num={simulate}", "-depth", str(depth), "-seed", str(self.seed + 1)]
            workers = 1
        r = self.tlc(module, cfg, args=args, timeout=timeout, workers=workers, env=env, over=over)
        res = []
        for line in r.lines:
            if line.startswith('"{') or line.startswith('"['):
                res.append(json.loads(json.loads(line)))
        ok = "No error has been found" in r.out or (simulate and "Error:" not in r.out)
        if not ok or not res:
            raise MachineryError(f"generator {module}/{cfg}:\n" + r.out[-4000:])
        uniq = {json.dumps(x, sort_keys=True): x for x in res}
        res = [uniq[k] for k in sorted(uniq)]
        if limit and len(res) > limit:
            res = self.rng.sample(res, limit)
        self.gens.append(dict(model=module, cfg=cfg or module + ".cfg", mode="simulate" if simulate else "exhaustive",
                              behaviours=len(res), states_generated=r.generated))
        self.log(f"generator {cfg or module}: {len(res)} behaviours, {r.wall:.1f}s")
        return res

    def _verdicts(self, module, slim, cfg, timeout):
        path = os.path.join(self.scratch, f"cases-{module}-{len(self.models)}-{time.time_ns()}.json")
        with open(path, "w") as f:
            json.dump(slim, f)
        r = self.tlc(module, cfg or "T.cfg", env={"CASES": path}, timeout=timeout)
        found = {}
        for line in r.lines:
            m = re.match(r'<<"V", (\d+), "(.*)">>$', line)
            if m:
                found[int(m.group(1))] = m.group(2)
        return found, r, path

    @staticmethod
    def _not_comparable(r):
        """the number of the case at which TLC couldn't compare two values"""
        at = re.findall(r"ci = (\d+)", r.out)
        if at and "Attempted to" in r.out and "when TLC was evaluating" in r.out and not any(
                x in r.out for x in ("Java method", "deserialize", "OutOfMemory", "StackOverflow", "Unknown operator")):
            return int(at[-1])
        return None

    def judge(self, module, cases, cfg=None, timeout=800, sample_key=None):
        """
        TLC evaluates the verdict of the specification on every case. A case is
        {"st": "ok"|"hang"|"crash"|"exc", "scn": .., "obs": ..}.
        """
        if not cases:
            raise MachineryError(f"{module}: nothing to judge")
        slim = []
        for c in cases:
            if c["st"] == "ok":
                s = {"st": "ok", "scn": c["scn"], "obs": c["obs"]}
            else:
                s = {"st": c["st"]}
            _tla_safe(s)
            slim.append(s)
        verdicts, wall, incomparable = {}, 0, 0
        left = list(range(1, len(cases) + 1))
        while left:
            found, r, path = self._verdicts(module, [slim[i - 1] for i in left], cfg, timeout)
            wall += r.wall
            for n, v in found.items():
                verdicts[left[n - 1]] = v
            # an observation which isn't even of the kind the specification compares it with stops TLC at its case
            bad = None if len(found) == len(left) and r.rc == 0 else self._not_comparable(r)
            if bad and bad not in found and bad <= len(left):
                alone, ra, pa = self._verdicts(module, [slim[left[bad - 1] - 1]], cfg, timeout)
                if not alone and self._not_comparable(ra):
                    os.remove(pa)
                    verdicts[left[bad - 1]] = "not comparable"
                    incomparable += 1
                else:
                    bad = None
            else:
                bad = None
            left = [i for i in left if i not in verdicts]
            if bad is None and (left or r.rc != 0):
                keep = os.path.join(EVIDENCE, f"{self.prop}.judge-failure.json")
                shutil.copy(path, keep)
                raise MachineryError(
                    f"judge {module}: {len(verdicts)} verdicts for {len(cases)} cases (kept {keep})\n"
                    + r.out[-5000:]
                )
            os.remove(path)
            if incomparable > 3:
                break
        if left:
            # enough of them are rejected, the others aren't judged
            kept = sorted(verdicts)
            cases, slim = [cases[i - 1] for i in kept], [slim[i - 1] for i in kept]
            verdicts = {n: verdicts[i] for n, i in enumerate(kept, start=1)}
        rej = 0
        for i, c in enumerate(cases, start=1):
            v = verdicts[i]
            k = c.get("kind", "case")
            self.kinds[k] = self.kinds.get(k, 0) + 1
            self.distinct.add(hashlib.sha1(json.dumps(slim[i - 1], sort_keys=True).encode()).digest())
            if v != "ok":
                rej += 1
                self.rejects.append((c, v, module))
        self.validated += len(cases)
        step = max(1, len(cases) // 2)
        for c in cases[:: step][:2]:
            s = json.dumps({"kind": c.get("kind", "case"), "scn": c.get("scn"), "obs": c.get("obs")})
            self.samples.append(s if len(s) < 1500 else s[:1500] + "...")
        self.log(f"judge {module}: {len(cases)} cases, {rej} rejected, {wall:.1f}s")
        return rej

    # ---------------------------------------------------------------- drivers
    def drive(self, driver, scenarios, procs=None, hang_s=120, env=None, kind=None, chunk=None):
        """
        Run the scenarios through harness/<driver>.py in worker processes. Every scenario
        gives a case; a scenario during which the code hangs, dies or lets an unexpected
        exception out gives a case with that status (which every judge rejects).
        """
        t = time.time()
        procs = procs or NPROC
        order = list(range(len(scenarios)))
        groups = [order[i::procs] for i in range(procs)]
        groups = [g for g in groups if g]
        results = {}
        workers = []
        e = dict(os.environ)
        e.update(
            PYTHONDONTWRITEBYTECODE="1", TZ="UTC", PYTHONHASHSEED=str(self.seed % 1000),
            PYTHONPATH=HARNESS + os.pathsep + REPO, VERIF_SEED=str(self.seed), VERIF_SCRATCH=self.scratch,
            OMP_NUM_THREADS="1", ARROW_NUM_THREADS="1", PYTHONUNBUFFERED="1",
        )
        e.update(env or {})

        def start(group):
            wd = tempfile.mkdtemp(prefix="w-", dir=self.scratch)
            inp, out = os.path.join(wd, "in.json"), os.path.join(wd, "out.jsonl")
            with open(inp, "w") as f:
                json.dump([[i, scenarios[i]] for i in group], f)
            open(out, "w").close()
            log = open(os.path.join(wd, "log"), "wb")
            p = subprocess.Popen(
                [PYTHON, os.path.join(HARNESS, "_worker.py"), driver, inp, out],
                cwd=wd, env=e, stdin=subprocess.DEVNULL, stdout=log, stderr=log, start_new_session=True,
            )
            log.close()
            workers.append(dict(p=p, wd=wd, out=out, group=list(group), pos=0, last=time.time(), cur=None))

        def kill(w):
            try:
                os.killpg(w["p"].pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            w["p"].wait()

        for g in groups:
            start(g)
        hangs = 0
        budget = 20000 if self.thorough else 300
        while workers:
            time.sleep(0.05)
            if hangs >= 6 or time.time() - t > budget:
                # enough is known (or too much time is gone): the rest isn't run
                for w in workers:
                    kill(w)
                break
            for w in list(workers):
                done = w["p"].poll() is not None
                with open(w["out"]) as f:
                    f.seek(w["pos"])
                    data = f.read()
                if data:
                    nl = data.rfind("\n")
                    if nl >= 0:
                        w["pos"] += nl + 1
                        w["last"] = time.time()
                        for line in data[: nl + 1].splitlines():
                            rec = json.loads(line)
                            if "start" in rec:
                                w["cur"] = rec["start"]
                            elif "done" in rec:
                                w["finished"] = True
                            else:
                                results[rec["i"]] = rec
                                w["cur"] = None
                                w["group"].remove(rec["i"])
                if not done and time.time() - w["last"] > hang_s:
                    kill(w)
                    workers.remove(w)
                    cur = w["cur"]
                    if cur is None:
                        raise MachineryError(f"driver {driver} stalls outside of a scenario: " + self._tail(w))
                    hangs += 1
                    results[cur] = {"i": cur, "st": "hang", "err": self._tail(w)}
                    w["group"].remove(cur)
                    if w["group"]:
                        start(w["group"])
                elif done:
                    kill(w)
                    workers.remove(w)
                    if w.get("finished") and not w["group"]:
                        shutil.rmtree(w["wd"], ignore_errors=True)
                        continue
                    cur = w["cur"]
                    if cur is None:
                        # died before the first scenario: the code can't even be imported
                        if not w["group"]:
                            continue
                        tail = self._tail(w)
                        if "DRIVER-IMPORT-FAILED" in tail:
                            for i in w["group"]:
                                results[i] = {"i": i, "st": "exc", "err": tail}
                            continue
                        raise MachineryError(f"driver {driver} died: {tail}")
                    results[cur] = {"i": cur, "st": "crash", "err": self._tail(w)}
                    w["group"].remove(cur)
                    if w["group"]:
                        start(w["group"])
        cases = []
        for i, s in enumerate(scenarios):
            if i not in results:
                self.extra["dropped"] = self.extra.get("dropped", 0) + 1
                continue
            r = results[i]
            c = {"st": r["st"], "scn": r.get("scn", s), "obs": r.get("obs"), "kind": kind or s.get("kind", driver),
                 "driver": driver, "raw": s}
            if r.get("err"):
                c["err"] = r["err"]
            cases.append(c)
        bad = sum(1 for c in cases if c["st"] != "ok")
        self.log(f"driver {driver}: {len(cases)} scenarios, {bad} not completed, {time.time()-t:.1f}s")
        return cases

    def _tail(self, w):
        try:
            with open(os.path.join(w["wd"], "log"), "rb") as f:
                return f.read()[-3000:].decode("utf8", "replace")
        except OSError:
            return ""

    # ---------------------------------------------------------------- reporting
    def finish(self):
        known = []
        path = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(path):
            for line in open(path):
                line = line.strip()
                if line:
                    k = json.loads(line)
                    if k.get("property") == self.prop and k.get("status") == "known":
                        known.append(k)
        seen_known = set()
        violations = []
        for c, clause, module in self.rejects:
            tag = (c.get("raw") or {}).get("tag") or (c.get("scn") or {}).get("tag", "")
            hit = None
            for k in known:
                if tag and k["tag"] == tag and clause in k["clauses"]:
                    hit = k
            if hit:
                seen_known.add(hit["tag"])
            else:
                violations.append((c, clause, module))
        for k in known:
            if k["tag"] in seen_known:
                print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        replay = os.path.join(EVIDENCE, "replay", f"{self.prop}.json")
        if os.path.exists(replay):
            os.remove(replay)
        if violations:
            os.makedirs(os.path.join(EVIDENCE, "replay"), exist_ok=True)
            # the smallest case first
            violations.sort(key=lambda v: len(json.dumps(v[0], default=str)))
            with open(replay, "w") as f:
                json.dump(
                    [dict(clause=cl, judge=m, **{k: c.get(k) for k in ("driver", "kind", "st", "scn", "obs", "err", "raw")})
                     for c, cl, m in violations[:20]], f, indent=1, default=str)
        os.makedirs(EVIDENCE, exist_ok=True)
        clauses = {}
        for _, cl, _ in violations:
            clauses[cl] = clauses.get(cl, 0) + 1
        ev = dict(
            property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
            coverage=dict(
                states=self.states, transitions=self.transitions,
                traces_validated_against_impl=self.validated, samples=self.samples[:8] or ["none"],
                distinct_nontrivial=len(self.distinct),
                rule="cases are recorded runs of the real code, judged by TLC against the specification; "
                     "distinct counts distinct (scenario, observation) pairs",
                models=self.models, generators=self.gens, cases_by_kind=self.kinds, rejected_clauses=clauses,
                known_findings_seen=sorted(seen_known), **self.extra,
            ),
            assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(violations),
        )
        with open(os.path.join(EVIDENCE, f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        self.log(f"{self.validated} traces judged, {self.states} states, {len(violations)} violations {clauses}")
        if violations:
            print(f"VIOLATION property={self.prop} replay={replay}", flush=True)
            return 1
        return 0

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
