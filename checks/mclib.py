"""Shared machinery of the checks: builds, program batches, verdicts, evidence."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
REPO = os.environ.get("VERIF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
CORES = os.cpu_count() or 8


def pick(quick, thorough):
    return thorough if THOROUGH else quick


def env(**kw):
    e = dict(os.environ)
    e.update(CODON_PATH=REPO + "/stdlib", LOCPATH=BUILD + "/locale", LC_ALL="C.UTF-8",
             PYTHONHASHSEED="0", OMP_NUM_THREADS="1")
    e.pop("CODON_DEBUG", None)
    e.update({k: str(v) for k, v in kw.items()})
    return e


def build(*targets):
    t = time.time()
    r = subprocess.run([VERIF + "/setup.sh", *targets], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-6000:])
        print("build failed")
        sys.exit(2)
    return time.time() - t


class Check:
    """Collects the verdict of one property's check."""

    def __init__(self, pid, level="model_checking", assumptions=()):
        self.pid, self.level, self.assumptions = pid, level, list(assumptions)
        self.start = time.time()
        self.coverage = {}
        self.samples = []
        self.violations = []
        self.known_hit = {}
        self.tmp = tempfile.mkdtemp(prefix=f"mc-{pid}-")
        self.known = []
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            for k in json.load(open(kf)):
                if k["property"] == pid and k.get("status") != "fixed":
                    self.known.append(k)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = self.evidence_path()
        if os.path.exists(ev):
            os.remove(ev)

    def evidence_path(self):
        return os.path.join(VERIF, "evidence", self.pid + ".json")

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def count(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                self.coverage[k] = self.coverage.get(k, 0) + v
            else:
                self.coverage[k] = v

    def space(self, states=(), transitions=(), traces=(), exhaustive=True):
        """The three totals of the evidence, each the sum of the named counts of this run."""
        def total(names):
            return sum(self.coverage.get(k, 0) for k in names.split())
        self.count(states=total(states), transitions=total(transitions),
                   traces_validated_against_impl=total(traces), exhaustive=exhaustive)

    def violation(self, key, detail, replay=None):
        """key identifies the failing case; listed findings are reported, not raised."""
        for k in self.known:
            if any(re.fullmatch(p, key) for p in k["cases"]):
                self.known_hit.setdefault(k["what"], 0)
                self.known_hit[k["what"]] += 1
                return False
        self.violations.append((key, detail, replay))
        return True

    def finish(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
        for what, n in self.known_hit.items():
            print(f"KNOWN-FINDING: property={self.pid} {what} ({n} cases)")
        for k in self.known:
            if k["what"] not in self.known_hit:
                self.coverage.setdefault("known_not_seen", []).append(k["what"])
        self.coverage["samples"] = self.samples
        ev = dict(property=self.pid, tier=TIER if TIER in ("quick", "thorough") else "quick",
                  seed=SEED, level=self.level, coverage=self.coverage,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.start, 2),
                  violations=len(self.violations))
        with open(self.evidence_path(), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if self.violations:
            rd = os.path.join(BUILD, "replay")
            os.makedirs(rd, exist_ok=True)
            for i, (key, detail, replay) in enumerate(self.violations[:int(os.environ.get("MC_SHOW", "5"))]):
                p = os.path.join(rd, f"{self.pid}-{i}.txt")
                with open(p, "w") as f:
                    f.write(f"property {self.pid}\ncase {key}\n{detail}\n")
                    if replay:
                        f.write("\n--- replay ---\n" + replay + "\n")
                print(f"--- case {key}\n{detail[:1500]}")
                print(f"VIOLATION property={self.pid} replay={p}")
            print(f"{len(self.violations)} violations")
            sys.exit(1)
        c = {k: v for k, v in self.coverage.items() if k != "samples"}
        print(f"{self.pid} held: {c} in {time.time() - self.start:.1f}s")
        sys.exit(0)


# ---------------------------------------------------------------- programs

def mc_run(files, mode="d", flags=(), jobs=None, limit=200, extra_env=None):
    """Runs program files [(path, out)] through one mc process. Returns {path: status}."""
    if not files:
        return {}
    cmd = [BUILD + "/harness/mc", "-m", mode, "-j", str(jobs or CORES), "-t", str(limit), *flags]
    inp = "".join(f"{p}\t{o}\n" for p, o in files)
    r = subprocess.run(cmd, input=inp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, env=env(**(extra_env or {})), errors="replace")
    res = {}
    for l in r.stdout.splitlines():
        a = l.split("\t")
        if len(a) == 2 and a[0].startswith("/"):
            res[a[0]] = int(a[1])
    missing = [p for p, _ in files if p not in res]
    if missing:
        print(r.stdout[-3000:])
        print(f"mc exited with {r.returncode}: {len(missing)} jobs without a result")
        sys.exit(2)
    return res


def slurp(p):
    try:
        with open(p, errors="replace") as f:
            return f.read()
    except FileNotFoundError:
        return ""


MARK = "@@"


def split_cases(text):
    """Output of a batch -> {case key: output}."""
    res, key, cur = {}, None, []
    for l in text.split("\n"):
        if l.startswith(MARK):
            if key is not None:
                res[key] = "\n".join(cur).rstrip("\n")
            key, cur = l[len(MARK):], []
        elif key is not None:
            cur.append(l)
    if key is not None:
        res[key] = "\n".join(cur).rstrip("\n")
    return res


class Case:
    __slots__ = ("key", "defs", "body", "expect")

    def __init__(self, key, defs, body, expect=None):
        """defs: module-level source; body: statements run after printing the marker.
        expect: expected output, or None to take CPython's."""
        self.key, self.defs, self.body, self.expect = key, defs, body, expect


def program(cases, prelude=""):
    parts = [prelude]  # line 1; the first case starts after it
    for c in cases:
        parts.append(c.defs)
        parts.append(f"print({MARK + c.key!r})")
        parts.append(c.body)
    parts.append(f"print('{MARK}END')")
    return "\n".join(parts) + "\n"


def python_outputs(sources, tmp, exe="python3", shim=""):
    """Runs each source with CPython; returns the outputs."""
    def one(i):
        p = os.path.join(tmp, f"ref{i}.py")
        with open(p, "w") as f:
            f.write(shim + sources[i])
        r = subprocess.run([exe, "-I", "-S", p] if exe == "python3" else [exe, p],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           env=env())
        os.remove(p)
        if r.returncode:
            print(r.stdout[-300:], r.returncode, r.stderr[-2000:])
            print("reference run failed")
            sys.exit(2)
        return r.stdout
    with ThreadPoolExecutor(CORES) as ex:
        return list(ex.map(one, range(len(sources))))


def blame(cases, prelude, text):
    """Indices of the cases whose lines a batch's diagnostics name."""
    lines = set()
    for l in text.splitlines():
        m = re.match(r"E:[^:]*\.py:(\d+):", l)
        if m:
            lines.add(int(m.group(1)))
    bad, at = set(), prelude.count("\n") + 2
    for i, c in enumerate(cases):
        n = c.defs.count("\n") + 1 + 1 + c.body.count("\n") + 1
        if any(at <= l < at + n for l in lines):
            bad.add(i)
        at += n
    return bad


def run_batches(chk, cases, modes=("d",), batch=200, prelude="", py_prelude=None, limit=200,
                flags=(), py="python3", normalise=None, extra_env=None, label=""):
    """Runs all cases in every mode and compares with the reference, case by case.

    A batch that does not compile or dies is cut into single-case programs, so every verdict
    is about one case."""
    assert len({c.key for c in cases}) == len(cases), "duplicate case keys"
    batches = [cases[i:i + batch] for i in range(0, len(cases), batch)]
    need = [b for b in batches if any(c.expect is None for c in b)]
    ref = {}
    outs = python_outputs([program(b, prelude if py_prelude is None else py_prelude) for b in need],
                          chk.tmp, exe=py)
    for o in outs:
        ref.update(split_cases(o))
    for c in cases:
        if c.expect is not None:
            ref[c.key] = c.expect
    chk.count(batches=len(batches) * len(modes))
    n = observed = 0

    def go(jobs_list, mode):
        files = []
        for i, b in enumerate(jobs_list):
            p = os.path.join(chk.tmp, f"{label}{mode}{i}.py")
            with open(p, "w") as f:
                f.write(program(b, prelude))
            files.append((p, p + ".out"))
        st = mc_run(files, mode, flags, limit=limit, extra_env=extra_env)
        res = [(st[p], slurp(o)) for p, o in files]
        for p, o in files:
            for q in (p, o):
                if os.path.exists(q):
                    os.remove(q)
        return res

    got_all = {}
    for mode in modes:
        todo, rounds = batches, 0
        while todo:
            rounds += 1
            nxt = []
            for b, (status, text) in zip(todo, go(todo, mode)):
                got = split_cases(text)
                if status == 0 and "END" in got:
                    for c in b:
                        got_all[mode, c.key] = (0, got.get(c.key, "<no output>"))
                    continue
                if len(b) == 1:
                    got_all[mode, b[0].key] = (status or -1, text)
                    continue
                seen = [i for i, c in enumerate(b) if c.key in got]
                if seen:
                    # died while running: what was printed before counts, the last one alone again
                    last = seen[-1]
                    for c in b[:last]:
                        got_all[mode, c.key] = (0, got.get(c.key, "<no output>"))
                    nxt.append([b[last]])
                    if b[last + 1:]:
                        nxt.append(b[last + 1:])
                    continue
                bad = blame(b, prelude, text)
                if bad and rounds < 12:
                    nxt += [[b[i]] for i in sorted(bad)]
                    rest = [c for i, c in enumerate(b) if i not in bad]
                    if rest:
                        nxt.append(rest)
                else:
                    k = max(1, len(b) // 4)
                    nxt += [b[i:i + k] for i in range(0, len(b), k)]
            todo = nxt
            if todo:
                chk.count(reruns=len(todo))
    chk.count(cases=len(cases))
    for c in cases:
        want = ref.get(c.key, "<no reference>")
        if normalise:
            want = normalise(want)
        for mode in modes:
            status, out = got_all[mode, c.key]
            if normalise and status == 0:
                out = normalise(out)
            n += 1
            observed += out.count("\n") + 1
            if status == 0 and out == want:
                continue
            detail = (f"mode {mode}, status {status}\n--- expected\n{want}\n--- got\n{out[-1200:]}\n"
                      f"--- program\n{program([c], prelude)}")
            chk.violation(f"{mode}:{c.key}", detail, program([c], prelude))
    chk.count(cases_compared=n, observed_lines=observed)
    return got_all


def check_sources(chk, sources, jobs=None, limit=60):
    """Front end only (mode c): [(key, source)] -> {key: (status, diagnostics)}"""
    files, res = [], {}
    for i, (k, s) in enumerate(sources):
        p = os.path.join(chk.tmp, f"c{i}.py")
        with open(p, "w") as f:
            f.write(s)
        files.append((p, p + ".out"))
    st = mc_run(files, "c", limit=limit, jobs=jobs)
    for (k, s), (p, o) in zip(sources, files):
        res[k] = (st[p], slurp(o))
        for q in (p, o):
            if os.path.exists(q):
                os.remove(q)
    return res


def harness(chk, name, *args, timeout=850, extra_env=None):
    """Runs a C++ harness; its protocol lines are
       COUNT <name> <n>   added to the coverage
       SAMPLE <text>      a sample
       FAIL <key>\t<detail>   a violation (\\n escaped)"""
    p = subprocess.run([BUILD + "/harness/" + name, *map(str, args)], stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True, errors="replace",
                       env=env(**(extra_env or {})), timeout=timeout)
    done = False
    for l in p.stdout.splitlines():
        if l.startswith("COUNT "):
            _, k, n = l.split(" ")
            chk.count(**{k: int(n)})
        elif l.startswith("SAMPLE "):
            chk.sample(l[7:])
        elif l.startswith("FAIL "):
            key, _, d = l[5:].partition("\t")
            chk.violation(key, d.replace("\\n", "\n"))
        elif l == "DONE":
            done = True
    if not done:
        # the code under test died: that is a failure of the explored case, not of the check
        cur = [l[8:] for l in p.stdout.splitlines() if l.startswith("CURRENT ")]
        chk.violation(f"crash:{name}:{' '.join(map(str, args))}",
                      f"harness ended with status {p.returncode} before finishing; last case: "
                      f"{cur[-1] if cur else '?'}\n{p.stderr[-3000:]}\n{p.stdout[-1500:]}")
    return p.stdout
