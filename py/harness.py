"""Common part of the Python harnesses: generation with Hypothesis, crash and hang
isolation, shrinking, replay.

A harness module defines a Harness subclass with
  strategy()      a Hypothesis strategy of JSON-able values (the case)
  run(value)      executes the case against the code under test; raises Violation (or any
                  other exception the code under test lets out) when the property fails and
                  returns a list of labels, 'nontrivial' among them when the case counts
and ends with main(TheHarness).  The parent starts one worker process per core; each worker
writes the value it is about to run to a file, so that a crash or a hang is attributed to
its input.  The saved failing input is the JSON value itself.
"""
import faulthandler, hashlib, json, os, signal, subprocess, sys, time, traceback


class Violation(Exception):
    def __init__(self, key, msg=""):
        super().__init__("%s: %s" % (key, msg))
        self.key, self.msg = key, msg


class Discard(Exception):
    """the case says nothing (malformed after shrinking, or outside the domain)"""


class Slow(BaseException):
    """the CPU limit of one case was hit"""


class Stop(BaseException):
    pass


def need(cond, key, msg=""):
    if not cond:
        raise Violation(key, msg() if callable(msg) else msg)


class Harness:
    hang = 30          # CPU seconds after which a case is given up
    slow_is_failure = True
    crash = False      # the code under test is native

    def __init__(self, cfg):
        self.cfg = cfg
        self.thorough = cfg["tier"] == "thorough"

    flagfd = None

    def setup(self):
        pass

    def must_finish(self, on=True):
        """from here on, running out of CPU time is a failure of this case"""
        self.is_strict = on
        if self.flagfd is not None:
            os.pwrite(self.flagfd, b"S" if on else b"L", 0)

    def show(self, value):
        return json.dumps(value)


def run_one(h, value):
    """-> (status, key, msg, labels): status in ok, fail, discard, slow"""
    def on_alarm(*_):
        raise Slow()
    h.must_finish(h.slow_is_failure)
    signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, h.hang)
    try:
        try:
            labels = h.run(value) or []
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return "ok", None, None, labels
    except Discard:
        return "discard", None, None, []
    except Slow:
        return "slow", "hang", "no answer after %s s of CPU time" % h.hang, []
    except Violation as e:
        return "fail", e.key, e.msg, []
    except RecursionError as e:
        return "fail", "exception:RecursionError", str(e), []
    except Exception as e:
        if type(e).__name__ == "HeuristicGCDFailed":      # sympy gives up on the numbers of this case: no verdict
            return "discard", None, None, []
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if not f.filename.startswith(os.path.dirname(os.path.abspath(__file__)))]
        own = tb[-1].filename.startswith(os.path.dirname(os.path.abspath(__file__)))
        loc = where[-1].name if where else "harness"
        if own and isinstance(e, (KeyError, IndexError, TypeError, ValueError)) and h.cfg.get("shrinking"):
            return "discard", None, None, []
        return "fail", "exception:%s in %s" % (type(e).__name__, loc), "".join(traceback.format_exception(e))[-2500:], []


# ---------------------------------------------------------------- worker
def worker(cls, cfg):
    from hypothesis import given, settings, seed as hseed, HealthCheck, Phase
    import hypothesis
    h = cls(cfg)
    h.setup()
    w = cfg["index"]
    stem = os.path.join(cfg["work"], "w%d" % w)
    h.flagfd = os.open(stem + ".flag", os.O_CREAT | os.O_RDWR, 0o600)
    cur = os.open(stem + ".cur", os.O_CREAT | os.O_RDWR, 0o600)
    t0 = time.time()
    st = dict(evaluations=0, discards=0, labels={}, samples=[], max_case=0.0)
    seen = set()
    best = None          # (size, value, key, msg)
    fail_t = None
    deadline = t0 + cfg["time"]
    quota = max(1, cfg["cases"] // cfg["workers"])
    done = False

    def flush(final=False):
        d = dict(st); d["seen"] = sorted(seen)[:2000000]; d["best"] = best; d["done"] = done; d["wall"] = time.time() - t0
        tmp = stem + ".tmp"
        json.dump(d, open(tmp, "w")); os.replace(tmp, stem + ".json")

    rnd = 0
    last_flush = [time.time()]
    while not done and best is None and time.time() < deadline and st["evaluations"] < quota:
        n = min(cfg.get("round", 150), quota - st["evaluations"])

        @hseed((cfg["seed"] * 1000003 + w * 7919 + rnd * 104729) & 0x7fffffff)
        @settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck),
                  report_multiple_bugs=False, phases=[Phase.generate, Phase.shrink], print_blob=False)
        @given(h.strategy())
        def prop(value):
            nonlocal best, fail_t
            if fail_t is None and time.time() > deadline:
                raise Stop()
            if fail_t is not None and time.time() > fail_t + cfg.get("shrink", 40):
                raise Stop()
            txt = json.dumps(value)
            b = txt.encode()
            os.pwrite(cur, b"%012d" % len(b) + b, 0)
            if h.crash:          # the library traces every build on stderr
                os.ftruncate(2, 0); os.lseek(2, 0, 0)
            c0 = time.process_time()
            status, key, msg, labels = run_one(h, value)
            dt = time.process_time() - c0
            if fail_t is None:
                st["evaluations"] += 1
                if dt > st["max_case"]:
                    st["max_case"] = dt; st["slowest"] = h.show(value)[:1500]
                if status == "discard" or (status == "slow" and not h.is_strict):
                    st["discards"] += 1
                    if status == "slow":
                        st["labels"]["slow"] = st["labels"].get("slow", 0) + 1
                for l in labels:
                    st["labels"][l] = st["labels"].get(l, 0) + 1
                if "nontrivial" in labels:
                    k = hashlib.sha256(b).hexdigest()[:14]
                    if k not in seen:
                        seen.add(k)
                        if len(st["samples"]) < 3 and len(seen) % 7 == 3:
                            st["samples"].append(h.show(value)[:600])
                if time.time() - last_flush[0] > 2:
                    last_flush[0] = time.time(); flush()
            if status == "fail" or (status == "slow" and h.is_strict):
                if fail_t is None:
                    fail_t = time.time()
                if best is None or len(txt) < best[0]:
                    best = (len(txt), value, key, msg)
                if status == "slow":
                    raise Stop()      # shrinking a hang costs the limit every time
                raise Violation(key, msg)
        try:
            prop()
        except Stop:
            pass
        except hypothesis.errors.Unsatisfiable:
            pass
        except BaseException:
            if best is None:
                raise
        rnd += 1
        flush()
    done = True
    flush(True)


def sub(cls_file, cfg, timeout=None):
    return subprocess.Popen([sys.executable, cls_file, json.dumps(cfg)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=child_env(cfg))


def child_env(cfg):
    e = dict(os.environ)
    if cfg.get("preload"):
        e["LD_PRELOAD"] = cfg["preload"]
        e["PYTHONMALLOC"] = "malloc"
    return e


def once(file, cfg, value, limit):
    """run one value in a fresh process -> dict(failed, key, msg)"""
    c = dict(cfg, mode="one", value=value)
    p = subprocess.Popen([sys.executable, file, "-"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=child_env(cfg))
    try:
        o, e = p.communicate(json.dumps(c).encode(), timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill(); p.communicate()
        return dict(failed=True, key="hang", msg="no answer after %s s" % limit)
    if p.returncode == 0:
        for line in reversed(o.decode(errors="replace").splitlines()):
            if line.startswith("{"):
                return json.loads(line)
    err = e.decode(errors="replace")
    return dict(failed=True, key=crash_key(p.returncode, err), msg=err[-2500:])


def crash_key(rc, err):
    for line in err.splitlines():
        if "ERROR: AddressSanitizer" in line:
            return "crash:" + line.split("AddressSanitizer:")[1].split(" on ")[0].strip()[:60]
        if "runtime error:" in line:
            return "crash:undefined behaviour: " + line.split("runtime error:")[1].strip()[:60]
    return "crash:exit %s" % rc


def candidates(v):
    """smaller variants of a JSON value, structurally"""
    if isinstance(v, list):
        n = len(v)
        k = n // 2
        while k >= 1:
            for i in range(0, n, k):
                yield v[:i] + v[i + k:]
            k //= 2
        for i in range(n):
            for c in candidates(v[i]):
                yield v[:i] + [c] + v[i + 1:]
    elif isinstance(v, dict):
        for key in v:
            for c in candidates(v[key]):
                d = dict(v); d[key] = c
                yield d
    elif isinstance(v, bool):
        if v:
            yield False
    elif isinstance(v, int):
        if v:
            yield 0
            if abs(v) > 1:
                yield v // 2 if v > 0 else -((-v) // 2)
            if v < 0:
                yield -v


def shrink_fresh(file, cfg, value, key, limit, budget):
    t0, tries = time.time(), 0
    progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        for c in candidates(value):
            if time.time() - t0 > budget:
                break
            tries += 1
            r = once(file, dict(cfg, shrinking=True), c, limit)
            if r.get("failed") and (r["key"] == key or key.startswith("crash") and r["key"].startswith("crash")):
                value, progress = c, True
                break
    return value


def parent(cls, cfg, file):
    import shutil, tempfile
    work = tempfile.mkdtemp(prefix="py-", dir=cfg.get("build"))
    t0 = time.time()
    try:
        ps = []
        for i in range(cfg["workers"]):
            c = dict(cfg, mode="worker", index=i, work=work)
            err = open(os.path.join(work, "w%d.err" % i), "wb")
            ps.append(subprocess.Popen([sys.executable, file, json.dumps(c)], stdout=subprocess.DEVNULL, stderr=err, env=child_env(cfg)))
        crashed = []
        limit = time.time() + cfg["time"] + cls.hang * 3 + cfg.get("shrink", 40) + 60
        live = set(range(len(ps)))
        while live:
            for i in list(live):
                if ps[i].poll() is not None:
                    live.discard(i)
                    continue
                cf = os.path.join(work, "w%d.cur" % i)
                try:
                    if time.time() - os.stat(cf).st_mtime > cls.hang * 3 + 20:
                        ps[i].kill(); ps[i].wait()
                        live.discard(i)
                except FileNotFoundError:
                    pass
            if time.time() > limit:
                for i in live:
                    ps[i].kill(); ps[i].wait()
                break
            time.sleep(0.05)
        res = dict(evaluations=0, discards=0, labels={}, samples=[], failures=[], max_case_cpu=0)
        seen = set()
        fails = []
        for i, p in enumerate(ps):
            f = os.path.join(work, "w%d.json" % i)
            d = json.load(open(f)) if os.path.exists(f) else None
            if d:
                res["evaluations"] += d["evaluations"]; res["discards"] += d["discards"]
                if d["max_case"] > res["max_case_cpu"]:
                    res["max_case_cpu"], res["slowest"] = d["max_case"], d.get("slowest")
                for k, v in d["labels"].items():
                    res["labels"][k] = res["labels"].get(k, 0) + v
                seen.update(d["seen"]); res["samples"] += d["samples"]
                if d["best"]:
                    fails.append(dict(key=d["best"][2], msg=d["best"][3], value=d["best"][1]))
            if not d or not d["done"]:
                err = open(os.path.join(work, "w%d.err" % i), errors="replace").read()
                cf = os.path.join(work, "w%d.cur" % i)
                raw = open(cf, "rb").read() if os.path.exists(cf) else b""
                if not raw:
                    sys.stderr.write("worker %d ended with %s before its first case\n%s\n" % (i, p.returncode, err[-3000:]))
                    sys.exit(3)
                n = int(raw[:12])
                ff = os.path.join(work, "w%d.flag" % i)
                if p.returncode == -9 and not (os.path.exists(ff) and open(ff, "rb").read(1) == b"S"):
                    res["labels"]["slow"] = res["labels"].get("slow", 0) + 1
                    continue
                if p.returncode is not None and p.returncode > 0 and "Sanitizer" not in err and "Traceback" in err:
                    sys.stderr.write("worker %d: harness error\n%s\n" % (i, err[-3000:]))
                    sys.exit(3)
                fails.append(dict(key="hang" if p.returncode == -9 else crash_key(p.returncode, err), msg=err[-2500:], value=json.loads(raw[12:12 + n]), crash=True))
        res["distinct_nontrivial"] = len(seen)
        fails.sort(key=lambda f: len(json.dumps(f["value"])))
        keys = set()
        for f in fails:
            if f["key"] in keys or len(keys) >= 3:
                continue
            lim = cls.hang * 2 + 20
            r = once(file, cfg, f["value"], lim)
            flaky = not r.get("failed")
            if not flaky and f.get("crash") and r["key"] != "hang":
                f["value"] = shrink_fresh(file, cfg, f["value"], r["key"], lim, 60)
                r = once(file, cfg, f["value"], lim)
            elif not flaky and r["key"] != "hang":
                f["value"] = shrink_fresh(file, cfg, f["value"], r["key"], lim, 15)
                r = once(file, cfg, f["value"], lim)
            keys.add(f["key"])
            h = cls(cfg)
            res["failures"].append(dict(key=r.get("key") or f["key"], msg=r.get("msg") or f["msg"], desc=h.show(f["value"]), choices=f["value"], flaky=flaky))
        res["wall"] = time.time() - t0
        print(json.dumps(res))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main(cls, file):
    faulthandler.disable()
    arg = sys.argv[1]
    cfg = json.loads(sys.stdin.read() if arg == "-" else arg)
    if cfg.get("mode") == "worker":
        worker(cls, cfg)
    elif cfg.get("mode") == "one" or cfg.get("replay"):
        if cfg.get("replay") and cfg.get("mode") != "one":
            f = cfg.pop("replay")
            print(json.dumps(once(file, cfg, f["choices"], cls.hang * 2 + 20)))
            return
        h = cls(cfg); h.setup()
        status, key, msg, labels = run_one(h, cfg["value"])
        sys.stdout.flush()
        print("\n" + json.dumps(dict(failed=status == "fail" or (status == "slow" and h.is_strict), key=key or "", msg=msg, labels=labels)))
    else:
        parent(cls, cfg, file)
