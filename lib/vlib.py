"""Common machinery of the checks: building /repo, running TLC, evidence, violations."""
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ProcessPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SNAPCD_REPO", "/repo")
BUILD = os.path.join(ROOT, ".build") if REPO == "/repo" else os.path.join("/tmp", "vbuild-" + hashlib.sha256(REPO.encode()).hexdigest()[:8])
SPEC = os.path.join(ROOT, "spec")
TARGET = os.path.join(BUILD, "target")
NCPU = min(8, os.cpu_count() or 1)


class ToolError(Exception):
    pass


# ------------------------------------------------------------------ building

def _env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["RUSTUP_HOME"] = e.get("RUSTUP_HOME", "/root/.rustup")
    e["CARGO_HOME"] = e.get("CARGO_HOME", "/root/.cargo")
    e["HOME"] = "/root"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_PROFILE_DEV_DEBUG"] = "0"
    e["CARGO_PROFILE_DEV_OPT_LEVEL"] = "1"
    e["RUSTC_WRAPPER"] = ""
    e.pop("RUSTFLAGS", None)
    return e


def repo_hash():
    h = hashlib.sha256()
    for base in ("src", "Cargo.toml", "Cargo.lock", "build.rs"):
        p = os.path.join(REPO, base)
        if os.path.isfile(p):
            h.update(base.encode() + b"\0" + open(p, "rb").read())
        elif os.path.isdir(p):
            for d, ds, fs in sorted(os.walk(p)):
                ds.sort()
                for f in sorted(fs):
                    q = os.path.join(d, f)
                    h.update(q.encode() + b"\0" + open(q, "rb").read() + b"\0")
    return h.hexdigest()


def _cargo(args, cwd, timeout=800):
    r = subprocess.run(["cargo"] + args, cwd=cwd, env=_env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode != 0:
        raise ToolError("cargo %s failed:\n%s" % (" ".join(args), r.stdout.decode(errors="replace")[-4000:]))


def _locked():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def _stale(tag, h):
    p = os.path.join(BUILD, tag + ".srchash")
    return not (os.path.exists(p) and open(p).read() == h)


def _mark(tag, h):
    with open(os.path.join(BUILD, tag + ".srchash"), "w") as f:
        f.write(h)


def build_cli():
    """Build the snapcd binary from /repo's working tree; returns its path."""
    lk = _locked()
    h = repo_hash()
    out = os.path.join(TARGET, "debug", "snapcd")
    if _stale("cli", h) or not os.path.exists(out):
        # never trust file times: the sources may have been swapped under an older build
        if os.path.isdir(TARGET):
            subprocess.run(["cargo", "clean", "--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml"),
                            "-p", "snapcd", "--target-dir", TARGET], env=_env(), cwd="/",
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        _cargo(["build", "--offline", "--locked", "--bin", "snapcd", "--manifest-path",
                os.path.join(REPO, "Cargo.toml"), "--target-dir", TARGET], "/")
        if not os.path.exists(out):
            raise ToolError("no binary after build")
        _mark("cli", h)
    lk.close()
    return out


HTARGET = os.path.join(BUILD, "htarget")


def build_harness():
    """Build the Rust library harness (path dependency on /repo); returns the binary path."""
    lk = _locked()
    h = repo_hash()
    hd = os.path.join(ROOT, "harness")
    hh = hashlib.sha256((h + open(os.path.join(hd, "src", "main.rs")).read()
                         + open(os.path.join(hd, "Cargo.toml")).read()).encode()).hexdigest()
    out = os.path.join(HTARGET, "debug", "vharness")
    if _stale("harness", hh) or not os.path.exists(out):
        if os.path.isdir(HTARGET):
            for p in ("snapcd", "vharness"):
                subprocess.run(["cargo", "clean", "--offline", "--manifest-path", os.path.join(hd, "Cargo.toml"),
                                "-p", p, "--target-dir", HTARGET], env=_env(), cwd="/",
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if REPO != "/repo":         # trying the machinery on a changed copy
            cp = os.path.join(BUILD, "harness")
            shutil.rmtree(cp, ignore_errors=True)
            shutil.copytree(hd, cp)
            t = open(os.path.join(cp, "Cargo.toml")).read().replace('"/repo"', '"%s"' % REPO)
            open(os.path.join(cp, "Cargo.toml"), "w").write(t)
            hd = cp
        _cargo(["build", "--offline", "--locked", "--manifest-path", os.path.join(hd, "Cargo.toml"),
                "--target-dir", HTARGET], "/")
        _mark("harness", hh)
    lk.close()
    return out


def try_harness(c):
    """the library harness, or None where the library's own interface changed so that it does not build any more:
    then only the program is driven, and the evidence says so"""
    try:
        return build_harness()
    except ToolError as e:
        c.assumptions.append("the library harness did not build, so only the program was driven: " + str(e)[-300:])
        return None


def build_shim():
    lk = _locked()
    src = os.path.join(ROOT, "shim", "shim.c")
    out = os.path.join(BUILD, "shim.so")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if _stale("shim", h) or not os.path.exists(out):
        r = subprocess.run(["gcc", "-O1", "-g", "-Wall", "-Wno-nonnull-compare", "-fno-delete-null-pointer-checks", "-shared", "-fPIC", "-o", out, src, "-ldl", "-lpthread"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise ToolError("shim: " + r.stdout.decode())
        _mark("shim", h)
    lk.close()
    return out


# ------------------------------------------------------------------ scratch

def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return "/tmp"


class Scratch:
    def __init__(self, base=None, mode=0o755):
        self.path = tempfile.mkdtemp(prefix="vsnap-", dir=base or scratch_base())
        os.chmod(self.path, mode)

    def __enter__(self):
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


UNPRIV = 61234          # an account that owns nothing


def drop_privileges():
    """for code that deletes files: give up root in this (worker) process for good"""
    if os.getuid() == 0:
        os.setgroups([])
        os.setresgid(UNPRIV, UNPRIV, UNPRIV)
        os.setresuid(UNPRIV, UNPRIV, UNPRIV)
    os.umask(0o022)
    if os.getuid() == 0 or os.access("/etc/passwd", os.W_OK):
        raise ToolError("could not drop privileges")


PERMITTED = "/home/jess/src/snapcd/repo"     # where the program allows checkout


class Permitted:
    """The one place checkout operates in, holding a directory for the unprivileged account; everything
    created is removed again."""

    def __enter__(self):
        self.made = []
        p = ""
        for x in PERMITTED.split("/")[1:]:
            p += "/" + x
            if not os.path.isdir(p):
                os.mkdir(p)
                os.chmod(p, 0o755)
                self.made.append(p)
        self.path = tempfile.mkdtemp(prefix="vsnap-", dir=PERMITTED)
        os.chmod(self.path, 0o755)
        os.chown(self.path, UNPRIV, UNPRIV)
        return self

    def cli(self, cli):
        """a copy of the program the unprivileged account can execute"""
        q = os.path.join(self.path, "snapcd-bin")
        shutil.copy(cli, q)
        os.chmod(q, 0o755)
        return q

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)
        for p in reversed(self.made):
            try:
                os.rmdir(p)
            except OSError:
                pass


# ------------------------------------------------------------------ TLC

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcResult:
    def __init__(self):
        self.generated = 0
        self.distinct = 0
        self.depth = 0
        self.emitted = []
        self.violated = None
        self.out = ""
        self.actions = {}


def tlc(module, cfg=None, constants=None, workers=NCPU, simulate=None, depth=None, seed=None,
        expect_violation=False, timeout=600, extra_files=None, marker="@@", heap="6g", coverage=False,
        env=None, emit_file=None):
    """Run TLC on spec/<module>.tla with spec/<cfg>.cfg. Lines printed with the marker are returned
    decoded.  Any outcome other than a clean run or a property violation is a ToolError."""
    with Scratch() as sc:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), sc)
        cfgtxt = open(os.path.join(SPEC, (cfg or module) + ".cfg")).read()
        for k, v in (constants or {}).items():
            pat = re.compile(r"^(\s*%s\s*(?:=|<-)).*$" % re.escape(k), re.M)
            if not pat.search(cfgtxt):
                raise ToolError("constant %s not in %s" % (k, cfg or module))
            cfgtxt = pat.sub(lambda m: m.group(1) + " " + str(v), cfgtxt)
        open(os.path.join(sc, "run.cfg"), "w").write(cfgtxt)
        for name, txt in (extra_files or {}).items():
            with open(os.path.join(sc, name), "w") as f:
                f.write(txt)
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + sc, "-cp", JARS, "tlc2.TLC",
               "-config", "run.cfg", "-metadir", os.path.join(sc, "meta"), "-noGenerateSpecTE",
               "-workers", str(workers)]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate]
            if depth:
                cmd += ["-depth", str(depth)]
        if seed is not None:
            cmd += ["-seed", str(seed)]
            if not simulate:
                cmd += ["-fp", "1"]
        if coverage:
            cmd += ["-coverage", "1"]
        cmd += [module + ".tla"]
        res = TlcResult()
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=sc, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timeout on %s" % module)
        out = p.stdout.decode(errors="replace")
        mk = '"' + marker
        keep = []
        for line in out.split("\n"):
            if line.startswith(mk):
                s = json.loads(line)
                res.emitted.append(json.loads(s[len(marker):]))
            else:
                keep.append(line)
        out = "\n".join(keep)
        res.out = out
        if emit_file:
            q = os.path.join(sc, emit_file)
            res.file = open(q).read() if os.path.exists(q) else None
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if m:
            res.generated = int(m[-1][0].replace(",", ""))
            res.distinct = int(m[-1][1].replace(",", ""))
        m = re.findall(r"The number of states generated: ([\d,]+)", out)
        if m and not res.generated:
            res.generated = int(m[-1].replace(",", ""))
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        if m:
            res.depth = int(m.group(1))
        for m in re.finditer(r"^<(\w+) line .*?>: (\d+):(\d+)", out, re.M):
            res.actions[m.group(1)] = res.actions.get(m.group(1), 0) + int(m.group(3))
        viol = re.search(r"(Invariant|Action property|Temporal propert\w+|Property|Assumption|The postcondition).*?(is violated|violated|is false|were violated)", out, re.S)
        if p.returncode == 0:
            pass
        elif p.returncode in (10, 11, 12, 13, 14) and viol:
            res.violated = viol.group(0)[:300]
        else:
            raise ToolError("TLC failed (%d) on %s:\n%s" % (p.returncode, module, out[-3500:]))
        if res.violated and not expect_violation:
            raise ToolError("model %s: %s\n%s" % (module, res.violated, out[-3500:]))
        return res


# ------------------------------------------------------------------ check context

class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.known_hits = {}
        p = os.path.join(ROOT, "known_findings.txt")
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", l.strip())
                if m and m.group(1) == pid:
                    self.known.append((m.group(2), m.group(3)))

    @property
    def quick(self):
        return self.tier == "quick"

    def elapsed(self):
        return time.time() - self.t0

    def model(self, r):
        """account a TLC run"""
        self.cov["states"] += r.distinct or r.generated
        self.cov["transitions"] += r.generated

    def traces(self, n):
        self.cov["traces_validated_against_impl"] += n

    def sample(self, s):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(s)

    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def violate(self, what, data, finding=None):
        """finding: the id of the known-findings entry this failure is an instance of, if any"""
        if finding and any(k == finding for k, _ in self.known):
            self.known_hits[finding] = self.known_hits.get(finding, 0) + 1
            return
        self.violations.append((what, data))

    def finish(self):
        for k, txt in self.known:
            if k in self.known_hits:
                print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, k, txt))
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if self.violations:
            d = os.path.join(ROOT, ".replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, self.pid + ".json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier,
                           "violations": [{"what": w, "data": x} for w, x in self.violations[:20]]},
                          f, indent=1, default=str)
            for w, _ in self.violations[:5]:
                print("  " + str(w)[:600])
            print("%d violation(s)" % len(self.violations))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            sys.stdout.flush()
            return 1
        print("%s ok: %s" % (self.pid, {k: v for k, v in self.cov.items() if isinstance(v, int)}))
        return 0


def main(pid, fn, level="model_checking"):
    c = Check(pid, level)
    try:
        fn(c)
        rc = c.finish()
    except ToolError as e:
        print("TOOL ERROR: %s" % e, file=sys.stderr)
        rc = c.finish() if c.violations else 2
    except Exception as e:
        print("".join(traceback.format_exception(e)[-12:])[-3000:], file=sys.stderr)
        rc = c.finish() if c.violations else 2
    sys.stdout.flush()
    os._exit(rc)


# ------------------------------------------------------------------ parallel map

_FN = _ITEMS = None


def _call(i):
    return _FN(_ITEMS[i])


def pmap(fn, items, workers=NCPU, chunks=1):
    """ordered parallel map over forked processes (function and items are inherited, so they may be closures)"""
    global _FN, _ITEMS
    items = list(items)
    if not items:
        return []
    if len(items) == 1 or workers == 1:
        return [fn(x) for x in items]
    _FN, _ITEMS = fn, items
    import multiprocessing
    with ProcessPoolExecutor(max_workers=min(workers, len(items)), mp_context=multiprocessing.get_context("fork")) as ex:
        return list(ex.map(_call, range(len(items)), chunksize=max(1, chunks)))


def split(items, n):
    items = list(items)
    k = max(1, (len(items) + n - 1) // n)
    return [items[i:i + k] for i in range(0, len(items), k)]
