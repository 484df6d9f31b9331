"""Facts about /repo's crate, as written by the rustc driver in /verif/driver."""
import concurrent.futures, fcntl, hashlib, json, marshal, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
CACHE = os.environ.get("VF_CACHE", os.path.join(VERIF, ".cache"))

EXTERN = ",".join([
    "core::option::", "core::result::", "core::ops::control_flow", "core::bool", "core::task::poll",
    "core::convert", "core::mem::", "core::cmp::",
])

FEATURES = {
    "tokio": [],
    "agnostic": ["--no-default-features", "--features", "runtime-agnostic"],
}


class BuildError(Exception):
    pass


def _env():
    env = dict(os.environ)
    home = env.get("HOME", "/root")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    env["RUSTUP_TOOLCHAIN"] = "nightly"
    env["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTC_WRAPPER", "RUSTC", "RUSTFLAGS", "CARGO_BUILD_RUSTC_WRAPPER", "CARGO_TARGET_DIR",
              "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    return env


def _run(cmd, env, cwd=None):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def build_driver():
    """Builds the driver, if its sources have changed since the last time, and returns its path."""
    src = os.path.join(VERIF, "driver")
    h = hashlib.sha256()
    for f in ("Cargo.toml", "src/main.rs", "src/json.rs"):
        h.update(open(os.path.join(src, f), "rb").read())
    stamp = os.path.join(CACHE, "driver.stamp")
    exe = os.path.join(CACHE, "driver", "release", "mir-facts")
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return exe
    env = _env()
    env["CARGO_TARGET_DIR"] = os.path.join(CACHE, "driver")
    rc, out = _run(["cargo", "build", "--release", "--offline", "--manifest-path",
                    os.path.join(src, "Cargo.toml")], env)
    if rc != 0:
        raise BuildError("the driver does not build:\n" + out[-4000:])
    open(stamp, "w").write(h.hexdigest())
    return exe


def source_hash():
    """A hash of everything that /repo is built from, and of the driver."""
    h = hashlib.sha256()
    for base, skip in ((REPO, (".git", "target", "node_modules")), (os.path.join(VERIF, "driver"), ("target",))):
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x not in skip)
            for f in sorted(files):
                p = os.path.join(d, f)
                if os.path.islink(p) or not os.path.isfile(p):
                    continue
                h.update(p.encode() + b"\0")
                with open(p, "rb") as x:
                    h.update(hashlib.sha256(x.read()).digest())
    h.update(open(os.path.abspath(__file__), "rb").read())
    return h.hexdigest()


def extract(feature):
    """Compiles /repo's current tree with the driver and returns the facts it writes.

    The facts are kept under a hash of the contents of the whole tree, and reused while it is the same.
    """
    os.makedirs(CACHE, exist_ok=True)
    kept = os.path.join(CACHE, "facts-%s.marshal" % feature)
    with open(os.path.join(CACHE, "lock-" + feature), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        lockfile = os.path.join(REPO, "Cargo.lock")
        if not os.path.exists(lockfile):
            shutil.copy(os.path.join(VERIF, "driver", "repo.Cargo.lock"), lockfile)
        h = source_hash()
        try:
            with open(kept, "rb") as f:
                if f.read(len(h)).decode() == h:
                    return marshal.load(f)
        except Exception:
            pass
        with open(os.path.join(CACHE, "lock"), "w") as l2:
            fcntl.flock(l2, fcntl.LOCK_EX)
            exe = build_driver()
        env = _env()
        rc, root = _run(["rustc", "--print", "sysroot"], env)
        if rc != 0:
            raise BuildError(root)
        target = os.path.join(CACHE, "target-" + feature)
        out = os.path.join(CACHE, "facts-%s.json" % feature)
        if os.path.exists(out):
            os.remove(out)
        # Make cargo run the compiler on the crate and its macros again, whatever it remembers.
        for d in ("build", ".fingerprint"):
            base = os.path.join(target, "debug", d)
            if os.path.isdir(base):
                for e in os.listdir(base):
                    if e == "tower-lsp" or e.startswith("tower-lsp-"):
                        shutil.rmtree(os.path.join(base, e))
        env.update({
            "LD_LIBRARY_PATH": os.path.join(root.strip(), "lib"),
            "MIR_FACTS_CRATE": "tower_lsp",
            "MIR_FACTS_OUT": out,
            "MIR_FACTS_EXTERN": EXTERN,
            "RUSTC_WORKSPACE_WRAPPER": exe,
            "CARGO_INCREMENTAL": "0",
        })
        rc, log = _run(["cargo", "check", "--offline", "--lib", "--manifest-path",
                        os.path.join(REPO, "Cargo.toml"), "--target-dir", target] + FEATURES[feature],
                       env, cwd=REPO)
        if rc != 0 or not os.path.exists(out):
            raise BuildError("cargo check (%s) failed:\n%s" % (feature, log[-6000:]))
        with open(out) as f:
            d = deep(json.load(f), {})
        keep_metadata(feature, target)
        with open(kept + ".tmp", "wb") as f:
            f.write(h.encode())
            marshal.dump(d, f)
        os.replace(kept + ".tmp", kept)
        os.remove(out)
        return d


def metadata(feature):
    return os.path.join(CACHE, "witness-" + feature)


def keep_metadata(feature, target):
    """Puts the metadata of the crate and of all that it depends on into one folder, for the witnesses."""
    dst = metadata(feature)
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    for d, _, files in os.walk(os.path.join(target, "debug")):
        for f in files:
            if f.startswith("lib") and f.endswith((".rmeta", ".so", ".rlib")):
                own = f.startswith("libtower_lsp-")
                to = os.path.join(dst, "libtower_lsp.rmeta" if own else f)
                if not os.path.exists(to):
                    (shutil.copy if own else os.link)(os.path.join(d, f), to)


def witness(feature, *crates):
    """A compiler of programs that use the crate, and `crates`: source -> (compiles, [(line, error)])."""
    extract(feature)
    dst, env = metadata(feature), _env()
    own = os.path.join(dst, "libtower_lsp.rmeta")
    if not os.path.exists(own):
        raise BuildError("no metadata of the crate for the witnesses")
    externs = []
    for c in crates:
        for f in sorted(os.listdir(dst)):
            if re.fullmatch(r"lib%s-[0-9a-f]+\.rmeta" % c, f):
                externs += ["--extern", "%s=%s" % (c, os.path.join(dst, f))]
                break
        else:
            raise BuildError("no metadata of %s for the witnesses" % c)

    def go(src):
        # The output goes to a folder of its own: rustc renames its result into place, which would replace a device file.
        with tempfile.TemporaryDirectory() as d:
            p = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", "witness", "--emit=metadata", "--error-format=json", "--out-dir", d,
                                "-L", "dependency=" + dst, "--extern", "tower_lsp=" + own] + externs + ["-"], env=env, cwd=d, input=src,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        errs = []
        for l in p.stderr.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("level") == "error" and m.get("spans"):
                for s in m["spans"]:
                    if s["is_primary"]:
                        errs.append((s["line_start"], m["message"], (m.get("code") or {}).get("code")))
            elif m.get("level") == "error":
                errs.append((0, m["message"], None))
        return p.returncode == 0, errs
    return go


def deep(x, memo):
    """Lists become tuples; equal ones become the same."""
    if isinstance(x, list):
        t = tuple(deep(y, memo) for y in x)
        try:
            return memo.setdefault(t, t)
        except TypeError:
            return t
    if isinstance(x, dict):
        return {k: deep(v, memo) for k, v in x.items()}
    return x


def tup(x):
    if isinstance(x, list):
        return tuple(tup(y) for y in x)
    return x


class Body:
    __slots__ = ("path", "key", "kind", "local", "argc", "spread", "locals", "names", "span", "blocks",
                 "promoted", "parent", "parent_path", "coroutine", "name", "public", "reachable",
                 "impl_self", "impl", "impl_trait", "in_trait", "frozen", "_ipdom", "_loops")

    def __init__(self, d):
        for s in self.__slots__:
            v = d.get(s)
            if s in ("locals", "impl_self", "names"):
                v = tup(v) if v is not None else None
            setattr(self, s, v)
        self._ipdom = None
        self._loops = None

    def __repr__(self):
        return "<Body %s>" % self.path

    def succ(self, b):
        t = self.blocks[b]["t"]
        k = t["k"]
        if k in ("goto", "drop", "assert", "yield"):
            return [t["t"]]
        if k == "call":
            return [t["t"]] if t["t"] is not None else []
        if k == "switch":
            return [c[1] for c in t["cases"]] + [t["otherwise"]]
        return []

    def ipdom(self):
        """Immediate postdominators, ignoring unwinding."""
        if self._ipdom is None:
            n = len(self.blocks)
            exit_ = n
            succ = {b: self.succ(b) or [exit_] for b in range(n)}
            succ[exit_] = []
            pred = {b: [] for b in range(n + 1)}
            for b in range(n):
                for s in succ[b]:
                    pred[s].append(b)
            order, seen = [], {exit_}
            stack = [(exit_, iter(pred[exit_]))]
            while stack:
                b, it = stack[-1]
                for p in it:
                    if p not in seen:
                        seen.add(p)
                        stack.append((p, iter(pred[p])))
                        break
                else:
                    order.append(b)
                    stack.pop()
            idx = {b: i for i, b in enumerate(order)}
            dom = {exit_: exit_}
            changed = True
            while changed:
                changed = False
                for b in reversed(order):
                    if b == exit_:
                        continue
                    new = None
                    for s in succ[b]:
                        if s in dom:
                            if new is None:
                                new = s
                            else:
                                x, y = s, new
                                while x != y:
                                    while idx[x] < idx[y]:
                                        x = dom[x]
                                    while idx[y] < idx[x]:
                                        y = dom[y]
                                new = x
                    if new is not None and dom.get(b) != new:
                        dom[b] = new
                        changed = True
            self._ipdom = {b: d for b, d in dom.items() if b != exit_}
        return self._ipdom

    def loop_heads(self):
        """Targets of back edges in a depth-first walk."""
        if self._loops is None:
            heads, color = set(), {}
            stack = [(0, iter(self.succ(0)))]
            color[0] = 1
            while stack:
                b, it = stack[-1]
                for s in it:
                    c = color.get(s, 0)
                    if c == 0:
                        color[s] = 1
                        stack.append((s, iter(self.succ(s))))
                        break
                    if c == 1:
                        heads.add(s)
                else:
                    color[b] = 2
                    stack.pop()
            self._loops = heads
        return self._loops


class Facts:
    def __init__(self, d, feature=""):
        self.feature = feature
        self.bodies, self.promoted, self.by_path = {}, {}, {}
        for b in d["bodies"]:
            body = Body(b)
            if body.promoted is not None:
                self.promoted[(body.key, body.promoted)] = body
            else:
                self.bodies[body.key] = body
                self.by_path.setdefault(body.path, body)
        self.adts = d["adts"]
        for a in self.adts.values():
            for v in a["variants"]:
                v["fields"] = [(f[0], tup(f[1]), f[2]) for f in v["fields"]]
        self.impls = d["impls"]
        self.impls_by_trait = {}
        for i in self.impls:
            i["args"] = tup(i["args"])
            i["self"] = tup(i["self"])
            i["items"] = {x["name"]: x for x in i["items"]}
            for x in i["items"].values():
                if "ty" in x:
                    x["ty"] = tup(x["ty"])
            self.impls_by_trait.setdefault(i["trait"], []).append(i)
        self.traits = {}
        for t in d["traits"]:
            for x in t["items"]:
                for k in ("inputs", "output"):
                    if k in x:
                        x[k] = tup(x[k])
            self.traits[t["path"]] = {x["name"]: x for x in t["items"]}
        self.sigs = {}
        for s in d["sigs"]:
            s["inputs"] = tup(s["inputs"])
            s["output"] = tup(s["output"])
            if "resolves_to" in s:
                s["resolves_to"] = tup(s["resolves_to"])
            self.sigs[s["key"]] = s
        self.generics = {k: tuple(v) for k, v in d["generics"].items()}

    def body(self, path):
        return self.by_path.get(path)

    def find(self, *parts):
        """Bodies of functions, by the ends of their paths."""
        return [b for b in self.bodies.values() if any(b.path.endswith(p) for p in parts)]


def load(feature="tokio"):
    return Facts(extract(feature), feature)


def load_all(features):
    """Facts for several features; the compilations run side by side."""
    with concurrent.futures.ThreadPoolExecutor() as ex:
        ds = list(ex.map(extract, features))
    return {f: Facts(d, f) for f, d in zip(features, ds)}
