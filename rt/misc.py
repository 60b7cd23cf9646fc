from common import *
from reg import *
import builtins, hashlib, io, json, os, pathlib, shutil, tarfile, tempfile, time, bz2
from copt import utils, datasets


@contract("C27")
class TraceC:
    @staticmethod
    def gen(rng, tier):
        return dict(freq=int(rng.choice([1, 1, 2, 3, 7])), f=bool(rng.rand() < .5), n=int(rng.randint(0, 25)), seed=int(rng.randint(10 ** 6)), inplace=bool(rng.rand() < .6),
                    extra=bool(rng.rand() < .5))

    @staticmethod
    def check(c):
        rng = np.random.RandomState(c["seed"])
        f = (lambda x: float((x ** 2).sum() + x[0])) if c["f"] else None
        T = utils.Trace(f, freq=c["freq"]) if c["f"] or c["extra"] else utils.Trace(freq=c["freq"])
        x = rng.randn(3)
        rx, rs, rf = [], [], []
        for k in range(c["n"]):
            s = float(rng.rand()) if rng.rand() < .9 else None
            if k % c["freq"] == 0:
                rx.append(x.copy())
                rs.append(s)
                rf.append((x ** 2).sum() + x[0])
            x0 = x.copy()
            r = T(dict(x=x, step_size=s, junk=1))
            need(r is not False, "trace stops the solver")
            need(np.array_equal(x, x0), "trace modified the iterate")
            if c["inplace"]:
                x += rng.randn(3)
            else:
                x = rng.randn(3)
        need(len(T.trace_time) == len(rs), "%d times for %d recorded calls", len(T.trace_time), len(rs))
        need(list(T.trace_step_size) == rs, "step sizes %s instead of %s", T.trace_step_size, rs)
        need(all(a <= b for a, b in zip(T.trace_time, T.trace_time[1:])) and all(t >= 0 for t in T.trace_time), "times decrease")
        if f is not None:
            need(len(T.trace_fx) == len(rf) and np.allclose(T.trace_fx, rf, rtol=1e-12, atol=1e-12), "objective values")
        else:
            need(len(T.trace_x) == len(rx) and all(np.array_equal(a, b) for a, b in zip(T.trace_x, rx)), "recorded iterates")


@contract("C28")
class FuncGrad:
    @staticmethod
    def gen(rng, tier):
        return dict(obj=obj_case(rng, 3, int(rng.choice([1, 2, 4])), kinds=("ls", "logit", "cos")), mode=str(rng.choice(["callable", "true", "false", "none", "2-point"])),
                    args=bool(rng.rand() < .5), seed=int(rng.randint(10 ** 6)), n=int(rng.randint(1, 8)))

    @staticmethod
    def check(c):
        rng = np.random.RandomState(c["seed"])
        f = Obj(c["obj"])
        m = f.A.shape[1]
        w = 1.7 if c["args"] else 1.0
        args = (w,) if c["args"] else ()

        def fun(x, *a):
            return f.f(x) * (a[0] if a else 1.0)

        def jac(x, *a):
            return f.g(x) * (a[0] if a else 1.0)

        def both(x, *a):
            return fun(x, *a), jac(x, *a)
        J = dict(callable=jac, true=True, false=False, none=None).get(c["mode"], c["mode"])
        try:
            fg = utils.build_func_grad(J, both if c["mode"] == "true" else fun, args, 1e-7)
            pool = [rng.randn(m) for _ in range(3)]
            for k in range(c["n"]):
                j = rng.randint(3)
                if rng.rand() < .4:
                    pool[j] += rng.randn(m)  # in-place change of a point evaluated before
                if rng.rand() < .2:
                    pool[j] = pool[rng.randint(3)].copy()
                x = pool[j]
                keep = x.copy()
                v, g = fg(x)
                need(np.array_equal(x, keep), "point modified")
                need(abs(v - w * f.f(x)) <= 1e-9 * (1 + abs(v)), "value %r instead of %r", v, w * f.f(x))
                tol = 1e-9 if c["mode"] in ("callable", "true") else 1e-5 * (1 + np.abs(f.A).max() ** 2 + abs(f.f(x)))
                need(close(g, w * f.g(x), rtol=1e-4 if tol > 1e-8 else 1e-9, atol=tol * (1 + np.abs(f.g(x)).max())), "gradient %s instead of %s", g, w * f.g(x))
        except Bad:
            raise
        except Exception as e:
            if c["mode"] == "2-point":
                return KF("default-jac", "jac='2-point' (the default) is treated like jac=True and fails for a scalar objective (%s)" % type(e).__name__)
            raise


@contract("C28")
class SolverObj:
    """the values used by the solvers: every (value, gradient) request reaches the user callables with the same point and args"""
    @staticmethod
    def gen(rng, tier):
        return dict(obj=obj_case(rng, 3, int(rng.choice([2, 4])), kinds=("ls", "logit")), mode=str(rng.choice(["callable", "true", "false"])), s=str(rng.choice(["fw", "pgd", "apgd"])), args=bool(rng.rand() < .7))

    @staticmethod
    def check(c):
        from copt import frank_wolfe, proximal_gradient, constraint
        f = Obj(c["obj"])
        m = f.A.shape[1]
        w = 1.7 if c["args"] else 1.0
        args = (w,) if c["args"] else ()
        seen = []

        def chk(x, a):
            need(tuple(a) == args, "extra arguments %s instead of %s", a, args)

        def fun(x, *a):
            chk(x, a)
            return f.f(x) * (a[0] if a else 1.0)

        def jac(x, *a):
            chk(x, a)
            return f.g(x) * (a[0] if a else 1.0)
        J = dict(callable=jac, true=True, false=False)[c["mode"]]
        F = (lambda x, *a: (fun(x, *a), jac(x, *a))) if c["mode"] == "true" else fun
        step = 0.5 / (w * f.L())
        kw = dict(jac=J, args=args, max_iter=4, tol=0)
        g = lambda x: w * f.g(x)
        xs = []
        cb = lambda dl: xs.append(np.array(dl["x"], copy=True))
        tol = 1e-4 if c["mode"] == "false" else 1e-8
        x0 = np.full(m, .2 / m)
        if c["s"] == "fw":
            us = []

            def lmo(u, x, act):
                need(close(u, -g(x), rtol=tol, atol=tol * (1 + np.abs(g(x)).max() + np.abs(f.A).max() ** 2)), "gradient used at %s is %s instead of %s", x, -u, g(x))
                return constraint.L1Ball(1.0).lmo(u, x)
            frank_wolfe.minimize_frank_wolfe(F, x0, lmo, step="sublinear", callback=cb, **kw)
        else:
            pts = []

            def prox(z, s):
                pts.append(z.copy())
                return z.copy()
            proximal_gradient.minimize_proximal_gradient(F, x0, prox=prox, step=lambda dl: step, callback=cb, accelerated=c["s"] == "apgd", **kw)
            z = pts[0]
            need(close(z, x0 - step * g(x0), atol=tol * (1 + np.abs(g(x0)).max() + np.abs(f.A).max() ** 2)), "first step does not use the gradient at x0")


@contract("C28")
class InitLip:
    @staticmethod
    def gen(rng, tier):
        m = int(rng.choice([1, 2, 4]))
        return dict(obj=obj_case(rng, 3, m, kinds=("ls", "logit", "cos", "lin")), x=lst(vec(rng, m)))

    @staticmethod
    def check(c):
        f = Obj(c["obj"])
        f.log = True
        x = arr(c["x"])
        x0 = x.copy()
        L = utils.init_lipschitz(f, x)
        need(np.array_equal(x, x0), "x0 modified")
        need(np.isfinite(L) and L > 0, "estimate %r not positive", L)
        if len(f.calls) < 90:
            need(f.f(x - f.g(x) / L) <= f.f(x) + 1e-12 * (1 + abs(f.f(x))), "gradient step with the estimate %r increases the objective", L)


# ---------------------------------------------------------------------- C29
class Guard:
    """scratch directory; every destructive or network call of the loaders is confined to it or recorded"""

    def __init__(self):
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix="copt_c29_"))
        self.saved = []
        self.net = []
        self.escape = []
        self.on_fetch = None

    def inside(self, p):
        return os.path.realpath(p).startswith(self.dir + os.sep) or os.path.realpath(p) == self.dir

    def patch(self, obj, name, fn):
        self.saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, fn)

    def __enter__(self):
        import urllib.request
        ro, mk, mk1, op = os.remove, os.makedirs, os.mkdir, builtins.open

        def remove(p, *a, **k):
            if not self.inside(p):
                self.escape.append(("remove", str(p)))
                raise PermissionError(p)
            return ro(p, *a, **k)

        def makedirs(p, *a, **k):
            if not self.inside(p):
                self.escape.append(("makedirs", str(p)))
                raise PermissionError(p)
            return mk(p, *a, **k)

        def open_(p, mode="r", *a, **k):
            if any(ch in mode for ch in "wax+") and isinstance(p, (str, bytes, os.PathLike)) and not self.inside(p):
                self.escape.append(("open", str(p)))
                raise PermissionError(p)
            return op(p, mode, *a, **k)

        def fetch(url, filename=None, *a, **k):
            self.net.append((url, filename))
            if len(self.net) > 6:
                raise RuntimeError("too many downloads")
            if filename is None:
                filename = os.path.join(self.dir, "download_%d" % len(self.net))
            if not self.inside(filename):
                self.escape.append(("fetch", str(filename)))
                raise PermissionError(filename)
            if self.on_fetch is None:
                raise RuntimeError("unexpected download of %s" % url)
            self.on_fetch(url, filename, len(self.net))
            return filename, None
        for n in ("remove", "unlink"):
            self.patch(os, n, remove)
        for n in ("rmdir", "rename", "replace", "removedirs", "chmod", "chown", "symlink", "link", "truncate"):
            if hasattr(os, n):
                old = getattr(os, n)
                self.patch(os, n, (lambda old, n: lambda p, *a, **k: old(p, *a, **k) if self.inside(p) else self.escape.append((n, str(p))))(old, n))
        self.patch(os, "makedirs", makedirs)
        self.patch(os, "mkdir", lambda p, *a, **k: mk1(p, *a, **k) if self.inside(p) else self.escape.append(("mkdir", str(p))))
        self.patch(builtins, "open", open_)
        self.patch(urllib.request, "urlretrieve", fetch)
        self.patch(urllib.request, "urlopen", lambda *a, **k: (_ for _ in ()).throw(RuntimeError("urlopen")))
        self.patch(datasets, "DATA_DIR", self.dir)
        self.patch(shutil, "rmtree", lambda p, *a, **k: self.escape.append(("rmtree", str(p))))
        return self

    def __exit__(self, *a):
        for obj, name, v in reversed(self.saved):
            setattr(obj, name, v)
        assert self.dir.startswith(os.path.realpath(tempfile.gettempdir()) + os.sep + "copt_c29_")
        shutil.rmtree(self.dir, ignore_errors=True)
        return False


def store(d, tr, te):
    os.makedirs(d, exist_ok=True)
    for nm, (X, y) in (("train", tr), ("test", te)):
        X = sparse.csr_matrix(X)
        np.save(os.path.join(d, "X_%s.data.npy" % nm), X.data)
        np.save(os.path.join(d, "X_%s.indices.npy" % nm), X.indices)
        np.save(os.path.join(d, "X_%s.indptr.npy" % nm), X.indptr)
        np.save(os.path.join(d, "y_%s.npy" % nm), y)


def mk_data(rng, n, m):
    X = np.round(rng.randn(n, m), 3)
    X[rng.rand(n, m) < .4] = 0
    X[0, m - 1] = 1.5
    return X, rng.randint(0, 2, size=n).astype(float)


def same(a, b):
    a = a.toarray() if sparse.issparse(a) else np.asarray(a)
    b = b.toarray() if sparse.issparse(b) else np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b)


LOADERS = {"madelon": "load_madelon", "rcv1": "load_rcv1", "gisette": "load_gisette", "covtype": "load_covtype", "news20": "load_news20"}


@contract("C29")
class Stored:
    @staticmethod
    def gen(rng, tier):
        return dict(name=str(rng.choice(sorted(LOADERS))), subset=str(rng.choice(["train", "test", "full", "full", "bogus", "Train", ""])), seed=int(rng.randint(10 ** 6)),
                    state=str(rng.choice(["present", "present", "nodir", "emptydir", "partial"])), miss=int(rng.randint(4)))

    @staticmethod
    def check(c):
        rng = np.random.RandomState(c["seed"])
        m = 3
        tr, te = mk_data(rng, 4, m), mk_data(rng, 2, m)
        with Guard() as G:
            dd = os.path.join(G.dir, "data")
            os.makedirs(dd)
            ds = os.path.join(dd, c["name"])
            src = os.path.join(G.dir, "src", c["name"])
            store(src, tr, te)
            arch = os.path.join(G.dir, "arch.tar.gz")
            with tarfile.open(arch, "w:gz") as t:
                t.add(src, arcname=c["name"])
            if c["state"] in ("present", "partial"):
                store(ds, tr, te)
            if c["state"] == "emptydir":
                os.makedirs(ds)
            if c["state"] == "partial":
                os.remove(os.path.join(ds, ["X_train.data.npy", "X_train.indices.npy", "X_train.indptr.npy", "y_train.npy"][c["miss"]]))

            def fetch(url, fn, k):
                need(c["name"] in url, "fetches %s for the dataset %s", url, c["name"])
                shutil.copyfile(arch, fn)
            G.on_fetch = fetch
            f = getattr(datasets, LOADERS[c["name"]])
            only = c["name"] in ("covtype", "news20")
            sub = "train" if only else c["subset"]
            try:
                r = f(data_dir=dd) if only else f(c["subset"], data_dir=dd)
            except ValueError as e:
                need(sub not in ("train", "test", "full"), "ValueError for subset %r: %s", sub, e)
                return
            finally:
                need(not G.escape, "touched %s outside the data directory", G.escape)
            need(sub in ("train", "test", "full"), "no ValueError for the subset %r", sub)
            if c["state"] == "present":
                need(not G.net, "downloaded although the files are present")
            else:
                need(len(G.net) >= 1, "files missing but nothing was fetched")
            X, y = r
            exp = {"train": tr, "test": te, "full": (np.vstack([tr[0], te[0]]), np.concatenate([tr[1], te[1]]))}[sub]
            need(same(X, exp[0]) and same(y, exp[1]), "data returned for the subset %r is not the stored one", sub)


CHK = {
    "url": ("load_url", "url_combined.bz2", "83673b8f4224c81968af2fb6022ee487", "url_combined"),
    "kdd10": ("load_kdd10", "kddb.bz2", "bc5b630fef6989c2f201039fef497e14", "kddb"),
    "kdd12": ("load_kdd12", "kdd12.bz2", "c6fc57735c3cf687dd182d60a7b51cda", "kdd12"),
    "criteo": ("load_criteo", "criteo.kaggle2014.svm.tar.gz", "d852b491d1b3afa26c1e7b49594ffc3e", "criteo"),
}


@contract("C29")
class Checksum:
    limit = {"quick": 120, "thorough": 3000}

    @staticmethod
    def gen(rng, tier):
        return dict(name=str(rng.choice(sorted(CHK))), bad=int(rng.choice([0, 0, 1, 2])), seed=int(rng.randint(10 ** 6)), state=str(rng.choice(["absent", "absent", "present", "corrupt", "nodir"])),
                    check=bool(rng.rand() < .85))

    @staticmethod
    def check(c):
        rng = np.random.RandomState(c["seed"])
        fn, arch, digest, tag = CHK[c["name"]]
        X, y = mk_data(rng, 5, 3)
        y = 2 * y - 1
        Xb, yb = mk_data(rng, 4, 2)
        yb = 2 * yb - 1

        def svm(X, y):
            return "".join("%g %s\n" % (y[i], " ".join("%d:%r" % (j + 1, float(X[i, j])) for j in range(X.shape[1]) if X[i, j])) for i in range(len(y))).encode()

        def pack(X, y, extra=b""):
            if c["name"] == "criteo":
                bio = io.BytesIO()
                with tarfile.open(fileobj=bio, mode="w:gz") as t:
                    dat = svm(X, y)
                    ti = tarfile.TarInfo("criteo.kaggle2014.train.svm")
                    ti.size = len(dat)
                    t.addfile(ti, io.BytesIO(dat))
                return bio.getvalue()
            return bz2.compress(svm(X, y))
        good, bad = pack(X, y), pack(Xb, yb)
        real = hashlib.md5

        class H:
            def __init__(self, data=b""):
                self.b = bytes(data)

            def update(self, d):
                self.b += bytes(d)

            def hexdigest(self):
                return digest if self.b == good else real(self.b).hexdigest()

            def digest(self):
                return bytes.fromhex(self.hexdigest())
        with Guard() as G:
            G.patch(hashlib, "md5", lambda d=b"", **k: H(d))
            fp = os.path.join(G.dir, arch)
            served = []

            def fetch(url, f, k):
                need(arch in url, "fetches %s for the dataset %s", url, c["name"])
                ok = k > c["bad"]
                served.append(ok)
                with open(f, "wb") as h:
                    h.write(good if ok else bad)
            G.on_fetch = fetch
            if c["state"] == "nodir":
                G.patch(datasets, "DATA_DIR", os.path.join(G.dir, "sub", "dir"))
                fp = os.path.join(G.dir, "sub", "dir", arch)
            f = getattr(datasets, fn)
            if c["state"] == "present":
                bb, c["bad"] = c["bad"], 0
                f(md5_check=c["check"])
                c["bad"] = bb
                n0 = len(G.net)
                r = f(md5_check=c["check"])
                need(len(G.net) == n0, "downloaded although the files are present")
                need(not G.escape, "touched %s outside the data directory", G.escape)
            elif c["state"] == "corrupt":
                if c["name"] != "kdd10" or not c["check"]:
                    return  # the other loaders verify only fresh downloads
                with open(fp, "wb") as h:
                    h.write(bad)
                r = f(md5_check=True)
                need(len(G.net) >= 1, "returned data from an archive with the wrong digest")
            else:
                r = f(md5_check=c["check"])
            need(not G.escape, "touched %s outside the data directory", G.escape)
            Xr, yr = r
            Xr = Xr.toarray()
            w_good = (X, y) if c["name"] == "kdd10" or (c["name"] == "criteo") else (X, (y + 1) // 2)
            if c["check"]:
                need(same(Xr, w_good[0]) and same(yr, w_good[1]), "data returned is not the content of the verified archive")
                if c["state"] in ("absent", "nodir"):
                    need(len(G.net) == c["bad"] + 1, "%d downloads for %d bad archives", len(G.net), c["bad"])


@contract("C29")
class Img:
    limit = {"quick": 60, "thorough": 500}

    @staticmethod
    def gen(rng, tier):
        return dict(r=int(rng.randint(1, 30)), c=int(rng.randint(1, 30)), d=bool(rng.rand() < .1))

    @staticmethod
    def check(c):
        try:
            import PIL
        except ImportError:
            return
        im = datasets.load_img1() if c["d"] else datasets.load_img1(c["r"], c["c"])
        need(im.shape == ((20, 20) if c["d"] else (c["r"], c["c"])), "image of shape %s", im.shape)
        need(np.all(np.isfinite(im)), "image not finite")
