"""Monitors on the command-line programs: the instrumented programs are run in scratch directories and their exit
status, messages and files are compared with library calls (harness/capi.cc) and with what went in."""
import collections, hashlib, json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import build as B
from lib.runner import SAN_ENV, crash_key

TOOLS = ["analyze", "concat", "converter", "lsol_c", "shuffle", "split", "sol_train", "sol_test"]
ALGOS = ["perceptron", "ogd", "pa", "pa1", "pa2", "alma2", "rda", "cw", "eccw", "arow", "sop", "ada-fobos", "ada-rda",
         "stg", "fobos-l1", "rda-l1", "erda-l1", "ada-fobos-l1", "ada-rda-l1", "pet", "fofs", "sofs", "adafobos-ofs", "adarda-ofs"]
PARAMS = [("norm", ["L1", "L2", "None", "L7"]), ("lazy_update", ["true", "false"]), ("bias_eta", ["0", "0.25", "1", "-1", "x"]),
          ("eta", ["0.5", "2", "0.01", "-3"]), ("power_t", ["0", "0.5", "1"]), ("lambda", ["0.01", "0.2", "0", "-1"]), ("C", ["0.3", "2"]),
          ("delta", ["0.5", "1", "0"]), ("a", ["0.5", "2"]), ("r", ["0.5", "2"]), ("phi", ["0.5", "1"]), ("sigma", ["1", "2"]), ("rou", ["0.1"]),
          ("B", ["1", "3", "100", "-2"]), ("k", ["1", "4", "0"]), ("alpha", ["0.5", "1", "7"]), ("t", ["0", "5"]), ("dim", ["7", "40"]),
          ("loss", ["hinge", "square", "logistic", "maxscore-hinge", "uniform-logistic", "bool", "maxscore-bool", "nosuch"]),
          ("cost_margin", ["2"]), ("exp_show", ["3"]), ("step_show", ["4"]), ("no_such_parameter", ["1"])]

class Case:
    def __init__(self, prop, sub, seed, idx, res, exes, thorough=False, keep=False):
        self.prop, self.sub, self.seed, self.idx, self.res, self.exes, self.thorough = prop, sub, seed, idx, res, exes, thorough
        self.r = random.Random("%s.%s.%d.%d" % (prop, sub, seed, idx))
        self.d = tempfile.mkdtemp(prefix="verif-cli-")
        self.keep = keep
        self.n = 0
        self.viols = 0
        self.hash = hashlib.sha1()
        self.log = []
    def count(self, k, n=1):
        with self.res.lock:
            self.res.counts[k] = self.res.counts.get(k, 0) + n
    def viol(self, key, msg):
        self.viols += 1
        self.res.add_viol(key, msg + "\n" + "\n".join(self.log[-4:]), dict(case=self.idx,
            cmd="VERIF_SEED=%d python3 %s %s %s %d" % (self.seed, os.path.join(B.VERIF, "lib", "cli.py"), self.prop, self.sub, self.idx)))
    def path(self, name):
        return os.path.join(self.d, name)
    def exec(self, argv, limit=None, stdin=None):
        env = dict(os.environ); env.update(SAN_ENV)
        def pre():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            if limit is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        for attempt in (1, 2):
            try:
                sin = subprocess.DEVNULL if stdin is None else open(stdin[0], "rb") if stdin[1] == "file" else None
                p = subprocess.run(argv, cwd=self.d, env=env, **(dict(stdin=sin) if sin is not None else dict(input=open(stdin[0], "rb").read())), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   timeout=60 * attempt, preexec_fn=pre, restore_signals=False)
                return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
            except subprocess.TimeoutExpired:
                continue
        return None, "", ""
    def tool(self, name, args, limit=None, abort_ok=False, stdin=None):
        """runs a program; returns (rc, out, err); a crash or hang is a violation by itself"""
        args = [str(a) for a in args]
        self.log.append("$ %s %s%s" % (name, " ".join(repr(a) if re.search(r"[^\w./:=-]", a) or not a else a for a in args), "" if limit is None else "  (file size limit %d)" % limit) + ("" if stdin is None else "  (standard input: %s, %s)" % stdin))
        self.hash.update(("%s %s %s" % (name, args, limit)).replace(self.d, "").encode())
        rc, out, err = self.exec([self.exes[("t", name, "asan")]] + args, limit, stdin)
        self.count("runs." + name)
        if stdin is not None: self.count("stdin." + stdin[1])
        if rc is None:
            self.viol("cli.hang." + name, "%s did not finish" % name)
            return None, out, err
        if (rc < 0 or rc in (96, 97)) and not abort_ok:
            key, msg = crash_key(err, rc)
            self.viol("cli.crash.%s.%s" % (name, key), msg + "\n" + err[-2500:])
            return None, out, err
        self.log.append("  exit %s" % rc)
        return rc, out, err
    def lib(self, calls):
        """executes library calls, returns their results"""
        self.n += 1
        s, o = self.path("script%d" % self.n), self.path("result%d" % self.n)
        with open(s, "w") as f:
            for c in calls:
                f.write("\t".join(str(x) for x in c) + "\n")
        rc, out, err = self.exec([self.exes[("h", "capi", "asan")], s, o])
        if rc != 0:
            key, msg = crash_key(err, rc)
            self.viol("lib.crash.%s" % key, "library calls %s: %s\n%s" % (calls, msg, err[-2000:]))
            raise Abort()
        with open(o) as f:
            r = [json.loads(l) for l in f]
        assert len(r) == len(calls)
        return r
    def close(self):
        if self.keep:
            print("kept", self.d); print("\n".join(self.log))
        else:
            shutil.rmtree(self.d, ignore_errors=True)

class Abort(Exception):
    pass

def num(r):
    k = r.random()
    if k < 0.3: return "1"
    if k < 0.4: return "-1"
    return ("%.*f" % (r.randint(1, 3), r.uniform(-3, 3)))

def dataset(r, n, classes, dim, empties=0.05, distinct=False):
    rows = []
    for i in range(n):
        lab = r.choice([1, -1]) if classes == 2 else r.randrange(classes)
        k = 0 if r.random() < empties else r.randint(1, max(1, min(dim, 8)))
        idx = sorted(r.sample(range(1, dim + 1), min(k, dim)))
        rows.append((lab, [(j, num(r)) for j in idx]))
        if distinct:
            rows[-1] = (lab, [(j, v) for j, v in rows[-1][1] if j > 1])
            rows[-1][1].insert(0, (1, str(i + 1)))
    return rows

def write_svm(path, rows):
    with open(path, "w") as f:
        for lab, fs in rows:
            f.write("%d %s\n" % (lab, " ".join("%d:%s" % x for x in fs)))

def f32(bits):
    import struct
    return struct.unpack("f", struct.pack("I", bits))[0]

def canon(dump, dense=False):
    out = []
    for lab, fs in dump:
        fs = [(i, 0 if b in (0, 0x80000000) else b) for i, b in fs]
        if dense: fs = [x for x in fs if x[1] != 0]
        out.append((lab, tuple(sorted(fs))))
    return out

def opt(r, long, short, val):
    k = r.randrange(3)
    if k == 0 and short: return ["-" + short, val]
    if k == 1: return ["--%s=%s" % (long, val)]
    return ["--" + long, val]

def read(path):
    try:
        with open(path, "rb") as f: return f.read()
    except OSError:
        return None

def make_file(c, name, rows, fmt):
    """rows as a file of the given format (made through the library's converter; svm written here)"""
    p = c.path(name + ".svm"); write_svm(p, rows)
    if fmt == "svm": return p, "svm"
    q = c.path(name + "." + fmt)
    if c.lib([("convert", p, "svm", q, fmt, 0, 0)])[0] != 0: return p, "svm"
    return q, fmt

# ------------------------------------------------------------------ C24
def c24_learn(c):
    r = c.r
    classes = r.choice([2, 2, 3, 4]); dim = r.randint(2, 25); sizes = [1, 5, 30, 80, 300]
    if r.random() < .04:
        if classes > 2 and r.random() < .6: classes = r.randint(5, 60)
        elif r.random() < .5: dim = r.randint(100, 3000)
        else: sizes = [2500, 5000]
    rows, trows = dataset(r, r.choice(sizes), classes, dim), dataset(r, r.choice([0, 1, 12, 40]), classes, dim + 3)
    tr, fmt = make_file(c, "train", rows, r.choice(["svm", "svm", "bin", "csv"]))
    te, tfmt = make_file(c, "test", trows, r.choice(["svm", "svm", "bin"]))
    algo = r.choice(ALGOS)
    given_cls = classes if r.random() > 0.04 else r.choice([1, 0, -3])
    sets = []
    for _ in range(r.choice([0, 0, 1, 2, 3])):
        k, vs = r.choice(PARAMS); sets.append((k, r.choice(vs)))
    p_pass, bs, buf = r.choice([1, 1, 2, 5] * 4 + [13]), r.choice([1, 3, 17, 256] * 3 + [1000]), r.choice([1, 2, 6] * 4 + [25])
    use = lambda pr: r.random() < pr
    u = dict(fmt=fmt != "svm" or use(.3), cls=given_cls != 2 or use(.3), pas=use(.5), bs=use(.5), buf=use(.4), dim=use(.2), algo=algo != "ogd" or use(.5))
    if not u["pas"]: p_pass = 1
    if not u["bs"]: bs = 256
    if not u["buf"]: buf = 2
    dimv = r.choice(["4", "60"])
    def common(explicit_algo):
        a = []
        if u["fmt"]: a.append(opt(r, "format", "f", fmt))
        if u["cls"]: a.append(opt(r, "classes", "c", given_cls))
        if u["pas"]: a.append(opt(r, "pass", "p", p_pass))
        if u["bs"]: a.append(opt(r, "batchsize", "b", bs))
        if u["buf"]: a.append(opt(r, "bufsize", None, buf))
        if u["dim"]: a.append(opt(r, "dim", "d", dimv))
        if u["algo"] or explicit_algo: a.append(opt(r, "algo", "a", algo))
        if sets:
            sp = r.choice(["", " "])
            a.append(opt(r, "params", None, ";".join("%s%s=%s%s" % (sp, k, sp, v) for k, v in sets)))
        r.shuffle(a)
        return [x for y in a for x in y]
    calls = [("create", algo, given_cls)] + ([("set", "dim", dimv)] if u["dim"] else []) + [("set", k, v) for k, v in sets]
    ok = given_cls >= 2
    if ok:
        rr = c.lib(calls)
        ok = rr[0] == 1 and all(x == 0 for x in rr[1:])
    if not ok:
        c.count("refused_options")
        for tool, args in (("sol_train", common(False) + [tr, c.path("bad.model")]), ("lsol_c", ["-i", tr, "-o", c.path("bad.model")] + common(True))):
            rc, out, err = c.tool(tool, args)
            if rc == 0: c.viol("cli.accepted." + tool, "%s exited 0 although the library refuses the settings" % tool)
            elif rc is not None and not err.strip(): c.viol("cli.silent." + tool, "%s failed without an error message" % tool)
        return
    m0 = c.path("lib.model")
    rr = c.lib(calls + [("watch",), ("iter", bs, buf), ("load", tr, fmt, p_pass), ("train",), ("trace",), ("sparsity",), ("save", m0)])
    acc, trace, spars = rr[-4], rr[-3], rr[-2]
    ref = read(m0)
    if rr[-1] != 0 or ref is None: return          # e.g. weights that are not finite
    a = common(False); k = r.randint(0, len(a)) if False else len(a)
    sin = (tr, "file" if p_pass > 1 or use(.5) else "pipe") if use(.15) else None      # lsol_c reads "-" from the standard input
    runs = [("sol_train", a + [tr, c.path("sol_train.model")]), ("lsol_c", (["-i", "-"] if sin else opt(r, "input", "i", tr)) + opt(r, "output", "o", c.path("lsol_c.model")) + common(True) + (["-t", "train"] if use(.4) else []))]
    for tool, args in runs:
        rc, out, err = c.tool(tool, args, stdin=sin if tool == "lsol_c" else None)
        if rc is None: continue
        if rc != 0:
            c.viol("cli.failed." + tool, "%s exited %d although the library does the same without error\n%s" % (tool, rc, err[-400:])); continue
        got = read(c.path(tool + ".model"))
        if got != ref: c.viol("cli.model." + tool, "%s wrote a model that differs from the library's: %r\n vs %r" % (tool, (got or b"")[:700], ref[:700]))
        mm = re.findall(r"training accuracy: (\S+)", out)
        if mm != [acc]: c.viol("cli.accuracy." + tool, "%s printed training accuracy %s, the library says %s" % (tool, mm, acc))
        tab = [x.split() for x in out.splitlines() if re.match(r"\d+\s+\d+\s+[-\d.]+\s+\d+\s*$", x)]
        if len(tab) != len(trace) or any((int(x[0]), int(x[1]), int(x[3])) != (y[0], y[1], y[3]) or abs(float(x[2]) - float(y[2])) > 2e-6 for x, y in zip(tab, trace)):
            c.viol("cli.progress." + tool, "%s printed the progress %s, the library reports %s" % (tool, tab[:40], trace[:40]))
        c.count("progress_rows", len(tab))
        if tool == "sol_train":
            mm = re.findall(r"model sparsity: (\S+)", out)
            if mm != [spars]: c.viol("cli.sparsity." + tool, "printed sparsity %s, the library says %s" % (mm, spars))
        c.count("models_compared")
    # testing
    filt = []
    if use(.3):
        fl = sorted(r.sample(range(1, dim + 4), r.randint(1, dim)))
        with open(c.path("filter.txt"), "w") as f: f.write("# features\n" + "\n".join(map(str, fl)) + "\n")
        filt = [("set", "filter", c.path("filter.txt"))]
    rr = c.lib([("restore", m0)] + filt + [("iter", 256, 2), ("load", te, tfmt, 1), ("test", c.path("lib.out"))])
    acc, ref = rr[-1], read(c.path("lib.out"))
    src = r.choice(["lib", "sol_train", "lsol_c"])
    ta = (["-f", tfmt] if tfmt != "svm" or use(.3) else []) + (["-b", r.choice([1, 7, 100])] if use(.4) else []) + (["--bufsize", r.choice([1, 3])] if use(.4) else [])
    fa = ["--filter", c.path("filter.txt")] if filt else []
    for tool, args in (("sol_test", ta + fa + [c.path(src + ".model"), te, c.path("sol_test.out")]),
                       ("lsol_c", ["-t", "test", "-i", te, "-m", c.path(src + ".model"), "-o", c.path("lsol_c.out")] + ta + fa)):
        rc, out, err = c.tool(tool, args)
        if rc is None: continue
        if rc != 0:
            c.viol("cli.failed.test." + tool, "%s exited %d although the library tests the model without error\n%s" % (tool, rc, err[-400:])); continue
        if read(c.path(tool + ".out")) != ref: c.viol("cli.predictions." + tool, "%s wrote other predictions than the library: %r vs %r" % (tool, (read(c.path(tool + ".out")) or b"")[:500], (ref or b"")[:500]))
        mm = re.findall(r"test accuracy: (\S+)", out)
        if mm != [acc]: c.viol("cli.accuracy.test." + tool, "%s printed test accuracy %s, the library says %s" % (tool, mm, acc))
        c.count("tests_compared")
    # going on from the other program's model
    if use(.5):
        m1 = c.path("lib2.model")
        more = [(k, r.choice(v)) for k, v in [r.choice([("lazy_update", ["true", "false"]), ("bias_eta", ["0.5"]), ("step_show", ["5"])])]] if use(.4) else []
        rr = c.lib([("restore", m0)] + [("set", k, v) for k, v in more] + [("iter", 256, 2), ("load", tr, fmt, 2), ("train",), ("save", m1)])
        if all(x == 0 for x in rr[1:1 + len(more)]) and rr[-1] == 0:
            ref = read(m1)
            for tool, src, args in (("sol_train", "lsol_c", []), ("lsol_c", "sol_train", [])):
                a = ["-f", fmt, "-p", "2", "-m", c.path(src + ".model")] + (["--params", ";".join("%s=%s" % x for x in more)] if more else [])
                a = a + [tr, c.path(tool + "2.model")] if tool == "sol_train" else a + ["-i", tr, "-o", c.path(tool + "2.model")]
                rc, out, err = c.tool(tool, a)
                if rc is None: continue
                if rc != 0: c.viol("cli.failed.resume." + tool, "%s exited %d when going on from a model of %s\n%s" % (tool, rc, src, err[-400:])); continue
                got = read(c.path(tool + "2.model"))
                if got != ref: c.viol("cli.resumed." + tool, "%s went on to another model than the library: %r\n vs %r" % (tool, (got or b"")[:600], ref[:600]))
                if re.findall(r"training accuracy: (\S+)", out) != [rr[-2]]: c.viol("cli.accuracy.resume." + tool, "%s vs %s" % (out[-200:], rr[-2]))
                c.count("resumed")

def c24_data(c):
    r = c.r
    classes = r.choice([2, 3]); dim = r.randint(1, 20)
    rows = dataset(r, r.choice([0, 1, 3, 20, 90, 600] * 5 + [11000]), r.choice([classes] * 9 + [40]), dim)
    src, fmt = make_file(c, "src", rows, r.choice(["svm", "svm", "bin", "csv"]))
    dst = r.choice(["svm", "bin", "csv"])
    bt = r.choice([None, None, "0", "0.5", "-1", "1"])
    a, b = c.path("tool." + dst), c.path("lib." + dst)
    exp = c.lib([("convert", src, fmt, b, dst, 1 if bt is not None else 0, bt or 0)])[0]
    sin = (src, r.choice(["file", "pipe"])) if dst != "csv" and r.random() < .15 else None
    args = [["-i", "-"] if sin else opt(r, "input", "i", src), opt(r, "input_type", "s", fmt), opt(r, "output", "o", a), opt(r, "output_type", "d", dst)]
    if bt is not None: args.append(["--binary_thresh=" + bt] if bt.startswith("-") else opt(r, "binary_thresh", "b", bt))
    r.shuffle(args)
    rc, out, err = c.tool("converter", [x for y in args for x in y], stdin=sin)
    if rc is not None:
        if (rc == 0) != (exp == 0): c.viol("cli.status.converter", "converter exited %d, the library returned %d" % (rc, exp))
        elif rc == 0 and read(a) != read(b): c.viol("cli.converted", "converter's output differs from the library's: %r vs %r" % ((read(a) or b"")[:300], (read(b) or b"")[:300]))
        elif rc != 0 and not err.strip(): c.viol("cli.silent.converter", "converter failed without a message")
        c.count("conversions")
    exp = c.lib([("analyze", src, fmt, c.path("lib.ana"))])[0]
    sin = lambda: (src, r.choice(["file", "pipe"])) if r.random() < .15 else None
    inp = lambda s: ["-i", "-"] if s else opt(r, "input", "i", src)
    si = sin(); rc, out, err = c.tool("analyze", inp(si) + opt(r, "input_type", "s", fmt) + ["-o", c.path("tool.ana")], stdin=si)
    if rc is not None:
        if (rc == 0) != (exp == 0): c.viol("cli.status.analyze", "analyze exited %d, the library returned %d" % (rc, exp))
        elif rc == 0 and read(c.path("tool.ana")) != read(c.path("lib.ana")): c.viol("cli.analysis", "analyze's report differs from the library's")
        c.count("analyses")
    if r.random() < .4:
        rc, out, err = c.tool("analyze", ["-i", src, "-s", fmt])
        if rc == 0 and (read(c.path("lib.ana")) or b"").decode() not in out: c.viol("cli.analysis.stdout", "analyze without -o did not print the report: %r" % out[-300:])
    n = r.choice([1, 2, 3, 7] * 5 + [29]); d2 = r.choice(["svm", "bin"])
    shuf = r.random() < .4
    exp = c.lib([("split", src, fmt, n, c.path("lib.part"), d2 or fmt, 0)])[0]
    si = sin(); rc, out, err = c.tool("split", inp(si) + opt(r, "input_type", "s", fmt) + opt(r, "fold", "n", n) + opt(r, "output_prefix", "o", c.path("tool.part")) +
                          (opt(r, "output_type", "d", d2) if d2 else []) + ([r.choice(["-r", "--shuffle"])] if shuf else []), stdin=si)
    if rc is not None:
        if (rc == 0) != (exp == 0): c.viol("cli.status.split", "split exited %d, the library returned %d" % (rc, exp))
        elif rc == 0 and rows:
            t = d2 or fmt
            if not shuf:
                for i in range(n):
                    x, y = read(c.path("tool.part%d.%s" % (i, t))), read(c.path("lib.part%d.%s" % (i, t)))
                    if x != y or x is None: c.viol("cli.parts", "part %d of split differs from the library's" % i); break
            else:
                got = c.lib([("dump", c.path("tool.part%d.%s" % (i, t)), t) for i in range(n)])
                want = canon(c.lib([("dump", src, fmt)])[0][:-1], True)
                flat = [x for g in got for x in canon(g[:-1], True)]
                if collections.Counter(flat) != collections.Counter(want): c.viol("cli.parts.shuffled", "the parts of split -r do not contain every example once")
                if len(want) > 24 and len(set(want)) > 20 and flat == want: c.viol("cli.parts.order", "split -r did not shuffle")
        c.count("splits")
    t = r.choice(["", "svm", "bin"])
    si = sin(); rc, out, err = c.tool("shuffle", inp(si) + opt(r, "input_type", "s", fmt) + ["-o", c.path("shuf")] + (["-d", t] if t else []), stdin=si)
    if rc is not None:
        if rc != 0: c.viol("cli.status.shuffle", "shuffle exited %d\n%s" % (rc, err[-300:]))
        else:
            got, want = c.lib([("dump", c.path("shuf"), t or fmt), ("dump", src, fmt)])
            if collections.Counter(canon(got[:-1], True)) != collections.Counter(canon(want[:-1], True)): c.viol("cli.shuffled", "shuffle's output is not a permutation of its input")
            c.count("shuffles")

def c24_usage(c):
    r = c.r
    rows = dataset(r, 20, 2, 8)
    src = c.path("d.svm"); write_svm(src, rows)
    mod = c.path("m.model"); rr = c.lib([("create", "ogd", 2), ("iter", 8, 2), ("load", src, "svm", 1), ("train",), ("save", mod)])
    nodir = c.path("no/such/dir/file"); o = c.path("o")
    good = dict(sol_train=[["-a", r.choice(ALGOS), src, o]], sol_test=[[mod, src, o]], lsol_c=[["-a", r.choice(ALGOS), "-i", src, "-o", o]],
                converter=[["-i", src, "-s", "svm", "-o", o, "-d", "bin"]], concat=[["-i", src + ";" + src, "-s", "svm", "-o", o, "-d", "svm"]],
                shuffle=[["-i", src, "-s", "svm", "-o", o]], split=[["-i", src, "-s", "svm", "-n", "2", "-o", o, "-d", "svm"]], analyze=[["-i", src, "-s", "svm", "-o", o]])
    if r.random() < .12:
        for t in ("sol_train", "lsol_c"):
            rc, out, err = c.tool(t, ["--show", "model"])
            if rc is not None:
                miss = [a for a in ALGOS if not re.search(r"(?m)^%s:" % re.escape(a), out)]
                if rc != 0 or miss: c.viol("cli.show." + t, "--show model exited %s, missing %s" % (rc, miss))
        for t in TOOLS:
            rc, out, err = c.tool(t, r.choice([["--help"], ["-h"]]) if t in ("sol_train", "sol_test", "lsol_c") else ["--help"])
            if rc is not None and not (rc == 0 and "usage" in (out + err)): c.viol("cli.help." + t, "--help exited %s" % rc)
        c.count("help")
    t = r.choice(TOOLS)
    rc, out, err = c.tool(t, good[t][0])
    if rc is not None and rc != 0: c.viol("cli.valid." + t, "a valid invocation exited %d: %s" % (rc, err[-300:]))
    c.count("valid")
    g = list(good[t][0])
    bad = []   # (arguments, why)
    bad.append((g + ["--no-such-option", "1"], "unknown option"))
    if t in ("sol_train", "sol_test", "lsol_c"):
        bad.append((["-f", "xyz"] + g, "unknown format")); bad.append((["-b", "many"] + g, "batch size is not a number"))
        bad.append((["-b", "0"] + g, "batch size 0")); bad.append((["--bufsize", "0"] + g, "buffer size 0")); bad.append((["-b", "-4"] + g, "negative batch size"))
        bad.append(([x.replace(src, c.path("missing.svm")) for x in g], "missing input"))
        if t != "sol_test":
            bad.append((["-a", "nosuchalgo"] + [x for x in g[2:]], "unknown algorithm"))
            bad.append((["-c", r.choice(["1", "0", "-2", "three"])] + g, "bad class count"))
            bad.append((["--params", r.choice(["eta", "eta=1=2", "nosuch=1", "loss=nosuch", "=", "eta=", "dim=-4", "norm=L9", "norm=x"])] + g, "bad parameter"))
            bad.append((["-d", r.choice(["-5", "x", ""])] + g, "bad dimension"))
            bad.append(([x if x != o else nodir for x in g], "output in a missing directory"))
            bad.append((["-m", c.path("missing.model")] + g, "missing model")); bad.append((["-m", src] + g, "not a model"))
            bad.append((["-p", "x"] + g, "bad pass count"))
        else:
            bad.append(([c.path("missing.model"), src], "missing model")); bad.append(([src, src], "not a model")); bad.append(([mod], "no test file"))
            bad.append(([mod, src, o, o], "too many files")); bad.append((["--filter", c.path("missing.filter"), mod, src], "missing feature list"))
        if t == "sol_train": bad.append((["-a", "ogd"], "no training file")); bad.append((g + ["x"], "too many files"))
        if t == "lsol_c":
            bad.append((["-t", "dance"] + g, "unknown task")); bad.append((["-t", "test", "-i", src], "no model to test")); bad.append((g[:2], "no input"))
            bad.append((["-t", "test", "-i", src, "-m", mod, "-o", nodir], "output in a missing directory")); bad.append((["-t", "test", "-i", src, "-m", mod, "--filter", nodir], "missing feature list"))
            bad.append((["-i", src, "-o", o], "neither algorithm nor model"))
    else:
        i = g.index("-i"); bad.append((g[:i] + g[i + 2:], "no input"))
        i = g.index("-s"); bad.append((g[:i] + g[i + 2:], "no input type")); bad.append((g[:i] + ["-s", "xyz"] + g[i + 2:], "unknown input type"))
        bad.append(([x.replace(src, c.path("missing")) for x in g], "missing input"))
        bad.append(([x if x != o else nodir for x in g], "output in a missing directory"))
        if t == "shuffle": bad.append((g + ["-d", "xyz"], "unknown output type"))
        elif "-d" in g: i = g.index("-d"); bad.append((g[:i] + ["-d", "xyz"] + g[i + 2:], "unknown output type"))
        if t == "concat": bad.append((["-i", src + ";" + c.path("missing"), "-s", "svm", "-o", o, "-d", "svm"], "one missing input")); 
        if t == "split": bad.append((["-i", src, "-s", "svm", "-n", r.choice(["0", "-1", "x"]), "-o", o, "-d", "svm"], "bad fold count"))
        if t == "converter": bad.append((g + ["-b", "x"], "bad threshold"))
    bad = [b for b in bad if b[0] != g]
    todo = r.sample(bad, min(len(bad), 6))
    if t in ("sol_train", "lsol_c"):   # parameter lists that are not of the form name=value;name=value with known names
        a, nm = r.choice([("ogd", "eta"), ("pa1", "C"), ("arow", "r"), ("rda", "sigma"), ("fofs", "lambda"), ("ada-rda", "delta"), ("perceptron", "norm"), ("sop", "a")])
        v = r.choice(["1", "2"])
        forms = ["{n}", "{n}={v}=1", "{n}={v}=dim=4", "{n}={v}={n}={v}", "{n}=", "={v}", "=", "{n} {v}", "{n}:{v}", "nosuch={v}", "{n}x={v}", "{n}={v};nosuch=1", "{n}={v};{n}", "{n}={v};dim", "{n}={v};dim=4=5", "{n}=abc", "{n}={v};{n}=abc", "{n}==", "{n}={v},dim=4" if nm == "norm" else "{n}={v};,"]
        for f in r.sample(forms, 5):
            w = f.format(n=nm, v=v); todo.append((["-a", a, "--params", w] + g[2:], "bad parameter list " + w)); c.count("bad_param_lists")
    for args, why in todo:
        rc, out, err = c.tool(t, args, abort_ok=t == "sol_test")
        if rc is None: continue
        if rc == 0: c.viol("cli.accepted.%s.%s" % (t, re.sub(" list .*", "", why).replace(" ", "_")), "%s exited 0 in spite of: %s" % (t, why))
        elif not err.strip(): c.viol("cli.silent.%s.%s" % (t, re.sub(" list .*", "", why).replace(" ", "_")), "%s exited %d without an error message for: %s" % (t, rc, why))
        c.count("invalid." + t)

# ------------------------------------------------------------------ C18
def c18_concat(c):
    r = c.r
    fmt = r.choice(["svm", "svm", "bin", "csv"]); dst = r.choice(["svm", "bin", "csv"])
    dim = r.randint(1, 15); big = r.random() < .02
    files = []
    for i in range(r.randint(1, 5)):
        if files and r.random() < .15: files.append(r.choice(files)); continue
        rows = dataset(r, 11000 if big and i == 0 else r.choice([0, 1, 2, 10, 60, 256, 257, 300]), r.choice([2, 5]), max(1, dim - r.randint(0, 3)), distinct=r.random() < .6)
        if fmt == "csv" and not any(fs for _, fs in rows): rows = rows + [(1, [(1, "2")])]
        p, f = make_file(c, "in%d" % i, rows, fmt)
        if f != fmt: return
        files.append(p)
    out = c.path("out")
    rc, so, err = c.tool("concat", opt(r, "input", "i", ";".join(files)) + opt(r, "input_type", "s", fmt) + opt(r, "output", "o", out) + (opt(r, "output_type", "d", dst) if dst else []))
    if rc is None: return
    dumps = c.lib([("dump", f, fmt) for f in files] + ([("dump", out, dst or fmt)] if rc == 0 else []))
    want = [x for d in dumps[:len(files)] for x in canon(d[:-1], (dst or fmt) == "csv")]
    if rc != 0:
        if (dst or fmt) == "csv" and not any(fs for _, fs in want): c.count("refused_featureless"); return
        c.viol("concat.status", "concat exited %d: %s" % (rc, err[-300:])); return
    got = canon(dumps[-1][:-1], (dst or fmt) == "csv")
    if got != want:
        k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        c.viol("concat.content", "%d examples in, %d out, first difference at %d: %s vs %s" % (len(want), len(got), k, got[k:k + 1], want[k:k + 1]))
    c.count("concatenations"); c.count("examples_concatenated", len(want))
    if len(files) > 1: c.count("multi_file")

# ------------------------------------------------------------------ C20
def c20_cli(c):
    r = c.r
    dim = r.randint(2, 30); n = r.choice([1, 10, 80, 400])
    rows = dataset(r, n, 2, dim, empties=0)
    fmt = r.choice(["svm", "bin"]); src, fmt = make_file(c, "src", rows, fmt)
    mod = c.path("m.model")
    c.lib([("create", r.choice(ALGOS), 2), ("iter", 64, 2), ("load", src, fmt, 1), ("train",), ("save", mod)])
    dst = r.choice(["svm", "bin", "csv"])
    ops = {"concat": lambda o, i: ["-i", i + ";" + src, "-s", fmt, "-o", o, "-d", dst],
           "converter": lambda o, i: ["-i", i, "-s", fmt, "-o", o, "-d", dst],
           "shuffle": lambda o, i: ["-i", i, "-s", fmt, "-o", o, "-d", dst],
           "split": lambda o, i: ["-i", i, "-s", fmt, "-n", "1", "-o", o, "-d", dst],
           "analyze": lambda o, i: ["-i", i, "-s", fmt, "-o", o],
           "sol_train": lambda o, i: ["-f", fmt, "-a", algo, i, o],
           "lsol_c": lambda o, i: ["-f", fmt, "-a", algo, "-i", i, "-o", o],
           "lsol_c.test": lambda o, i: ["-t", "test", "-f", fmt, "-m", mod, "-i", i, "-o", o],
           "sol_test": lambda o, i: ["-f", fmt, mod, i, o]}
    algo = r.choice(ALGOS)
    op = r.choice(sorted(ops)); t = op.split(".")[0]; suf = "0." + dst if op == "split" else ""
    ref = c.path("ref")
    rc, out, err = c.tool(t, ops[op](ref, src))
    if rc is None: return
    if rc != 0: c.viol("cli.valid." + op, "exited %d without any fault: %s" % (rc, err[-300:])); return
    want = read(ref + suf)
    if want is None: c.viol("cli.nothing." + op, "exited 0 without writing its output"); return
    c.count("complete.cli." + op)
    S = len(want)
    def judge(kind, o, limit=None, must_fail=False):
        rc, out, err = c.tool(t, ops[op](o, src), limit=limit)
        if rc is None: return
        got = None if o.startswith("/dev/") else read(o + suf)
        whole = got is not None and (got == want if op != "shuffle" else len(got) == S)
        if rc == 0 and not whole: c.viol("cli.lost.%s.%s" % (op, kind), "%s exited 0 but its output is incomplete (%s of %d bytes)" % (op, None if got is None else len(got), S))
        if rc != 0 and not err.strip(): c.viol("cli.silent.%s.%s" % (op, kind), "%s failed without a message" % op)
        if rc != 0 and limit is not None and limit >= S: c.viol("cli.spurious." + op, "%s failed although the output fits the limit" % op)
        c.count("cli." + kind)
    lims = [0, S - 1, r.randrange(S), r.randrange(S), S] if S else []
    for i, l in enumerate(r.sample(lims, min(3, len(lims)))):
        judge("size_limit" if l < S else "sufficient_limit", c.path("lim%d" % i), l)
    if S and op != "split": judge("full_device", "/dev/full")
    judge("bad_dir", c.path("no/such/dir/x"))
    # inputs
    for kind, p in (("missing", c.path("missing")), ("not_a_dir", src + "/x"), ("directory", c.d)):
        rc, out, err = c.tool(t, ops[op](c.path("o2"), p), abort_ok=t == "sol_test")
        if rc == 0: c.viol("cli.input.%s.%s" % (op, kind), "%s exited 0 although its input cannot be read" % op)
        elif rc is not None and not err.strip(): c.viol("cli.silent.%s.%s" % (op, kind), "%s failed without a message" % op)
        c.count("cli.bad_input")
    if t in ("concat", "converter", "shuffle", "split", "analyze"):   # input that can only be read in part
        p = c.path("part"); d = read(src)
        if fmt == "svm":
            L = d.split(b"\n"); L.insert(r.randrange(len(L)), r.choice([b"1 x:2", b"abc 1:1", b"1 1:y"])); d = b"\n".join(L)
        else: d = d[:-1]
        with open(p, "wb") as f: f.write(d)
        rc, out, err = c.tool(t, ops[op](c.path("o3"), p))
        if rc == 0: c.viol("cli.input.%s.partly" % op, "%s exited 0 although its input is malformed in the middle" % op)
        elif rc is not None and not err.strip(): c.viol("cli.silent.%s.partly" % op, "%s failed without a message" % op)
        c.count("cli.partly_malformed")

SUBS = {"C24": [("c24_learn", c24_learn, 240), ("c24_data", c24_data, 160), ("c24_usage", c24_usage, 160)],
        "C18": [("c18_concat", c18_concat, 250)], "C20": [("c20_cli", c20_cli, 240)]}

def build(prop):
    return B.build([("t", t, "asan") for t in TOOLS] + [("h", "capi", "asan")])

def run_one(prop, name, fn, seed, i, res, exes, thorough, keep=False):
    if res.stop: return
    c = Case(prop, name, seed, i, res, exes, thorough, keep)
    try:
        fn(c)
    except Abort:
        pass
    finally:
        with res.lock:
            res.counts["cases"] = res.counts.get("cases", 0) + 1
            res.hashes.add(name + ":" + c.hash.hexdigest())
            if i < 2: res.samples.append(dict(sub=name, case=i, what=" | ".join(l for l in c.log if l.startswith("$"))[:600].replace(c.d, "D")))
        c.close()

def runner(prop):
    def run(res, seed, thorough):
        exes = build(prop)
        with ThreadPoolExecutor(8) as ex:
            fs = [ex.submit(run_one, prop, name, fn, seed, i, res, exes, thorough) for name, fn, n in SUBS[prop] for i in range(n * (12 if thorough else 1))]
            for f in fs: f.result()
    return run

if __name__ == "__main__":
    from lib.runner import Result
    res = Result(); prop, name, i = sys.argv[1], sys.argv[2], int(sys.argv[3])
    fn = dict((n, f) for n, f, _ in SUBS[prop])[name]
    run_one(prop, name, fn, int(os.environ.get("VERIF_SEED", "1")), i, res, build(prop), False, keep=True)
    for v in res.viol: print(v[0], v[1])
    print(res.counts)
