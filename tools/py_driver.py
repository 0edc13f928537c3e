"""Enumerates sessions of the Python module and compares every observation with the core library.

py_driver.py MODULE_DIR VH TIER WORKER WORKERS RESULT_FILE STATE_FILE   explore a share of the sessions
py_driver.py MODULE_DIR VH replay SESSION_FILE                         run one session, show differences
"""
import array, ctypes, itertools, json, math, os, shutil, subprocess, sys, tempfile

MODULE_DIR, VH = sys.argv[1], sys.argv[2]
sys.path.insert(0, MODULE_DIR)
ctypes.CDLL(os.path.join(MODULE_DIR, "stub.so"), mode=ctypes.RTLD_GLOBAL)

# ------------------------------------------------------------------------------------------------
# sessions

VOCAB = ["a", "b", "ab", "\u00e9", "q\"", "z"]
VECTORS = [[1.0, 0.0, 2.0], [0.0, 3.0, -1.0], [-2.0, 0.5, 0.0], [0.25, 0.25, 0.25], [0.0, -4.0, 1.0], [0.0, 0.0, 0.0]]
CONFIGS = [
    dict(layer_multiplier=2.0, num_neighbors=3, max_search=5, reinsert_elements=True, show_progress=False),
    dict(layer_multiplier=3.0, num_neighbors=2, max_search=4, reinsert_elements=False, show_progress=False, expected_num_elements=9),
    dict(num_neighbors=4, show_progress=True),
]
QUERIES = {
    "angular": [[1.0, 0.5, -0.25], [0.0, 0.0, 0.0], [-1.0, 2.0, 3.0]],
    "angular_int": [[1.0, 0.5, -0.25], [0.0, 0.0, 0.0], [-1.0, 2.0, 3.0]],
    "embeddings": [" a\t\nb", "", [-1.0, 2.0, 3.0], "nothing \u00e9"],
}
ITEMS = {
    "angular": [[1.0, 2.0, -3.0], [0.5, 0.5, 0.0], [0.0, 0.0, 0.0], [-1.0, 4.0, 1.0]],
    "angular_int": [[1.0, 2.0, -3.0], [0.5, 0.5, 0.0], [0.0, 0.0, 0.0], [-1.0, 4.0, 1.0]],
    "embeddings": ["a", "b  ab\u2003a\r\n", "", "\u00e9 nothing z"],
}
BAD_ITEM = {
    "angular": [5, "text", ["a", "b", "c"], "shape", None, "reenter"],
    "angular_int": [5, "text", ["a", "b", "c"], "shape", None, "reenter"],
    "embeddings": [5, ["a"], None, [1.0]],
}


def item(kind, i):
    if kind == "embeddings":
        return " ".join(VOCAB[(i * k + k) % len(VOCAB)] for k in range(1, 1 + i % (4 if i < 10 else 14)))
    return [float((i * 7) % 11 - 5), float((i * 3) % 7) - 2.5, float(i % 5) - 1.25]


def finish(kind):
    """Everything that can be observed at the end of a session."""
    ops = [["look"], ["save"], ["open"], ["ilook"], ["elements"]]
    for q in QUERIES[kind]:
        ops += [["search", q, None, None], ["search", q, 2, 2], ["search", q, 50, 3], ["search", q, 3, 11], ["search", q, 1, None], ["search", q, None, 300]]
    ops += [["search", QUERIES[kind][0], x, y] for x, y in ((10**9, 3), (2**40, 2**40), (2**64 - 1, 2**64 - 1))]
    ops += [["bad", "isearch", x] for x in ([5, None, ["a"]] if kind == "embeddings" else [5, None, "text", ["a"]])]
    ops += [["one", 1000], ["bad", "get_element", -1],
            ["bad", "get_neighbors", 1000, 0], ["bad", "get_neighbors", 0, 1000], ["bad", "layer_len", 1000],
            ["bad", "isave_nowhere"]]
    ops += [["reorder"], ["ilook"], ["elements"], ["search", QUERIES[kind][0], None, None], ["isave"],
            ["ireopen"], ["ilook"], ["elements"], ["search", QUERIES[kind][2], 50, 20], ["reorder"], ["ilook"], ["isave"],
            ["isaveover"], ["ilook"], ["elements"], ["isaveover"]]
    return ops


def session(kind, cfg, ops):
    s = {"type": kind, "cfg": cfg, "ops": ops}
    if kind == "embeddings":
        s["words"], s["vectors"] = VOCAB, VECTORS
    return s


def sessions(tier):
    quick = tier != "thorough"
    for kind in ("angular", "angular_int", "embeddings"):
        # all sequences of operations, from an empty builder and from one with five elements
        it = ITEMS[kind]
        alphabet = [["append", it[0]], ["append", it[1]], ["append", it[2]], ["build", None], ["build", 2], ["build", 6],
                    ["resume", True], ["resume", False], ["look"]]
        if not quick:
            alphabet += [["append", it[3]], ["save"]]
        for depth in range(0, 5 if quick else 6):
            for seq in itertools.product(alphabet, repeat=depth):
                for start in (0, 5):
                    for ci, cfg in enumerate(CONFIGS):
                        if depth >= 3 and (len(seq) + start + sum(alphabet.index(o) * (k + 1) for k, o in enumerate(seq))) % 3 != ci:
                            continue
                        if quick and depth == 4 and (start == 5) != (sum(alphabet.index(o) for o in seq) % 2 == 0):
                            continue
                        yield session(kind, cfg, [["append", item(kind, i)] for i in range(start)] + list(seq) + finish(kind))
        # wrong arguments between good ones
        for bad in BAD_ITEM[kind]:
            for cfg in CONFIGS:
                pre = [["append", it[0]], ["append", it[1]]]
                b = ["append", [1.0, 2.0]] if bad == "shape" else ["bad", "append", bad]
                yield session(kind, cfg, pre + [b, ["look"], ["build", None], b, ["append", it[3]], ["build", None]] + finish(kind))
                yield session(kind, cfg, [b] + pre + [["build", 1], b, ["save"]] + finish(kind))
        for what in ("build_text", "build_negative", "save_nowhere", "neighbors_far", "layer_far", "neighbors_negative"):
            for cfg in CONFIGS:
                for n in (0, 3):
                    yield session(kind, cfg, [["append", item(kind, i)] for i in range(n)] + [["build", None], ["bad", what], ["look"], ["build", 99], ["look"]] + finish(kind))
        for cfg in CONFIGS:
            for n in (0, 1, 5):
                ops = [["append", item(kind, i)] for i in range(n)]
                for seq in itertools.product(([["build", 0]], [["build", 1]], [["build", n]], [["append", it[1]]], [["resume", True], ["build", 0]]), repeat=3):
                    yield session(kind, cfg, ops + [o for x in seq for y in x for o in (y, ["look"])] + [["build", None]] + (finish(kind) if n == 5 else [["look"]]))
        if kind != "embeddings":
            for cfg in CONFIGS:
                for pre in (0, 1, 3):
                    ops = [["append", item(kind, i)] for i in range(pre)]
                    yield session(kind, cfg, ops + [["append", [1.0, "nan", 0.0]], ["look"], ["build", None], ["look"], ["save"]])
                    yield session(kind, cfg, ops + [["build", None], ["open"], ["search", [1.0, "nan", 0.0], 3, 3], ["ilook"], ["search", [1.0, 2.0, 0.0], 3, 3]] + finish(kind))
        # larger ones, with default arguments throughout
        for n in (1, 2, 15, 16, 40, 130, 300) if quick else (1, 2, 15, 16, 17, 40, 130, 226, 300, 400):
            for cfg in CONFIGS + [{}, dict(show_progress=False, num_neighbors=30)]:
                ops = [["append", item(kind, i)] for i in range(n)]
                yield session(kind, cfg, ops + [["build", None]] + finish(kind))
                yield session(kind, cfg, ops[: n // 2] + [["build", None]] + ops[n // 2:] + [["resume", True], ["look"], ["build", None]] + finish(kind))
        # other dimensions, and texts over many words
        for dim in (1, 2, 31, 32, 33, 100, 300, 1100):
            wide = [[float((i * 31 + d * 17 + i * d) % 23) - 11.0 for d in range(dim)] for i in range(400)]
            for n in (3, 70):
                for cfg in CONFIGS:
                    s = session(kind, cfg, None)
                    if kind == "embeddings":
                        s["words"], s["vectors"] = ["w%d" % i if i % 5 else str(i) for i in range(300)], wide[:300]
                        its = [" ".join(("w%d" if ((i * 7 + j * (i + 1)) % 301) % 5 else "%d") % ((i * 7 + j * (i + 1)) % 301) for j in range(i % 5 if i % 7 else 40 + i)) for i in range(n)]
                        qs = ["0 w299 w256", "", wide[5], "300 x", "15"]
                    else:
                        its, qs = wide[:n], [wide[n + 3], [0.0] * dim, wide[1]]
                    end = [o for o in finish(kind) if o[0] != "search"]
                    s["ops"] = [["append", t] for t in its] + [["build", None]] + end[:5] + [["search", q, 20, 15] for q in qs] + end[5:] + [["search", q, 20, 15] for q in qs]
                    yield s
        # saving onto the files that the builder or the index were loaded from
        over = [["saveover"], ["isaveover"], ["append", it[0]], ["build", None], ["reorder"], ["resume", True], ["open"]]
        for n in (0, 1, 5, 60, 700):
            for first in (["open"], ["resume", True], ["resume", False]):
                for depth in range(1, (4 if n == 5 else 3) + (not quick)):
                    for seq in itertools.product(over, repeat=depth):
                        if not any(o[0] in ("saveover", "isaveover") for o in seq):
                            continue
                        ops = [["append", item(kind, i)] for i in range(n)] + [["build", None], first]
                        end = [["look"], ["ilook"], ["elements"], ["saveover"], ["look"], ["ilook"], ["elements"], ["isaveover"], ["look"], ["ilook"],
                               ["elements"], ["search", QUERIES[kind][0], 50, 3]]
                        yield session(kind, CONFIGS[n % 2], ops + list(seq) + (end if n < 700 else end[:2] + end[3:4]))
    # embeddings by name
    a = [["append", [1.0, 2.0], "a"], ["append", [0.0, -1.5], "b"], ["append", [3.0, 0.0], "a"], ["append", [1.0], "c"],
         ["append", "text", "d"], ["bad", "append_word"], ["reload"], ["saveover"], ["append", [0.5, 0.5], "\u00e9 x"], ["append", [2.5, 1.0], " p\""]]
    probes = [["len"]]
    inputs = [0, 1, 2, 99, [], [0], [1, 0], [0, 0, 1], "p\"", "a", "b a", "c", "", "a zzz b", "\u00e9 x"]
    probes += [["get", x] for x in inputs]
    probes += [["dist", x, y] for x in ("a", 1, [0, 1], 99, "") for y in ("b", 0, "zzz")]
    probes += [["dists", "a", []], ["dists", 0, ["a", "b", 1, [0, 1]]], ["dists", "b", [0, 99]], ["save"], ["bad", "get", None], ["bad", "get", -1],
               ["bad", "save_nowhere"], ["len"]]
    for depth in range(0, 5 if quick else 6):
        for seq in itertools.product(a, repeat=depth):
            yield {"type": "words", "ops": list(seq) + probes}
    odd = ["", " ", "\n", "\\", "\u2028", "\U0001f600", "x" * 70000, "null", "5", " y", "Y", "a:b", "\0"]
    for x in odd:
        for y in odd:
            seq = [["append", [1.0, 2.0], x], ["append", [0.0, -1.5], y], ["append", [4.0, 3.5], "a"], ["reload"]]
            yield {"type": "words", "ops": seq + [["get", w] for w in (x, y, x.strip(), y.strip(), "a " + x + " " + y + " a", 2)] + [["save"], ["append", [3.0, 3.0], x], ["len"]]}
        yield {"type": "words", "ops": [["append", [1.0, 2.0], "a"], ["append", [0.0, -0.0], "b"]] + [["dist", w, w] for w in ("a", "b", "", x, 0, 1, [0, 1], 7)]}
    # words of which there are several, or more or fewer than embeddings
    three = [["append", [1.0, 2.0], "u"], ["append", [0.0, -1.5], "v"], ["append", [4.0, 3.5], "w"]]
    for n in range(0, 6):
        for ws in itertools.product(("a", "b", "\u00e9 "), repeat=n):
            yield {"type": "words", "ops": three + [["rewords", list(ws)]] + probes + [["reload"], ["append", [7.0, 1.0], "c"], ["len"], ["get", "a b c"], ["get", [3]], ["save"]]}
    # distances
    vs = [list(map(float, v)) for v in itertools.product((0, 1, -2), repeat=2)]
    yield {"type": "distance", "pairs": [[k, x, y] for k in ("angular", "angular_int") for x in vs for y in vs]}
    # corpus functions
    lines = ["a", "b ab a", "", "nothing", "x: z a", "\u00e9"]
    for n in range(0, 4 if quick else 5):
        for seq in itertools.product(range(len(lines)), repeat=n):
            for form in range(3):
                yield {"type": "corpus", "lines": [lines[i] for i in seq], "form": form}
    # constructors
    yield {"type": "constructors"}
    yield {"type": "progress"}
    # saves that run out of room
    yield {"type": "limits"}


# ------------------------------------------------------------------------------------------------
# the core library


class Reference:
    def __init__(self):
        self.p = subprocess.Popen([VH, "pyref"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)

    def ask(self, s):
        self.p.stdin.write(json.dumps(s) + "\n")
        self.p.stdin.flush()
        r = self.p.stdout.readline()
        if not r:
            raise SystemExit("the reference died on " + json.dumps(s))
        return json.loads(r)


# ------------------------------------------------------------------------------------------------
# the module


class Wrong(BaseException):
    """The module contradicts itself."""


def hexfile(p):
    with open(p, "rb") as f:
        return f.read().hex()


def form(v, k):
    """The same vector as another kind of sequence."""
    if isinstance(v, list) and "nan" in v:
        return [float(x) for x in v]
    if isinstance(v, list) and v and all(isinstance(x, float) for x in v):
        return [v, tuple(v), array.array("d", v), array.array("f", v)][k % 4]
    return v


def structure(x):
    n = x.num_layers()
    layers = [[x.get_neighbors(i, l) for i in range(x.layer_len(l))] for l in range(n)]
    if n:
        for i in range(x.layer_len(n - 1)):
            if x.get_neighbors(i) != layers[n - 1][i] or x.get_neighbors(i, layer=n - 1) != layers[n - 1][i]:
                raise Wrong("get_neighbors(%d) is not the one of the last layer" % i)
    return {"len": len(x), "num_layers": n, "layers": layers}


class Reenter:
    """A sequence that uses the builder while the builder reads it."""

    def __init__(self, b):
        self.b = b

    def __len__(self):
        return 3

    def __getitem__(self, i):
        self.b.append([1.0, 1.0, 1.0])
        if i >= 3:
            raise IndexError
        return 1.0


class Session:
    def __init__(self, s, g, d):
        self.s, self.g, self.d, self.n = s, g, d, 0
        self.kind = s["type"]
        self.extra = {}
        self.index = None
        if self.kind == "embeddings":
            self.ep, self.wp = self.path(), self.path()
            e = g.Embeddings()
            for v, w in zip(s["vectors"], s["words"]):
                if e.append(v, w) is not True:
                    raise Wrong("append of a new word gives false")
            e.save(self.ep, self.wp)
            self.extra = dict(embeddings_path=self.ep, words_path=self.wp)
        self.builder = g.GranneBuilder([self.kind, self.kind.upper(), self.kind.title()][len(s["ops"]) % 3], **self.extra, **s["cfg"])

    def path(self):
        self.n += 1
        return os.path.join(self.d, "f%d" % self.n)

    def bad_value(self, v):
        if v == "reenter":
            return Reenter(self.builder)
        return v

    def op(self, k, op):
        b, x, name = self.builder, self.index, op[0]
        if name == "append":
            b.append(form(op[1], k))
        elif name in ("saveover", "isaveover"):
            # onto files that are in use, in part by what is saved
            y = b if name == "saveover" else x
            if y is None:
                raise Exception("no index")
            if self.files is None:
                self.files = (self.path(), self.path())
            y.save_index(self.files[0])
            y.save_elements(self.files[1])
            return [hexfile(self.files[0]), hexfile(self.files[1])]
        elif name == "build":
            if op[1] is None:
                b.build()
            elif k % 2:
                b.build(op[1])
            else:
                b.build(num_elements=op[1])
        elif name == "look":
            return [structure(b), b.num_elements()]
        elif name == "save":
            ip, ep = self.path(), self.path()
            b.save_index(ip)
            b.save_elements(ep)
            return [hexfile(ip), hexfile(ep)]
        elif name in ("resume", "open"):
            ip, ep = self.files = (self.path(), self.path())
            b.save_index(ip)
            b.save_elements(ep)
            if name == "open":
                if self.extra and k % 2:
                    self.index = self.g.Granne(ip, self.kind, ep, self.ep, self.wp)
                else:
                    self.index = self.g.Granne(index_path=ip, element_type=[self.kind, self.kind.upper()][k % 2], elements_path=ep, **self.extra)
            elif op[1]:
                self.builder = self.g.GranneBuilder(self.kind, elements_path=ep, index_path=ip, **self.extra, **self.s["cfg"])
            else:
                self.builder = self.g.GranneBuilder(self.kind, ep, **self.extra, **self.s["cfg"])
        elif name == "ilook":
            return structure(x)
        elif name == "elements":
            if x is None:
                raise Exception("no index")
            r, n = [], b.num_elements() if self.index_total is None else self.index_total
            for i in range(n):
                r.append([x.get_element(i), x.get_internal_element(i)])
            return r
        elif name == "search":
            q = form(op[1], k)
            if op[2] is None:
                r = x.search(q) if op[3] is None else x.search(q, num_elements=op[3])
            elif op[3] is None:
                r = x.search(q, max_search=op[2])
            elif k % 2:
                r = x.search(q, op[2], op[3])
            else:
                r = x.search(q, num_elements=op[3], max_search=op[2])
            return [list(t) for t in r]
        elif name == "one":
            return [x.get_element(op[1]), x.get_internal_element(op[1])]
        elif name == "reorder":
            return x.reorder() if k % 2 else x.reorder(show_progress=False)
        elif name in ("isave", "ireopen"):
            ip, ep = self.path(), self.path()
            x.save_index(ip)
            x.save_elements(ep)
            if name == "isave":
                return [hexfile(ip), hexfile(ep)]
            self.files = (ip, ep)
            self.index = self.g.Granne(ip, self.kind, ep, **self.extra)
        elif name == "bad":
            what = op[1]
            if what == "append":
                b.append(self.bad_value(op[2]))
            elif what == "isearch":
                x.search(self.bad_value(op[2]))
            elif what in ("get_element", "get_internal_element", "get_neighbors", "layer_len"):
                getattr(x, what)(*op[2:])
            elif what == "isave_nowhere":
                x.save_index(os.path.join(self.d, "no", "where"))
            elif what == "build_text":
                b.build("all")
            elif what == "build_negative":
                b.build(-1)
            elif what == "save_nowhere":
                b.save_elements(os.path.join(self.d, "no", "where"))
            elif what == "neighbors_far":
                b.get_neighbors(10 ** 6)
            elif what == "neighbors_negative":
                b.get_neighbors(-1)
            elif what == "layer_far":
                b.layer_len(10 ** 6)
            else:
                raise Wrong("HARNESS: " + what)
        else:
            raise Wrong("HARNESS: " + name)

    index_total = None
    files = None


def run_words(s, g, d):
    out, n = [], 0
    e = g.Embeddings()
    files = None
    for k, op in enumerate(s["ops"]):
        try:
            name = op[0]
            r = None
            if name == "append":
                r = e.append(form(op[1], k), op[2])
            elif name == "len":
                r = len(e)
            elif name == "get":
                r = e.get_embedding(op[1])
            elif name == "dist":
                r = e.dist(op[1], op[1] if op[1] == op[2] else op[2])
            elif name == "dists":
                r = e.dists(op[1], op[2])
            elif name in ("save", "reload", "saveover"):
                n += 2
                ep, wp = os.path.join(d, "e%d" % n), os.path.join(d, "w%d" % n)
                if name == "saveover":
                    ep, wp = files or (ep, wp)
                if k % 2:
                    e.save(ep, wp)
                else:
                    e.save_embeddings(ep)
                    e.save_words(wp)
                if name == "reload":
                    e = g.Embeddings(ep, wp)
                    files = (ep, wp)
                else:
                    r = [hexfile(ep), hexfile(wp)]
            elif name == "rewords":
                n += 1
                ep, wp = files = os.path.join(d, "e%d" % n), os.path.join(d, "w%d" % n)
                e.save_embeddings(ep)
                with open(wp, "w") as f:
                    f.writelines(json.dumps(w) + "\n" for w in op[1])
                e = g.Embeddings(ep, wp)
            elif op[1] == "get":
                e.get_embedding(op[2])
            elif op[1] == "append_word":
                e.append([1.0, 1.0], 5)
            elif op[1] == "save_nowhere":
                e.save(os.path.join(d, "no", "where"), os.path.join(d, "no", "w"))
            else:
                raise Wrong("HARNESS: " + name)
            out.append({"ok": r})
        except Exception:
            out.append("error")
    return out


def run_corpus(s, g, d, ref):
    """Compares with a builder to which the lines are appended one by one."""
    wp, ep, cp, out, vout = (os.path.join(d, x) for x in ("words", "embeddings", "corpus", "out", "vectors"))
    e = g.Embeddings()
    for v, w in zip(VECTORS, VOCAB):
        e.append(v, w)
    e.save(ep, wp)
    with open(cp, "w") as f:
        for l in s["lines"]:
            f.write(json.dumps(l) + "\n")
    if s["form"] == 0:
        g.parse_elements_and_save_to_disk(cp, wp, out)
        g.compute_embeddings_and_save_to_disk(out, ep, vout)
    elif s["form"] == 1:
        g.parse_elements_and_save_to_disk(elements_path=cp, words_path=wp, output_path=out, show_progress=False)
        g.compute_embeddings_and_save_to_disk(elements_path=out, embeddings_path=ep, output_path=vout, show_progress=False)
    else:
        g.parse_elements_and_save_to_disk(cp, wp, out, False)
        g.compute_embeddings_and_save_to_disk(out, ep, output_path=vout, show_progress=False)
    texts = [l.split(":")[-1] for l in s["lines"]]
    want = ref.ask(session("embeddings", {}, [["append", t] for t in texts] + [["save"]]))[-1]["ok"][1]
    if hexfile(out) != want:
        return "the parsed elements differ from the lines"
    sums = []
    for t in texts:
        v = [0.0, 0.0, 0.0]
        for w in t.split():
            if w in VOCAB:
                v = [x + y for x, y in zip(v, VECTORS[VOCAB.index(w)])]
        sums.append(v)
    want = ref.ask(session("angular_int", {}, [["append", v] for v in sums] + [["save"]]))[-1]["ok"][1]
    if hexfile(vout) != want:
        return "the computed vectors differ from the sums of the words' embeddings"
    # onto the files they come from, one of them in use
    b = g.GranneBuilder("embeddings", out, ep, wp, show_progress=False)
    before = hexfile(out)
    over = (out, ep)[len(s["lines"]) % 2]
    g.compute_embeddings_and_save_to_disk(out, ep, over, show_progress=False)
    if hexfile(over) != want:
        return "the vectors computed onto the file of the %s differ" % ("elements", "embeddings")[over == ep]
    b.build()
    b.save_elements(vout)
    if hexfile(vout) != before:
        return "computing onto a file changed the builder that uses it"
    return None


def printed(d, call):
    """How much a call writes to the standard output."""
    sys.stdout.flush()
    out = os.path.join(d, "stdout")
    keep = os.dup(1)
    with open(out, "wb") as f:
        os.dup2(f.fileno(), 1)
    try:
        call()
    finally:
        os.dup2(keep, 1)
        os.close(keep)
    return os.path.getsize(out)


def run_progress(g, d):
    """Progress is shown by default, and nothing is printed when it is switched off."""
    wp, ep, cp, out = (os.path.join(d, x) for x in ("words", "embeddings", "corpus", "out"))
    e = g.Embeddings()
    for v, w in zip(VECTORS, VOCAB):
        e.append(v, w)
    e.save(ep, wp)
    with open(cp, "w") as f:
        for w in VOCAB:
            f.write(json.dumps(w) + "\n")

    for kind in ("angular", "angular_int", "embeddings"):
        args = [kind] if kind != "embeddings" else [kind, None, ep, wp]
        for arg, shown in ((None, True), (True, True), (False, False)):
            kw = {} if arg is None else {"show_progress": arg}
            for reinsert in (True, False):
                b = g.GranneBuilder(*args, reinsert_elements=reinsert, layer_multiplier=3.0, **kw)
                for i in range(12):
                    b.append(item(kind, i))
                if (printed(d, b.build) > 0) != shown:
                    return "%s: build with show_progress %s, reinsert_elements %s" % (kind, arg, reinsert)
                b.save_index(out + "i")
                b.save_elements(out + "e")
                ix = g.Granne(out + "i", kind, out + "e", *args[2:])
                if (printed(d, lambda: ix.reorder(**kw)) > 0) != shown:
                    return "%s: reorder with show_progress %s" % (kind, arg)
    for arg, shown in ((None, True), (True, True), (False, False)):
        kw = {} if arg is None else {"show_progress": arg}
        if (printed(d, lambda: g.parse_elements_and_save_to_disk(cp, wp, out, **kw)) > 0) != shown:
            return "parsing with show_progress %s" % arg
        if (printed(d, lambda: g.compute_embeddings_and_save_to_disk(out, ep, out + "v", **kw)) > 0) != shown:
            return "computing vectors with show_progress %s" % arg
    return None


def run_limits(g, d):
    """A save that runs out of room raises an exception, wherever that happens, and the object can be saved afterwards."""
    import resource
    wp, ep, cp, el, ip = (os.path.join(d, x) for x in ("words", "embeddings", "corpus", "elements", "index"))
    e = g.Embeddings()
    for v, w in zip(VECTORS, VOCAB):
        e.append(v, w)
    e.save(ep, wp)
    with open(cp, "w") as f:
        for w in VOCAB:
            f.write(json.dumps(w) + "\n")
    out, out2 = os.path.join(d, "out"), os.path.join(d, "out2")
    calls = {
        "Embeddings.save": (lambda: e.save(out, out2), (out, out2)),
        "parse_elements_and_save_to_disk": (lambda: g.parse_elements_and_save_to_disk(cp, wp, out, show_progress=False), (out,)),
    }
    keep = []
    for kind in ("angular", "angular_int", "embeddings"):
        args = [kind] if kind != "embeddings" else [kind, None, ep, wp]
        b = g.GranneBuilder(*args, layer_multiplier=3.0, show_progress=False)
        for i in range(12):
            b.append(item(kind, i))
        b.build()
        b.save_index(ip + kind)
        b.save_elements(el + kind)
        ix = g.Granne(ip + kind, kind, el + kind, *args[2:])
        for name, o in (("builder", b), ("index", ix)):
            calls["%s.save_index of %s" % (name, kind)] = (lambda o=o: o.save_index(out), (out,))
            calls["%s.save_elements of %s" % (name, kind)] = (lambda o=o: o.save_elements(out), (out,))
        keep += [b, ix]
    calls["compute_embeddings_and_save_to_disk"] = (lambda: g.compute_embeddings_and_save_to_disk(el + "embeddings", ep, out, show_progress=False), (out,))
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    for name, (call, files) in calls.items():
        call()
        want = [hexfile(f) for f in files]
        for limit in range(max(len(w) // 2 for w in want)):
            for f in files:
                if os.path.exists(f):
                    os.remove(f)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
            failed = False
            try:
                call()
            except BaseException:
                failed = True
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
            if not failed:
                return "%s raises nothing when files are limited to %d bytes" % (name, limit)
        call()
        if [hexfile(f) for f in files] != want:
            return "%s stores something else after failures" % name
    return None


def run_constructors(g, d):
    """Wrong arguments of constructors and functions raise exceptions."""
    f = os.path.join(d, "garbage")
    with open(f, "wb") as h:
        h.write(b"not an index" * 200)
    b = g.GranneBuilder("angular", show_progress=False)
    b.append([1.0, 2.0])
    b.build()
    ip, ep = os.path.join(d, "i"), os.path.join(d, "e")
    b.save_index(ip)
    b.save_elements(ep)
    no = os.path.join(d, "missing")
    calls = {
        "builder of unknown type": lambda: g.GranneBuilder("cosine"),
        "builder without type": lambda: g.GranneBuilder(),
        "builder with missing elements": lambda: g.GranneBuilder("angular", no),
        "builder with missing index": lambda: g.GranneBuilder("angular", ep, index_path=no),
        "builder with index but no elements": lambda: g.GranneBuilder("angular", index_path=ip),
        "builder with garbage index": lambda: g.GranneBuilder("angular", ep, index_path=f),
        "embeddings builder without embeddings": lambda: g.GranneBuilder("embeddings"),
        "embeddings builder without words": lambda: g.GranneBuilder("embeddings", embeddings_path=ep),
        "embeddings builder with missing words": lambda: g.GranneBuilder("embeddings", embeddings_path=ep, words_path=no),
        "builder with negative size": lambda: g.GranneBuilder("angular", num_neighbors=-1),
        "builder with text size": lambda: g.GranneBuilder("angular", num_neighbors="many"),
        "index of unknown type": lambda: g.Granne(ip, "cosine", ep),
        "index missing": lambda: g.Granne(no, "angular", ep),
        "elements missing": lambda: g.Granne(ip, "angular", no),
        "garbage index": lambda: g.Granne(f, "angular", ep),
        "index without arguments": lambda: g.Granne(),
        "index of embeddings without words": lambda: g.Granne(ip, "embeddings", ep, ep),
        "index of embeddings without embeddings": lambda: g.Granne(ip, "embeddings", ep),
        "embeddings without words": lambda: g.Embeddings(ep),
        "embeddings missing": lambda: g.Embeddings(no, no),
        "words without embeddings": lambda: g.Embeddings(words_path=f),
        "embeddings with garbage words": lambda: g.Embeddings(ep, f),
        "distance of unknown type": lambda: g.compute_distance("cosine", [1.0], [1.0]),
        "distance of numbers": lambda: g.compute_distance("angular", 1.0, [1.0]),
        "distance of not a number": lambda: g.compute_distance("angular", [float("nan")], [1.0]),
        "parsing a missing file": lambda: g.parse_elements_and_save_to_disk(no, no, os.path.join(d, "o")),
        "computing from missing files": lambda: g.compute_embeddings_and_save_to_disk(no, no, os.path.join(d, "o")),
    }
    for name, call in calls.items():
        try:
            call()
        except Exception:
            continue
        return name + ": no exception"
    if len(g.Granne(ip, "angular", ep)) != 1:
        return "the module does not work after exceptions"
    return None


def run(s, g, d, ref):
    """None, or what differs."""
    t = s["type"]
    if t == "corpus":
        return run_corpus(s, g, d, ref)
    if t == "constructors":
        return run_constructors(g, d)
    if t == "limits":
        return run_limits(g, d)
    if t == "progress":
        return run_progress(g, d)
    want = ref.ask(s)
    if t == "words":
        got = run_words(s, g, d)
        ops = s["ops"]
    elif t == "distance":
        got = []
        ops = s["pairs"]
        for k, x, y in ops:
            try:
                got.append({"ok": g.compute_distance(k, x, y)})
            except Exception:
                got.append("error")
    else:
        ops = s["ops"]
        c = Session(s, g, d)
        got = []
        for k, op in enumerate(ops):
            try:
                got.append({"ok": c.op(k, op)})
                if op[0] == "open":
                    c.index_total = c.builder.num_elements()
            except Exception as e:
                got.append("error")
                c.last = repr(e)
    got = json.loads(json.dumps(got))
    for k, (x, y) in enumerate(zip(got, want)):
        if x != y:
            return "operation %d %s: the module gives %s, the core library %s" % (k, json.dumps(ops[k])[:200], json.dumps(x)[:300], json.dumps(y)[:300])
    if len(got) != len(want):
        return "HARNESS: %d observations, %d expected" % (len(got), len(want))
    return None


def one(s, g, ref, base):
    d = tempfile.mkdtemp(dir=base)
    try:
        return run(s, g, d, ref)
    except (Exception, Wrong) as e:
        return "%s: %s" % (type(e).__name__, e)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def nontrivial(s):
    return s["type"] in ("corpus", "words", "distance") and len(s.get("ops", s.get("lines", [1, 1]))) > 1 or sum(o[0] == "append" for o in s.get("ops", [])) > 1


def main():
    base = tempfile.mkdtemp(prefix="vh-scratch-py-")
    try:
        if sys.argv[3] == "replay":
            import granne
            s = json.load(open(sys.argv[4]))["session"]
            r = one(s, granne, Reference(), base)
            print(r if r else "no difference")
            return 1 if r else 0
        tier, me, of = sys.argv[3], int(sys.argv[4]), int(sys.argv[5])
        result, state = sys.argv[6], open(sys.argv[7], "w")
        # what the module prints goes nowhere
        null = os.open("/dev/null", os.O_WRONLY)
        os.dup2(null, 1)
        os.dup2(null, 2)
        import granne
        ref = Reference()
        total = nt = ops = 0
        bad, samples = [], []
        for k, s in enumerate(sessions(tier)):
            if k % of != me:
                continue
            state.seek(0)
            state.write(json.dumps({"n": total, "session": s}) + "\n")
            state.truncate()
            state.flush()
            r = one(s, granne, ref, base)
            total += 1
            ops += len(s.get("ops", s.get("pairs", s.get("lines", []))))
            nt += bool(nontrivial(s))
            if len(samples) < 2 or total % 1000 == 999 and len(samples) < 4:
                samples.append(json.dumps(s)[:400])
            if r:
                bad.append({"session": s, "message": r})
                if len(bad) >= 3:
                    break
        json.dump({"sessions": total, "nontrivial": nt, "operations": ops, "bad": bad, "samples": samples}, open(result, "w"))
        return 0
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
