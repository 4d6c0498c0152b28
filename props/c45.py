"""C45 the element store serves what its files hold"""
import os
import time as real_time
from datetime import timedelta as real_timedelta
from pathlib import Path

BOUNDS = ("collections of 1..3 elements of two types with arbitrary ids and parameters, spread over 1..2 files of a directory or in one file; cache files "
          "-10..400 days old on a grid of 10 s, every combination of explicit path or shipped set, board or not, reset asked or not")
OUTSIDE = "text to YAML (C28), elements without id, several elements of one type with the same id or name, damaged files, a shipped set that changes within a day"
STUBS = ["yaml -> hands over the elements of the file (replays: real files)", "os.stat -> symbolic age of the cache file (replays: os.utime), presence of the board's firmware"]
MODULES = ("shepherd_core.testbed_client.fixtures", "shepherd_core.testbed_client.client_abc_fix")
TIME = True
BOARD = "/lib/firmware/am335x-pru0-fw"


def cases(tier):
    out = [(f"cache/{p}", "cache", {"path": p}) for p in ("shipped", "file", "dir")]
    out += [(f"files/{k}/{n}", "files", {"kind": k, "n": n}) for k in ("file", "dir") for n in ((1, 2) if tier == "quick" else (1, 2, 3))]
    out += [(f"insert/{n}", "insert", {"n": n}) for n in ((1, 2) if tier == "quick" else (1, 2, 3))]
    out += [("unknown", "unknown", {}), ("query", "query", {}), ("replace", "replace", {}), ("iterate", "iterate", {})]
    return out


class Yaml:
    """elements that a file of this content holds"""

    def __init__(self):
        self.content = {}

    def safe_load(self, stream, *_a, **_k):
        text = stream.read() if hasattr(stream, "read") else stream
        return self.content[text]

    load = safe_load
    SafeLoader = FullLoader = CSafeLoader = Loader = None


class place:
    """directories of the store and what the operating system tells about them"""

    def __init__(self, sx, age=None):
        self.sx, self.age, self.board, self.n = sx, age, False, 0

    def __enter__(self):
        import shepherd_core.testbed_client.fixtures as m
        self.m = m
        self.root = Path(self.sx.tmpdir())
        self.cache = self.root / "cache"
        self.shipped = self.root / "lib" / "data_models"
        self.own = self.root / "own"
        (self.own / "sub").mkdir(parents=True)
        self.shipped.mkdir(parents=True)
        self.keep = {k: m.__dict__[k] for k in ("cache_user_path", "__file__", "yaml")}
        m.cache_user_path = self.cache
        m.__file__ = str(self.root / "lib" / "testbed_client" / "fixtures.py")
        (self.root / "lib" / "testbed_client").mkdir()
        self.yaml = Yaml()
        if self.sx.sym:
            m.yaml = self.yaml
        self.stat = os.stat
        os.stat = self.fake_stat
        return self

    def fake_stat(self, path, *a, **k):
        p = os.fspath(path) if not isinstance(path, int) else path
        if p == BOARD:
            if not self.board:
                raise FileNotFoundError(2, "No such file or directory", BOARD)
            return self.stat("/dev/null")
        st = self.stat(path, *a, **k)
        if self.sx.sym and self.age is not None and isinstance(p, str) and p.startswith(str(self.cache)) and os.path.splitext(p)[1]:
            t = (self.sx.now() - td(self.sx, self.age)).timestamp()

            class Stat:
                st_mode, st_size, st_ino, st_dev, st_nlink = st.st_mode, st.st_size, st.st_ino, st.st_dev, st.st_nlink
                st_mtime = t
                st_mtime_ns = t * 10**9
                st_ctime = st_atime = st_birthtime = 0
            return Stat
        return st

    def write(self, path, elements):
        if self.sx.sym:
            self.n += 1
            path.write_text(f"content {self.n}")
            self.yaml.content[f"content {self.n}"] = elements
        else:
            import yaml
            path.write_text(yaml.safe_dump(elements))

    def load(self, *a, **k):
        return self.m.Fixtures(*a, **k)

    def backdate(self):
        if not self.sx.sym and self.age is not None:
            t = real_time.time_ns() - self.age * 10**9
            for f in self.cache.glob("**/*"):
                os.utime(f, ns=(t, t))

    def __exit__(self, *a):
        os.stat = self.stat
        self.m.__dict__.update(self.keep)


def td(sx, seconds):
    if sx.sym:
        from symx.symtime import TDShim
        return TDShim(seconds=seconds)
    return real_timedelta(seconds=seconds)


def element(kind, name, _id, **kw):
    return {"datatype": kind, "parameters": {"name": name, "id": _id, **kw}}


def who(store):
    """what an element reveals about its origin"""
    ok, v = attempt(lambda: store["thing"]["elem"])
    return v["origin"] if ok else "none"


def attempt(fn):
    try:
        return True, fn()
    except ValueError as e:
        return False, e


def cache(sx, path):
    age = sx.int("age", -10 * 8640, 400 * 8640) * 10 + 5
    board = sx.flag("board")
    reset = sx.flag("reset")
    earlier = sx.choice("earlier", ["none", "shipped", "other"])
    with place(sx, age) as pl:
        # something has been loaded before
        old = "remains"
        other = pl.root / "other.yaml"
        pl.write(other, [element("Thing", "Elem", 1, origin="other")])
        pl.write(pl.shipped / "a.yaml", [element("Thing", "Elem", 1, origin=old)])
        if earlier != "none":
            for pl.board in (False, True):
                pl.load(*(() if earlier == "shipped" else (other,)), reset=True)
            pl.backdate()
        pl.board = board
        pl.write(pl.shipped / "a.yaml", [element("Thing", "Elem", 1, origin="shipped")])
        pl.write(pl.own / "a.yaml", [element("Thing", "Elem", 1, origin="own")])
        arg = {"shipped": (), "file": (pl.own / "a.yaml",), "dir": (pl.own,)}[path]
        store = pl.load(*arg, reset=reset) if reset else pl.load(*arg)
        got = who(store)
        want = "own" if path != "shipped" else "shipped"
        sx.observe("age", age)
        sx.check("never of another collection", got in (want, old))
        if path != "shipped" or board or reset or earlier != "shipped":
            sx.check("what the files hold", got == want)
        elif got == old:
            sx.check("cache of at most a day", age <= 86400)
        else:
            sx.check("what the files hold", got == want)
        # what is kept for later is the shipped set
        pl.age, pl.board = None, False
        for f in pl.cache.glob("**/*"):
            os.utime(f)
        sx.check("kept is the shipped set", who(pl.load()) in ("shipped", old))


def elements(sx, n):
    """elements of two types, ids arbitrary but their own"""
    out, ids = [], []
    for k in range(n):
        kind = sx.choice(f"kind{k}", ["Thing", "SENSORS"])
        i = sx.int(f"id{k}", 0, 1 << 40)
        for j in ids:
            sx.assume(i != j)
        ids.append(i)
        out.append(element(kind, f"Elem{'ABC'[k]}", i, p=sx.int(f"p{k}", -99, 99)))
    return out


def same(sx, label, got, want):
    sx.check(f"{label} fields", set(got) == set(want))
    for k in want:
        if k == "name":
            sx.check(f"{label} name", got[k] == want[k])
        else:
            sx.check_eq(f"{label} {k}", got[k], want[k])


def holds(sx, store, els):
    for t in ("thing", "sensors"):
        mine = [e["parameters"] for e in els if e["datatype"].lower() == t]
        if not mine:
            sx.check(f"no {t}", t not in list(store.keys()))
            continue
        for key in (t, t.upper(), t.capitalize()):
            fix = store[key]
            sx.check(f"{key} count", len(list(fix.keys())) == len(mine))
        for e in mine:
            for nm in (e["name"], e["name"].lower(), e["name"].upper()):
                same(sx, f"by name {nm}", fix.query_name(nm), e)
                same(sx, f"item {nm}", fix[nm], e)
            same(sx, f"by id {e['name']}", fix.query_id(e["id"]), e)
        refs = fix.refs()
        sx.check("references", sorted(refs.values()) == sorted(e["name"] for e in mine))
        for e in mine:
            sx.check("reference of an id", refs[e["id"]] == e["name"])


def files(sx, kind, n):
    els = elements(sx, n)
    with place(sx) as pl:
        pl.write(pl.shipped / "a.yaml", [element("Thing", "Shipped", 1)])
        stuff = ["text", *els[:1], 7, ["list"], *els[1:]]
        if kind == "file":
            pl.write(pl.own / "a.yaml", stuff)
            store = pl.load(pl.own / "a.yaml")
        else:
            cut = sx.choice("cut", list(range(len(stuff) + 1)))
            if cut:
                pl.write(pl.own / "a.yaml", stuff[:cut])
            if cut < len(stuff):
                pl.write(pl.own / "sub" / "b.yaml", stuff[cut:])
            (pl.own / "notes.txt").write_text("- not an element")
            store = pl.load(pl.own)
        holds(sx, store, els)


def insert(sx, n):
    """elements added one after another"""
    from shepherd_core.data_models.base.wrapper import Wrapper
    els = elements(sx, n)
    with place(sx) as pl:
        pl.write(pl.own / "a.yaml", [])
        store = pl.load(pl.own)
        for e in els:
            store.insert_model(Wrapper(**e))
        holds(sx, store, els)


def unknown(sx):
    els = elements(sx, 1)
    ask = sx.int("ask", 0, 1 << 40)
    sx.assume(ask != els[0]["parameters"]["id"])
    with place(sx) as pl:
        pl.write(pl.own / "a.yaml", els)
        store = pl.load(pl.own)
        fix = store[els[0]["datatype"]]
        sx.check("unknown type", not attempt(lambda: store["nothing"])[0])
        sx.check("unknown name", not attempt(lambda: fix.query_name("elemB"))[0])
        sx.check("unknown item", not attempt(lambda: fix["elemB"])[0])
        sx.check("unknown id", not attempt(lambda: fix.query_id(ask))[0])
        sx.check("unknown item number", not attempt(lambda: fix[ask])[0])
        sx.check("id is no name", not attempt(lambda: fix.query_name(ask))[0])
        sx.check("missing place", not attempt(lambda: pl.load(pl.root / "missing"))[0])


def query(sx):
    """the client answers from the collection"""
    import shepherd_core.testbed_client.client_abc_fix as c
    els = elements(sx, 2)
    keep = c.tb_client
    try:
        with place(sx) as pl:
            pl.write(pl.shipped / "a.yaml", els)
            client = c.FixturesClient()
            for t in ("Thing", "SENSORS"):
                mine = [e["parameters"] for e in els if e["datatype"] == t]
                if not mine:
                    sx.check("no such type", not attempt(lambda: client.query_ids(t))[0])
                    continue
                sx.check("names", sorted(client.query_names(t)) == sorted(e["name"].lower() for e in mine))
                ids = client.query_ids(t)
                sx.check("number of ids", len(ids) == len(mine))
                for e in mine:
                    sx.check("id listed", sx.either(*[i == e["id"] for i in ids]))
                    same(sx, "by id", client.query_item(t, uid=e["id"]), e)
                    same(sx, "by name", client.query_item(t, name=e["name"]), e)
                    same(sx, "id counts", client.query_item(t, uid=e["id"], name="nobody"), e)
                    same(sx, "completed by name", client.try_completing_model(t, {"name": e["name"]})[0], e)
                    same(sx, "completed by id", client.try_completing_model(t, {"id": e["id"]})[0], e)
                sx.check("neither id nor name", not attempt(lambda: client.query_item(t))[0])
                sx.check("unknown id", not attempt(lambda: client.try_completing_model(t, {"id": -1}))[0])
                sx.check("unknown name", not attempt(lambda: client.try_completing_model(t, {"name": "nobody"}))[0])
    finally:
        c.tb_client = keep


def replace(sx):
    """an element that comes again replaces the former one"""
    from shepherd_core.data_models.base.wrapper import Wrapper
    els = elements(sx, 2)
    again = element(els[0]["datatype"], els[0]["parameters"]["name"].upper(), els[0]["parameters"]["id"], q=sx.int("q", -9, 9))
    with place(sx) as pl:
        pl.write(pl.own / "a.yaml", els)
        store = pl.load(pl.own)
        store.insert_model(Wrapper(**again))
        holds(sx, store, [again, els[1]])


def iterate(sx):
    els = elements(sx, 2)
    with place(sx) as pl:
        pl.write(pl.own / "a.yaml", els)
        store = pl.load(pl.own)
        for t in {e["datatype"] for e in els}:
            want = sorted(e["parameters"]["name"] for e in els if e["datatype"] == t)
            for _ in range(2):
                sx.check("every element once", sorted(x["name"] for x in store[t]) == want)
