"""C11 a writer never destroys an existing recording unasked"""
from .common import closing, iso_time, recording

BOUNDS = ("names with no / one / several dots, relative and nested targets; any subset of 4 neighbouring names "
          "(the target and the first three alternatives) occupied, or the first 0..24 (thorough 400) alternatives in a row; overwrite and modify flags symbolic; any content")
OUTSIDE = "concurrent writers racing for the same name; file system permissions; HDF5 library"
STUBS = ["h5py -> in-memory files registered at their path (a marker file lies on disk)", "logging disabled"]

NAMES = ("rec.h5", "rec", "rec.v1.h5", "a.0.h5", ".hidden", "rec.hdf5")


def cases(tier):
    out = [(f"occupied/{n}", "occupied", {"name": n}) for n in NAMES]
    out += [("other-file-kind", "other_kind", {}), ("directory", "directory", {}),
            ("new-folder", "new_folder", {}), ("modify-missing", "modify_missing", {}),
            ("twice", "twice", {}), ("unique", "unique", {}),
            ("many", "many", {"top": 24 if tier == "quick" else 400})]
    return out


def fill(sx, p, tag):
    recording(sx, p, iso_time(sx, 10_000, 5, 10_000), sx.vec(f"v{tag}", 10_000, 0, 2**32 - 1),
              sx.vec(f"c{tag}", 10_000, 0, 2**32 - 1), hostname=f"h{tag}", mode="emulator")


def snapshot(sx, p):
    f = sx.h5_open(p)
    d = (f.attrs["hostname"], f.attrs["mode"], f["data"]["voltage"][:], f["data"]["time"].shape[0])
    f.close()
    return d


def same(sx, lab, p, old):
    if not p.is_file():
        sx.check(f"{lab} still exists", False)
        return
    f = sx.h5_open(p)
    sx.check(f"{lab} metadata", (f.attrs.get("hostname"), f.attrs.get("mode")) == old[:2])
    n = f["data"]["voltage"].shape[0]
    sx.check(f"{lab} size", sx.both(n == 10_000, f["data"]["time"].shape[0] == old[3]))
    vv = f["data"]["voltage"]
    sx.forall(f"{lab} content", 10_000, lambda k: sx.at(vv, k) == sx.at(old[2], k))
    f.close()


def occupied(sx, name):
    from shepherd_core import Writer
    d = sx.tmpdir()
    target = d / name
    neigh = [target, *(d / f"{target.stem}.{k}{target.suffix}" for k in range(2)),
             d / f"{target.stem.split('.')[0]}.0{target.suffix}", d / (name + ".bak")]
    neigh = list(dict.fromkeys(neigh))
    before = {}
    for i, p in enumerate(neigh):
        if sx.flag(f"occ{i}"):
            fill(sx, p, i)
            before[p] = snapshot(sx, p)
    over, mod = sx.flag("over"), sx.flag("mod")
    if mod and target not in before:
        return
    w = Writer(target, verbose=None, force_overwrite=over, modify_existing=mod)
    with closing(w):
        path = w.file_path
        sx.observe("name", path.name)
    if over or mod or target not in before:
        sx.check("stored under the given name", path == target.resolve())
    else:
        sx.check("fresh name", path not in [p.resolve() for p in before])
        sx.check("same folder", path.parent == d.resolve())
        sx.check("same suffix", path.name.endswith(target.suffix))
    sx.check("new file is there", path.is_file())
    n_now = len([x for x in d.iterdir() if x.is_file()])
    sx.check("exactly one file more", n_now == len(before) + (path not in [p.resolve() for p in before]))
    for p, old in before.items():
        if p == target and over and not mod:
            f = sx.h5_open(path)
            sx.check("overwritten file is fresh", f["data"]["voltage"].shape[0] == 0)
            sx.check("old metadata is gone", f.attrs.get("hostname") is None)
            f.close()
            sx.cover("overwrite")
            continue
        same(sx, p.name, p, old)


def many(sx, top):
    """the first k alternatives are occupied; k symbolic"""
    from shepherd_core import Writer
    d = sx.tmpdir()
    k = sx.int("k", 0, top)
    fill(sx, d / "rec.h5", 0)
    old = snapshot(sx, d / "rec.h5")
    occ = ["rec.h5"]
    for j in range(top):
        if not sx.is_true(j < k):
            break
        (d / f"rec.{j}.h5").write_bytes(b"other")
        occ.append(f"rec.{j}.h5")
    w = Writer(d / "rec.h5", verbose=None)
    with closing(w):
        path = w.file_path
    sx.check("fresh name", path.name not in occ)
    n = len([x for x in d.iterdir() if x.is_file()])
    sx.check("exactly one file more", n == 2 + k)
    for n in occ[1:]:
        sx.check("others untouched", (d / n).read_bytes() == b"other")
    same(sx, "first", d / "rec.h5", old)


def other_kind(sx):
    """an occupied name is respected even when the file is no recording"""
    from shepherd_core import Writer
    d = sx.tmpdir()
    p = d / "rec.h5"
    p.write_bytes(b"something else")
    w = Writer(p, verbose=None)
    with closing(w):
        pass
    sx.check("untouched", p.read_bytes() == b"something else")
    sx.check("fresh path", w.file_path != p.resolve() and w.file_path.is_file())


def directory(sx):
    from shepherd_core import Writer
    d = sx.tmpdir()
    p = d / "rec.h5"
    p.mkdir()
    if sx.flag("content"):
        (p / "x").write_bytes(b"1")
    over = sx.flag("over")
    n0 = sorted(x.name for x in d.rglob("*"))
    ok, res = sx.attempt(lambda: Writer(p, verbose=None, force_overwrite=over), Exception)
    if not over:
        sx.check("refused", not ok)
    sx.check("folder untouched", p.is_dir() and sorted(x.name for x in d.rglob("*")) == n0)


def new_folder(sx):
    from shepherd_core import Writer
    d = sx.tmpdir()
    p = d / "x" / "y" / "rec.h5"
    if sx.flag("exists"):
        p.parent.mkdir(parents=True)
        (p.parent / "z").write_bytes(b"1")
    w = Writer(p, verbose=None)
    with closing(w):
        pass
    sx.check("stored there", w.file_path == p.resolve() and p.is_file())


def modify_missing(sx):
    """modify never creates or truncates anything"""
    from shepherd_core import Writer
    d = sx.tmpdir()
    p = d / "rec.h5"
    over = sx.flag("over")
    ok, res = sx.attempt(lambda: Writer(p, modify_existing=True, force_overwrite=over, verbose=None), Exception)
    sx.check("refused", not ok)


def twice(sx):
    """every further writer on the same name gets another file"""
    from shepherd_core import Writer
    d = sx.tmpdir()
    seen = []
    for i in range(3):
        n = sx.choice(f"n{i}", (10_000, 10_001))
        with Writer(d / "rec.h5", verbose=None) as w:
            w.append_iv_data_raw(i * 10**9, sx.vec(f"v{i}", n, 0, 2**32 - 1), sx.vec(f"c{i}", n, 0, 9))
            w.store_hostname(f"h{i}")
        sx.check("fresh", w.file_path not in seen)
        seen.append(w.file_path)
    for i, p in enumerate(seen):
        f = sx.h5_open(p)
        sx.check("own metadata", f.attrs["hostname"] == f"h{i}")
        sx.check("own data", f["data"]["time"].shape[0] == 10_000)
        sx.check("own stamps", sx.at(f["data"]["time"], 0) == i * 10**9)
        f.close()


def unique(sx):
    from shepherd_core import writer
    fn = sx.need(writer, "unique_path")
    d = sx.tmpdir()
    occ = [k for k in range(4) if sx.flag(f"o{k}")]
    for k in occ:
        (d / f"rec.{k}.h5").write_bytes(b"1")
    p = fn(d / "rec", ".h5")
    sx.check("does not exist", not p.exists())
    sx.check("in the folder", p.parent == d and p.suffix == ".h5")
