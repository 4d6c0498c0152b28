"""C48 a web session speaks for the caller it was opened by"""
import json
import sys
import types

BOUNDS = ("tokens of 1..8 (quick 4) arbitrary printable characters as text or file, servers with and without capitals or none, users with names of 1..8 "
          "characters one of which is arbitrary, every combination of missing, empty and given owner and group, failing replies at every request")
OUTSIDE = "the transport (requests is replaced by a recorder), the server, requests that are not implemented yet, token files ending with line breaks"
STUBS = ["requests -> recorder with scripted replies", "serialisation of the wrapper to JSON -> object that keeps its fields (replays: JSON text)"]
MODULES = ("shepherd_core.testbed_client.client_web", "shepherd_core.testbed_client.client_abc_fix", "shepherd_core.testbed_client.user_model")
SERVER = "HTTP://Host.example:80/Shepherd"


def cases(tier):
    out = [(f"token/{how}/{n}", "token", {"how": how, "n": n}) for how in ("text", "file") for n in ((1, 4) if tier == "quick" else (1, 2, 4, 8))]
    out += [("token/none", "token", {"how": "none", "n": 0}), ("token/missing", "missing", {})]
    out += [(f"server/{s}", "server", {"given": s}) for s in (True, False)]
    out += [(f"user/{g}/{pos}", "user", {"given": g, "pos": pos}) for g in ("nothing", "owner", "group", "both", "empty") for pos in (0, 2)]
    out += [(f"fails/{k}", "fails", {"step": k}) for k in ("key", "user", "add")]
    out += [("insert", "insert", {})]
    return out


class Reply:
    def __init__(self, ok, value):
        self.ok, self.value, self.status_code = ok, value, 200 if ok else 500

    def raise_for_status(self):
        if not self.ok:
            raise ConnectionError("refused")

    def json(self):
        return self.value

    @property
    def text(self):
        return json.dumps(self.value)


class Requests(types.ModuleType):
    """records what is asked"""

    def __init__(self, user, fail=None):
        super().__init__("requests")
        self.user, self.fail, self.calls = user, fail, []

    def request(self, method, url, **kw):
        self.calls.append((method, url, kw))
        kind = "key" if within("/session_key", url) else "add" if within("/add", url) else "user"
        return Reply(kind != self.fail, {"key": {"value": "session"}, "user": self.user, "add": None}[kind])

    def get(self, url, **kw):
        return self.request("get", url, **kw)

    def post(self, url, **kw):
        return self.request("post", url, **kw)

    def of(self, what):
        return [c for c in self.calls if within(what, c[1])]


def within(part, url):
    return part in "".join(chr(c) if type(c) is int else "\0" for c in codes(url))


def codes(x):
    return x.codes if hasattr(x, "codes") else [ord(c) for c in x]


def text(sx, cs):
    if sx.sym:
        from symx.shims import SymStr
        return SymStr([ord(c) if isinstance(c, str) else c for c in cs])
    return "".join(c if isinstance(c, str) else chr(c) for c in cs)


def printable(sx, name):
    return sx.int(name, 0x21, 0x7E)


def account(**kw):
    return {"id": 7, "name": "jane", "group": "lab", "email": "jane@example.org", "token": "secret", **kw}


class session:
    """client with a scripted server behind it"""

    def __init__(self, sx, user=None, fail=None):
        self.req = Requests(user or account(), fail)

    def __enter__(self):
        import shepherd_core.testbed_client.client_abc_fix as c
        import shepherd_core.testbed_client.client_web as w
        self.c, self.w, self.keep = c, w, (c.tb_client, sys.modules.get("requests"), w.__dict__["Wrapper"])
        sys.modules["requests"] = self.req
        return self

    def open(self, *a, **k):
        return self.w.WebClient(*a, **k)

    def __exit__(self, *a):
        self.c.tb_client, r, self.w.Wrapper = self.keep
        if r is None:
            sys.modules.pop("requests", None)
        else:
            sys.modules["requests"] = r


class Wrapped:
    """wrapper whose texts stay what they are made of"""

    def __init__(self, datatype, parameters, **kw):
        self.fields = {"datatype": datatype, "parameters": parameters, **kw}

    def model_dump_json(self, **_k):
        return self.fields

    def model_dump(self, **_k):
        return self.fields


def asked(call):
    """everything a request tells about its sender, apart from the address of the server"""
    _, url, kw = call
    return [url, *[v for k, v in kw.items() if k in ("params", "headers", "json", "data", "auth") for v in (v.values() if isinstance(v, dict) else [v])]]


def holds(sx, parts, token):
    want = codes(token)
    out = []
    for p in parts:
        if not (isinstance(p, str) or hasattr(p, "codes")):
            continue
        have = codes(p)
        out.append(have[-len(want):] == want if not sx.sym else
                   len(have) >= len(want) and sx.both(True, *[a == b for a, b in zip(have[len(have) - len(want):], want)]))
    return sx.either(False, *out)


def token(sx, how, n):
    cs = [printable(sx, f"c{k}") for k in range(n)]
    if how == "file":
        # text of files is only handed through
        for c in cs:
            sx.assume(sx.either(c == 65, c == 122, c == 48))
    with session(sx) as s:
        if how == "none":
            want = "basic_public_access"
            s.open()
        elif how == "text":
            want = text(sx, cs)
            s.open(None, want)
        else:
            want = "".join("A" if sx.is_true(c == 65) else "z" if sx.is_true(c == 122) else "0" for c in cs)
            f = sx.tmpdir() / "token"
            f.write_text(want)
            s.open(token=f)
        users = s.req.of("/user")
        sx.check("asks for the user", len(users) >= 1)
        for c in users:
            sx.check("presents the token", holds(sx, asked(c), want))


def missing(sx):
    sx.int("dummy", 0, 1)
    with session(sx) as s:
        ok, e = sx.attempt(lambda: s.open(token=sx.tmpdir() / "none"), FileNotFoundError)
        sx.check("no token", not ok)
        sx.check("nothing sent", not s.req.calls)


def server(sx, given):
    sx.int("dummy", 0, 1)
    from shepherd_core.commons import testbed_server_default
    with session(sx) as s:
        s.open(SERVER) if given else s.open()
        want = SERVER.lower() if given else testbed_server_default
        sx.check("asks for key and user", bool(s.req.of("/session_key")) and bool(s.req.of("/user")))
        sx.check("of this server", all(c[1].startswith(want + "/") for c in s.req.calls))
        sx.check("key comes first", "/session_key" in s.req.calls[0][1])


def user(sx, given, pos):
    c = printable(sx, "c")
    for bad in '<>:;,?"*|/\\':
        sx.assume(c != ord(bad))
    name = ["j", "a", "n", "e"]
    name[pos] = c
    name = text(sx, name)
    grp = text(sx, ["l", c, "b"])
    mine = text(sx, ["o", c])
    values = {}
    if given in ("owner", "both"):
        values["owner"] = mine
    if given in ("group", "both"):
        values["group"] = mine
    if given == "empty":
        values = {"owner": None, "group": None, "x": 1}
    with session(sx, account(name=name, group=grp)) as s:
        client = s.open(SERVER, "abc")
        before = dict(values)
        out = client.fill_in_user_data(dict(values))
        for key, who in (("owner", name), ("group", grp)):
            sx.check(key, same(sx, out[key], before.get(key) or who))
        sx.check("nothing else changes", {k: v for k, v in out.items() if k not in ("owner", "group")} == {k: v for k, v in values.items() if k not in ("owner", "group")})


def same(sx, a, b):
    x, y = codes(a), codes(b)
    return len(x) == len(y) and sx.both(True, *[p == q for p, q in zip(x, y)])


def fails(sx, step):
    sx.int("dummy", 0, 1)
    with session(sx, fail=step) as s:
        if step == "add":
            client = s.open(SERVER, "abc")
            ok, _ = sx.attempt(lambda: client.insert(thing(sx, 3)), ConnectionError)
        else:
            ok, _ = sx.attempt(lambda: s.open(SERVER, "abc"), ConnectionError)
        sx.check("failure shows", not ok)
        if step == "key":
            sx.check("token is kept back", not s.req.of("/user"))


def thing(sx, v):
    from shepherd_core.data_models.testbed import GPIO
    return GPIO(id=v, name="probe", description="d", comment="c", direction="OUT", reg_pru="r", pin_pru="p")


def insert(sx):
    v = sx.int("id", 0, 1000)
    with session(sx) as s:
        client = s.open(SERVER, "abc")
        if sx.sym:
            s.w.Wrapper = Wrapped
        n = len(s.req.calls)
        sx.check("accepted", client.insert(thing(sx, v)) is True)
        sx.check("one request", len(s.req.calls) == n + 1)
        method, url, kw = s.req.calls[-1]
        sx.check("posted", method == "post" and url.startswith(SERVER.lower() + "/"))
        body = kw.get("data") or kw.get("json")
        if isinstance(body, (str, bytes)):
            body = json.loads(body)
        sx.check("kind", body["datatype"] == "GPIO")
        p = body["parameters"]
        sx.check_eq("id", p["id"], v)
        sx.check("content", (p["name"], p["description"], p["comment"], p["pin_pru"]) == ("probe", "d", "c", "p"))
