"""C21 harvesting algorithms only return plausible operating points"""
from props.vsrc_common import U32, setstate

BOUNDS = ("constant voltage / perturb-observe: one step from an arbitrary state with every register symbolic, plus 4 samples "
          "from construction; open-circuit: 6 (thorough 8) symbolic samples from construction, window 2 and 3; optimal MPPT: "
          "8 (thorough 10) samples from construction with window 2 and 3, symbolic currents, plus one step from an arbitrary "
          "state with a symbolic window; pass-through: all algorithms")
OUTSIDE = "longer histories than stated for the two window based trackers (their one-step case covers any state)"
STUBS = ["constant voltage stage behind the open-circuit tracker -> identity (except case voc/track+cv)", "logging disabled", "pydantic validation -> symbolic counterpart"]
MODULES = ("shepherd_core.vsource.virtual_harvester_model", "shepherd_core.data_models.content.virtual_harvester")
FAKE_H5 = False

ALGO = {"ivcurve": 16, "cv": 256, "voc": 4096, "po": 8192, "opt": 16384}
EXTRA, RISING = 4, 2


def cases(tier):
    q = tier == "quick"
    out = [("cv/step", "cv_step", {}), ("cv/history", "cv_hist", {"n": 4 if q else 5}),
           ("cv/extrapolate", "cv_extra", {}), ("cv/extrapolate-history", "cv_extra_hist", {"n": 4 if q else 5})]
    out += [(f"po/step/{n}", "po_step", {"rising": n == "rising"}) for n in ("rising", "falling")]
    out += [("po/history", "po_hist", {"n": 4 if q else 5}), ("po/pace", "po_pace", {})]
    out += [(f"voc/track/{w}/{p}", "voc", {"pat": p, "w": w}, {"max_paths": 60000})
            for w, p in ((2, "111111"), (2, "1000001"), (2, "1100000101"), (3, "10101010"), (3, "110000000111"))]
    out += [("voc/track+cv", "voc", {"pat": "1111", "w": 2, "full": True})]
    if not q:
        out += [("voc/track/2/11111111", "voc", {"pat": "11111111", "w": 2}, {"max_paths": 60000})]
    out += [("voc/setpoint", "voc_set", {"n": 7 if q else 10}), ("voc/limits", "voc_limits", {}), ("voc/pace", "voc_pace", {})]
    out += [(f"opt/track/{w}", "opt", {"n": 8 if q else 10, "w": w}, {"max_paths": 60000}) for w in (2, 3)]
    out += [("opt/limits", "opt_limits", {}), ("opt/step", "opt_step", {})]
    out += [(f"pass/{a}", "passthrough", {"algo": a}) for a in ALGO]
    out += [("pass/config", "pass_config", {})]
    return out


def make(sx, algo, mode=1, **kw):
    from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig
    from shepherd_core.vsource.virtual_harvester_model import VirtualHarvesterModel
    d = {"algorithm": ALGO[algo], "hrv_mode": mode, "window_size": 2, "voltage_uV": 2_000_000, "voltage_min_uV": 0,
         "voltage_max_uV": 5_000_000, "voltage_step_uV": 50_000, "current_limit_nA": 1000, "setpoint_n8": 192,
         "interval_n": 100, "duration_n": 10, "wait_cycles_n": 1}
    d.update(kw)
    return VirtualHarvesterModel(HarvesterPRUConfig(**d))


def iv(sx, k, v_hi=U32, i_hi=U32):
    return sx.int(f"v{k}", 0, v_hi), sx.int(f"i{k}", 0, i_hi)


# ---------------------------------------------------------------- constant voltage
def cv_step(sx):
    step = sx.int("step", 0, 2**30)
    h = make(sx, "cv", voltage_step_uV=step)
    vset, vl, il, vh, ih = (sx.int(n, 0, U32) for n in ("set", "vl", "il", "vh", "ih"))
    below = sx.flag("below")            # side of the set-point the last sample was on
    setstate(sx, h, voltage_set_uV=vset, voltage_last=vl, current_last=il, compare_last=below, voltage_hold=vh,
             current_hold=ih)
    v, i = iv(sx, 0)
    rv, ri = h.ivcurve_sample(v, i)
    held = sx.both(rv == vh, ri == ih)
    new, old = sx.both(rv == v, ri == i), sx.both(rv == vl, ri == il)
    sx.check("only points of the curve", sx.either(held, new, old))
    near = lambda x: abs(x - vset) < 4 * step
    sx.check("a new point lies near the set-point", sx.either(held, sx.both(new, near(v)), sx.both(old, near(vl))))
    crossed = sx.both(sx.neg(sx.iff(v < vset, below)), abs(v - vl) < 4 * step)
    sx.check("a point is taken where the curve crosses the set-point", sx.implies(
        sx.both(crossed, abs(v - vset) < abs(vl - vset), near(v)), new))
    sx.check("the closer point is taken", sx.implies(
        sx.both(crossed, abs(v - vset) > abs(vl - vset), near(vl)), old))
    sx.check("otherwise the last point is held", sx.implies(sx.neg(crossed), held))
    sx.check("set-point is kept", h.voltage_set_uV == vset)


def cv_hist(sx, n):
    h = make(sx, "cv", voltage_uV=sx.int("volt", 0, 5_000_000), voltage_step_uV=sx.int("step", 1, 1_000_000))
    seen = [(0, 0)]
    for k in range(n):
        p = iv(sx, k)
        seen.append(p)
        rv, ri = h.ivcurve_sample(*p)
        sx.check(f"only points of the curve {k}", sx.either(*[sx.both(rv == a, ri == b) for a, b in seen]))


def cv_extra(sx):
    """one step from any state: the extrapolated point stays physical"""
    h = make(sx, "cv", mode=1 + EXTRA, voltage_step_uV=sx.int("step", 0, 2**30))
    dv, di = sx.int("dv", -2**31, 2**31), sx.int("di", -2**31, 2**31)
    vh, ih = sx.int("vh", 0, U32), sx.int("ih", 0, U32)
    vset, vl, il = (sx.int(n, 0, U32) for n in ("set", "vl", "il"))
    setstate(sx, h, voltage_set_uV=vset, voltage_last=vl, current_last=il, compare_last=sx.flag("below"), voltage_hold=vh,
             current_hold=ih, voltage_delta=dv, current_delta=di)
    v, i = iv(sx, 0)
    rv, ri = h.ivcurve_sample(v, i)
    sx.check("neither voltage nor current turn negative", sx.both(rv >= 0, ri >= 0))


def cv_extra_hist(sx, n):
    h = make(sx, "cv", mode=1 + EXTRA, voltage_uV=sx.int("volt", 0, 5_000_000), voltage_step_uV=sx.int("step", 1, 1_000_000))
    for k in range(n):
        if k == 2:      # feedback of the converter, or one of the trackers
            setstate(sx, h, voltage_set_uV=sx.int("moved", 0, 5_000_000))
        rv, ri = h.ivcurve_sample(*iv(sx, k, 5_000_000, 50_000_000))
        sx.check(f"neither voltage nor current turn negative {k}", sx.both(rv >= 0, ri >= 0))


# ---------------------------------------------------------------- perturb and observe
def po_model(sx, rising=True, **kw):
    lo, hi = sx.int("lo", 0, 10_000_000), sx.int("hi", 0, 10_000_000)
    step = sx.int("step", 1, 2_000_000)
    sx.assume(sx.both(lo <= hi, step <= hi))
    kw.setdefault("interval_n", 1)
    h = make(sx, "po", mode=1 + (RISING if rising else 0), voltage_min_uV=lo, voltage_max_uV=hi, voltage_step_uV=step, **kw)
    return h, lo, hi, step


def po_step(sx, rising):
    """operating point held at 1 V with a symbolic current: power = 1e6 * current"""
    h, lo, hi, step = po_model(sx, rising)
    s0 = sx.int("set", 0, 10_000_000)
    size = sx.int("size", 1, 2_000_000)
    last, cur = sx.int("last", 0, 10**9), sx.int("cur", 0, 10**9)
    floor = sx.fmax(lo, step)
    sx.assume(sx.both(s0 >= floor, s0 <= hi))
    v = 1_000_000
    setstate(sx, h, voltage_set_uV=s0, volt_step_uV=size, power_last=last * v, voltage_hold=v, current_hold=cur,
             voltage_last=v, current_last=cur, compare_last=sx.is_true(v < s0), is_rising=rising)
    rv, ri = h.ivcurve_sample(v, cur)
    sx.check("operating point is held", sx.both(rv == v, ri == cur))
    s1 = h.voltage_set_uV
    sx.check("set-point inside the limits", sx.both(s1 >= lo, s1 <= hi, s1 >= step))

    def clamp(x):
        return sx.fmax(sx.fmin(x, hi), floor)
    sign = 1 if rising else -1
    if sx.is_true(cur > last):
        sx.check("keeps going while power grows", s1 == clamp(s0 + sign * size))
        up, nxt = rising, 2 * size
        sx.cover("grow")
    elif sx.is_true(cur == 0):
        sx.check("drops back without power", s1 == clamp(s0 - 4 * step))
        up, nxt = True, step
        sx.cover("dead")
    else:
        sx.check("turns around when power drops", s1 == clamp(s0 - sign * step))
        up, nxt = not rising, step
        sx.cover("turn")
    # second step with growing power shows direction and width
    hit_hi, hit_lo = sx.is_true(s1 == hi), sx.is_true(s1 == floor)
    if hit_hi and hit_lo:
        return
    if hit_hi:
        up, nxt = False, step
    if hit_lo:
        up, nxt = True, step
    setstate(sx, h, voltage_hold=v, current_hold=cur + 1, voltage_last=v, current_last=cur + 1,
             compare_last=sx.is_true(v < s1))
    h.ivcurve_sample(v, cur + 1)
    sx.check("next step continues in the chosen direction", h.voltage_set_uV == clamp(s1 + (nxt if up else -nxt)))


def po_hist(sx, n):
    h, lo, hi, step = po_model(sx, sx.flag("rising"), voltage_uV=sx.int("volt", 0, 10_000_000))
    sx.assume(sx.both(h.voltage_set_uV >= lo, h.voltage_set_uV <= hi + 1))
    for k in range(n):
        h.ivcurve_sample(1_000_000, sx.int(f"i{k}", 0, 10**9))
        s = h.voltage_set_uV
        sx.check(f"set-point inside the limits {k}", sx.both(s >= lo, s <= hi, s >= step))


def po_pace(sx):
    """the set-point only moves once per interval"""
    n = sx.int("interval", 3, 2**31)
    pos = sx.int("pos", 0, 2**31)
    sx.assume(pos < n)
    h = make(sx, "po", interval_n=n)
    s0 = sx.int("set", 60_000, 4_000_000)
    setstate(sx, h, interval_step=pos, voltage_set_uV=s0)
    h.ivcurve_sample(*iv(sx, 0))
    sx.check("moves once per interval", sx.iff(h.voltage_set_uV != s0, pos + 1 >= n))


# ---------------------------------------------------------------- open circuit
def lone(h):
    """the CV part behind the tracker does not influence the set-point: keep its branches out (checked in cv/*)"""
    if hasattr(h, "ivcurve_2_cv"):
        h.ivcurve_2_cv = lambda v, i: (v, i)
    return h


def voc(sx, pat, w, full=False):
    """set-point always shows the tracked open circuit voltage (duration beyond the interval)"""
    lim = 1000
    hi = 5_000_000
    h = make(sx, "voc", window_size=w, interval_n=2**20, duration_n=2**20, current_limit_nA=lim, voltage_max_uV=hi)
    if not full:
        lone(h)
    vs = []
    oc = [c == "1" for c in pat]
    for k in range(len(pat)):
        vs.append(sx.int(f"v{k}", 1000, hi))
        h.ivcurve_sample(vs[k], 0 if oc[k] else lim)
        s = h.voltage_set_uV
        alive = [j for j in range(k + 1) if oc[j] and k - j <= 2 * w]
        # a tracked voltage is an open-circuit sample of the last two windows, none after it was lower
        sx.check(f"plausible voltage {k}", sx.either(
            s == hi, *[sx.both(s == vs[j], *[vs[m] >= s for m in range(j, k + 1) if oc[m]]) for j in alive]))
        if oc[k]:
            sx.check(f"never above the latest open circuit voltage {k}", s <= vs[k])


def voc_set(sx, n):
    """same samples, two models: one shows the tracked voltage, the other one applies the fraction"""
    sp = sx.int("sp", 0, 255)
    w, interval, dur = 2, 3, 1
    a = lone(make(sx, "voc", window_size=w, interval_n=2**20, duration_n=2**20, setpoint_n8=sp))
    b = lone(make(sx, "voc", window_size=w, interval_n=interval, duration_n=dur, setpoint_n8=sp))
    exp = b.voltage_set_uV
    for k in range(n):
        v = sx.int(f"v{k}", 1000, 5_000_000)
        i = 0 if k % 2 == 0 else 5000
        a.ivcurve_sample(v, i)
        b.ivcurve_sample(v, i)
        t = a.voltage_set_uV
        phase = k % interval
        if phase < dur:
            exp = t
            sx.check(f"measures the open circuit {k}", b.voltage_set_uV == exp)
        elif phase == dur:
            exp = sx.floor(t * sp / 256)
            sx.check(f"steers to the configured fraction {k}", b.voltage_set_uV == exp)
        else:
            sx.check(f"keeps the set-point {k}", b.voltage_set_uV == exp)


def voc_pace(sx):
    """any interval: measure while the duration lasts, then the fraction, then hold"""
    n, d, pos = sx.int("n", 1, 2**31), sx.int("d", 1, 2**31), sx.int("pos", 0, 2**31)
    sx.assume(sx.both(pos < n, d <= n))
    sp = sx.int("sp", 0, 255)
    h = lone(make(sx, "voc", interval_n=n, duration_n=d, setpoint_n8=sp))
    s0, voc = sx.int("set", 0, 5_000_000), sx.int("voc", 1000, 5_000_000)
    setstate(sx, h, interval_step=pos, voltage_set_uV=s0, voc_now=voc)
    h.ivcurve_sample(1_000_000, 5000)
    voc = h.voc_now
    phase = sx.ite(pos + 1 >= n, 0, pos + 1)
    s = h.voltage_set_uV
    sx.check("measures the open circuit", sx.implies(phase < d, s == voc))
    sx.check("steers to the configured fraction", sx.implies(phase == d, s == sx.floor(voc * sp / 256)))
    sx.check("keeps the set-point", sx.implies(phase > d, s == s0))


def voc_limits(sx):
    """samples outside the voltage limits or with current are no open circuit"""
    lo, hi = sx.int("lo", 0, U32), sx.int("hi", 0, U32)
    lim = sx.int("lim", 0, U32)
    sx.assume(sx.both(lo <= hi, hi >= 1000))
    h = make(sx, "voc", window_size=3, interval_n=2**20, duration_n=2**20, current_limit_nA=lim, voltage_min_uV=lo,
             voltage_max_uV=hi)
    for k in range(2):
        v, i = iv(sx, k)
        before = hi if k == 0 else h.voltage_set_uV
        h.ivcurve_sample(v, i)
        s = h.voltage_set_uV
        ok = sx.both(i < lim, v >= lo, v >= 1000, v <= hi)
        sx.check(f"only open circuit samples count {k}", sx.implies(sx.neg(ok), s >= before))
        sx.check(f"every lower open circuit voltage counts {k}", sx.implies(ok, s <= v))
        sx.check(f"tracked voltage inside the limits {k}", sx.both(s <= hi, sx.either(s >= lo)))


# ---------------------------------------------------------------- optimal
def opt(sx, n, w):
    """distinct voltages identify the samples, currents (so powers) symbolic"""
    h = make(sx, "opt", window_size=w)
    vs = [1000 + 7 * ((5 * k) % 11) for k in range(n)]
    cs = []
    for k in range(n):
        cs.append(sx.int(f"i{k}", 1, 10**6))
        rv, ri = h.ivcurve_sample(vs[k], cs[k])
        p = rv * ri
        alive = [j for j in range(k + 1) if k - j <= 2 * w]
        sx.check(f"a sample of the last two windows {k}", sx.either(
            *[sx.both(rv == vs[j], ri == cs[j]) for j in alive]))
        for j in alive:
            if sx.is_true(rv == vs[j]):
                sx.check(f"no later sample was better {k}", sx.both(*[vs[m] * cs[m] <= p for m in range(j, k + 1)]))


def opt_limits(sx):
    """samples outside the limits are never returned"""
    lo, hi = sx.int("lo", 1, U32), sx.int("hi", 1, U32)
    sx.assume(lo <= hi)
    h = make(sx, "opt", window_size=sx.int("w", 2, 1000), voltage_min_uV=lo, voltage_max_uV=hi)
    for k in range(3):
        v = sx.int(f"v{k}", 0, U32)
        rv, ri = h.ivcurve_sample(v, 1 + k)
        none = sx.both(rv == 0, ri == 0)
        sx.check(f"inside the limits {k}", sx.either(none, sx.both(rv >= lo, rv <= hi)))
        if sx.is_true(sx.both(v >= lo, v <= hi)):
            sx.check(f"at least the latest admissible power {k}", rv * ri >= v * (1 + k))


def opt_step(sx):
    """any state: result covers the current sample, result never older than two windows"""
    w = sx.int("w", 2, 2**31)
    lo, hi = sx.int("lo", 1, 1_000_000), sx.int("hi", 1, 10_000_000)
    h = make(sx, "opt", window_size=w, voltage_min_uV=lo, voltage_max_uV=hi)
    v, cn, cx = 1_000_000, sx.int("cn", 0, 10**9), sx.int("cx", 0, 10**9)
    an, ax = sx.int("an", 0, 2**32), sx.int("ax", 0, 2**32)
    sx.assume(sx.both(cx <= cn, ax <= an, an <= 2 * w, hi >= v))
    setstate(sx, h, power_now=v * cn, voltage_now=v, current_now=cn, power_nxt=v * cx, voltage_nxt=v, current_nxt=cx,
             age_now=an, age_nxt=ax)
    c = sx.int("c", 0, 10**9)
    rv, ri = h.ivcurve_sample(v, c)
    sx.check("covers the latest sample", ri >= c)
    sx.check("an improvement is used at once", sx.implies(c >= cn, sx.both(rv == v, ri == c)))
    sx.check("kept while fresh", sx.implies(sx.both(c < cn, an + 1 <= 2 * w), ri == cn))
    sx.check("replaced when stale", sx.implies(sx.both(c < cn, an + 1 > 2 * w), ri == sx.fmax(c, cx)))


# ---------------------------------------------------------------- pass-through
def passthrough(sx, algo):
    w = sx.int("w", 0, 1)
    if algo == "ivcurve":
        w = sx.int("w2", 0, U32)
    h = make(sx, algo, window_size=w)
    for k in range(2):
        v, i = iv(sx, k)
        rv, ri = h.ivcurve_sample(v, i)
        sx.check(f"sample unchanged {k}", sx.both(rv == v, ri == i))


def pass_config(sx):
    from shepherd_core.data_models.content import VirtualHarvesterConfig
    from shepherd_core.data_models.content.energy_environment import EnergyDType
    from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig
    from shepherd_core.vsource.virtual_harvester_model import VirtualHarvesterModel
    algo = sx.choice("algo", ("cv", "mppt_voc", "mppt_po", "mppt_opt"))
    cfg = VirtualHarvesterConfig(name="h", owner="o", group="g", algorithm=algo, samples_n=sx.int("n", 8, 2000),
                                 wait_cycles=sx.int("wait", 0, 100))
    h = VirtualHarvesterModel(HarvesterPRUConfig.from_vhrv(cfg, for_emu=True, dtype_in=EnergyDType.ivsample))
    v, i = iv(sx, 0)
    rv, ri = h.ivcurve_sample(v, i)
    sx.check("ivsamples pass unchanged", sx.both(rv == v, ri == i))
