"""Differential self-test of the numpy stand-ins: each expression is evaluated on proxies that carry
constants and on real numpy; values (and shapes) have to agree."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy as np, z3
from symx import engine as E, arrays as A
EXPRS = """a+b; a-1; 2*a; a/b; a//2; a%3; -a; abs(a-3); a**2; a>b; a==b; (a>1)&(b>2); (a>1)|(b>2); ~(a>2)
np.maximum(a,0); np.minimum(a,b); np.clip(a,1,4); a.clip(1,4); a.clip(min=2); np.where(a>2,a,0); np.where(a>2); np.where(a>2)[0]
np.diff(a); np.diff(a,n=2); np.diff(a,prepend=0); np.diff(a,append=9); np.diff(c); np.abs(a-3); np.absolute(a-2); np.round(c); np.around(c,1); np.rint(c); np.floor(c); np.ceil(c); np.trunc(c)
a.sum(); np.sum(a); sum(a); a.mean(); np.mean(a); a.min(); np.max(a); min(a); max(a); a.max()-a.min(); np.ptp(a); np.prod(a); a.prod(); np.cumsum(a); a.cumsum()
np.concatenate([a,b]); np.concatenate((a[:1],b)); np.hstack([a,b]); np.hstack((a,[1,2])); np.vstack([a,b]); np.stack([a,b]); np.column_stack([a,b]); np.column_stack((a,b>2)); np.append(a,b); np.append(a,7); np.insert(a,0,5); np.insert(a,2,5); np.delete(a,1); np.r_[0,1]
np.unique(a); np.sort(a); np.argmin(a); np.argmax(a); a.argmin(); a.argmax(); np.argsort(c); np.any(a>4); np.all(a>0); (a>2).any(); (a>0).all(); np.count_nonzero(a>2); np.nonzero(a>2)[0]; np.flatnonzero(a>2)
np.isclose(a,b); np.allclose(a,a); np.array_equal(a,b); np.array_equal(a,a); np.isin(a,[1,3]); np.zeros(3)+a[:3]; np.ones_like(a)*a; np.zeros_like(a); np.full_like(a,3)
np.asarray(a); np.array(a); np.array([a[0],a[1]]); np.array(a,dtype=float); a.astype(int); a.astype(float); c.astype(int); c.astype('u4'); a.copy(); np.copy(a)
a.reshape(-1,1); a.reshape((2,3)); np.reshape(a,(3,2)); a.reshape(2,3).T; a.reshape(2,3)[:,1]; a.reshape(2,3).sum(axis=0); a.reshape(2,3).sum(axis=1); a.reshape(2,3).ravel(); a.flatten(); np.ravel(a); a[::2]; a[::-1]; a[1:]; a[:-1]; a[-1]; a[[0,2]]; a[a>2]; a[1:][a[1:]!=a[:-1]]; np.flip(a)
np.repeat(a,2); np.tile(a,2); np.roll(a,1); np.searchsorted(np.array([1,2,5]),a); np.interp(c,[0,2,5],[0,4,5]); np.sign(a-3); np.square(a); np.sqrt(a*a); np.dot(a,b); a.dot(b); a@b if False else np.dot(a,b); np.add(a,1); np.multiply(a,b); np.divide(a,b); np.power(a,2); np.mod(a,3); np.floor_divide(a,2); np.logical_and(a>1,b>2); np.logical_xor(a>1,b>2); np.logical_not(a>2); np.bitwise_and(a,6); np.bitwise_or(a,1); np.bitwise_xor(a,5); a&3; a|4; a^1; a<<2; a>>1; np.right_shift(a,1); np.left_shift(a,1); (a>>1)&1
np.percentile(a,10); np.median(a); np.average(a); np.average(a,weights=b); np.array_split(a,2)[0]; np.split(a,3)[2]; np.fromiter((x+1 for x in a),dtype=float); np.polyval([2,1],a); np.take(a,[0,1]); np.compress(a>2,a); np.isnan(c); np.isfinite(c); a.size; len(a); a.shape; a.ndim; np.size(a); np.shape(a); list(a); a.tolist(); [x for x in a]; [x*y for x,y in zip(a,b)]; np.arange(a.size)+a; np.linspace(0,1,6)*a
np.array([[1,2],[3,4]])*a[0]; np.hstack([a.reshape(2,3), b.reshape(2,3)]); np.concatenate([a.reshape(2,3), b.reshape(2,3)], axis=1); np.append(a.reshape(6,1), b.reshape(6,1), axis=1); np.vstack([a.reshape(2,3), b.reshape(2,3)]); np.vstack((a,b)).T; np.diff(a.reshape(3,2)[:,0]); a.reshape(3,2)[a.reshape(3,2)[:,0]>1]; a.reshape(3,2)[1:,0]-a.reshape(3,2)[:-1,0]; np.transpose(a.reshape(2,3)); a.reshape(2,3).shape; a.item(1); np.squeeze(a); np.atleast_1d(a)"""

def plain(x):
    if E.is_sym(x):
        v = z3.simplify(x.e)
        if z3.is_int_value(v): return v.as_long()
        if z3.is_rational_value(v): return float(v.as_fraction())
        if z3.is_true(v) or z3.is_false(v): return z3.is_true(v)
        m = eng.ensure_model().m if hasattr(eng.ensure_model(), "m") else eng.ensure_model()
        v = eng.ensure_model().eval(x.e, True)
        return E.num_to_py(v) if not z3.is_bool(v) else z3.is_true(v)
    if type(x) is A.SymVec: return [plain(y) for y in x.tolist()]
    if isinstance(x, np.ndarray):
        if x.ndim == 0: return plain(x.item())
        return [plain(y) for y in (x if isinstance(x, A.SymND) else x.tolist())]
    if isinstance(x, (list, tuple)): return [plain(y) for y in x]
    if isinstance(x, np.generic): return x.item()
    return x

def close(p, q):
    if isinstance(p, list) or isinstance(q, list):
        return isinstance(p, list) and isinstance(q, list) and len(p) == len(q) and all(close(x, y) for x, y in zip(p, q))
    return abs(float(p) - float(q)) < 1e-6

bad = 0
AV, BV, CV = [1, 5, 2, 2, 3, 4], [3, 1, 2, 4, 4, 1], [0.5, 2.5, 1.25, 3.75, -1.5, 4.0]
NPX = A.NP if hasattr(A, "NP") else A.NPProxy()
from symx import shims
for kind in ("vec", "nd"):
    for ex in [x.strip() for l in EXPRS.splitlines() for x in l.split(";") if x.strip()]:
        eng = E.Engine(seed=1, budget_s=20); E.CTX = eng
        eng.pos = 0; eng.fresh_n = 0; eng.univ, eng.sums, eng.floors, eng.rounds = [], [], {}, {}; eng.inputs = {}
        def mk(vals):
            items = [E.SymInt(z3.IntVal(v)) if isinstance(v, int) else E.SymReal(z3.RealVal(str(v))) for v in vals]
            if kind == "nd": return A.nd(items)
            return A.SymVec.of_list(items, "i8" if isinstance(vals[0], int) else "f8")
        want = eval(ex, {"np": np, "a": np.array(AV), "b": np.array(BV), "c": np.array(CV)})
        try:
            got = eval(ex, {"np": shims.NP, "a": mk(AV), "b": mk(BV), "c": mk(CV), "sum": shims.SHIMS["sum"], "min": shims.SHIMS["min"], "max": shims.SHIMS["max"], "len": shims.SHIMS["len"]})
            g, w = plain(got), plain(want)
            if not close(g, w): print("DIFF", kind, ex, g, w); bad += 1
        except BaseException as x:
            print("FAIL", kind, ex, type(x).__name__, str(x)[:90]); bad += 1
print("bad", bad)
