"""C13: the Python binding, explored exhaustively over argument kinds, layouts, options, output levels and over
every point of the lock-free window at which another thread could interfere."""
import argparse, ctypes, itertools, gc, mmap, os, re, sys, tempfile, warnings
ap = argparse.ArgumentParser(); ap.add_argument('--dir'); ap.add_argument('--tier', default='quick'); ap.add_argument('--out'); ap.add_argument('--only'); ap.add_argument('--replay'); ap.add_argument('--asan', type=int, default=0); AR = ap.parse_args()
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, AR.dir); sys.dont_write_bytecode = True
import numpy as np
import qpSWIFT
from eng import Eng
TH = AR.tier == 'thorough'; ASAN = AR.asan
S = ctypes.CDLL(AR.dir + '/qpSWIFT.so'); R = ctypes.CDLL(AR.dir + '/libref.so'); libc = ctypes.CDLL(None)
for f in ('sh_points', 'sh_fired', 'sh_windows', 'sh_live', 'sh_allocs'): getattr(S, f).restype = ctypes.c_long
CB = ctypes.CFUNCTYPE(None); D = ctypes.c_double; E = Eng(); gc.disable()
warnings.simplefilter('always'); warnings.showwarning = lambda *a, **k: None
f8 = lambda *a: np.array(a, dtype=np.float64)
I = np.eye
# ---------------------------------------------------------------- problems (all data exactly representable in float16)
def P_(name, c, h, P, G, A=None, b=None, reg=True): return dict(name=name, c=f8(*c), h=f8(*h), P=np.array(P, float).reshape(len(c), len(c)), G=np.array(G, float).reshape(len(h), len(c)), A=None if A is None else np.array(A, float).reshape(len(b), len(c)), b=None if b is None else f8(*b), reg=reg)
PR = [P_('one-variable', [-1], [0.5], [1], [1]), P_('two-variables', [-3, 1], [1, 3], [2, 1, 1, 2], [1, 1, -1, 2]),
      P_('box+equality', [1, -2, 0.5], [1, 1, 1, 0.25], [2, 0.5, 0, 0.5, 1.5, 0, 0, 0, 1], [1, 0, 0, 0, 1, 0, 0, 0, 1, -1, 0, 0], [1, 1, 1], [1]),
      P_('constant-c-h', [-1, -1, -1], [0.25, 0.25, 0.25], [2, 1, 0, 1, 2, 0, 0, 0, 1], [1, 0, 0, 0, 1, 0, 0, 0, 1]),
      P_('infeasible', [0, 1], [-1, -1], [1, 0, 0, 1], [1, 0, -1, 0], reg=False),
      P_('chain', [0.5, -1, 1, -0.5, 2, 0], [1, 1, 1, 1, 1, 1, 1, 1], np.diag([2., 1, 2, 1, 2, 1]) + np.diag([.5] * 5, 1) + np.diag([.5] * 5, -1), np.vstack([np.eye(6), -np.eye(6)[:2]]), [[1, -1, 0, 0, 0, 0], [0, 0, 1, 1, 0, -1]], [0.25, 0.5]),
      P_('no-inequalities', [1, -1], [], [2, 0, 0, 1], [], [1, 1], [1]),
      P_('square', [1, 2], [1, 4], [2, 1, 1, 2], [2, 1, 1, 2], [2, 1, 1, 2][:2], [1])]
NAMES = ['c', 'h', 'P', 'G', 'A', 'b']
def args_of(q): return [q[k] for k in NAMES if q[k] is not None]
def dp(a): return a.ctypes.data_as(ctypes.c_void_p) if a is not None else None
_rc = {}
def ref(q, maxit=-1, at=-1., rt=-1., sg=-1.):
    key = (q['name'], maxit, at, rt, sg)
    if key in _rc: return _rc[key]
    n, m = len(q['c']), len(q['h']); p = 0 if q['b'] is None else len(q['b']); x, y, z, s, info = np.zeros(n), np.zeros(p), np.zeros(m), np.zeros(m), np.zeros(11); L = ctypes.c_long
    k = [np.ascontiguousarray(q[t]) if q[t] is not None else None for t in 'PAGchb']
    R.ref_run(L(n), L(m), L(p), dp(k[0]), dp(k[1]), dp(k[2]), dp(k[3]), dp(k[4]), dp(k[5]), L(maxit), D(at), D(rt), D(sg), dp(x), dp(y), dp(z), dp(s), dp(info))
    _rc[key] = r = dict(x=x, y=y, z=z, s=s, it=int(info[0]), flag=int(info[1]), fval=info[2], ts=info[3], tl=info[4], tk=info[5], tf=info[6], opt=info[7:11]); return r
def close(a, b, reg): return a.shape == b.shape and (a.tobytes() == b.tobytes() or bool(np.all(np.abs(a - b) <= 1e-8 * (1 + np.abs(b)))) or not reg)
def check(q, res, level, o={}, times=True):
    """the result of run() against the library's, field by field"""
    r = ref(q, **o); reg = q['reg']; p = 0 if q['b'] is None else len(q['b'])
    if type(res) is not dict: E.violation('run() returned %r' % type(res))
    want = {'sol'} | ({'basicInfo'} if level in (1, 2) else set()) | ({'advInfo'} if level == 2 else set())
    if set(res) != want: E.violation('output level %r: fields %s instead of %s' % (level, sorted(res), sorted(want)))
    arrs = [('sol', res['sol'], r['x'])]
    if level in (1, 2):
        B = res['basicInfo']
        if type(B) is not dict or set(B) != {'ExitFlag', 'Iterations', 'Setup_Time', 'Solve_Time'}: E.violation('basicInfo has fields %s' % sorted(B))
        if type(B['ExitFlag']) is not int or B['ExitFlag'] != r['flag']: E.violation('ExitFlag %r, library %d' % (B['ExitFlag'], r['flag']))
        if type(B['Iterations']) is not int or (B['Iterations'] != r['it'] and reg): E.violation('Iterations %r, library %d' % (B['Iterations'], r['it']))
        for k, t in (('Setup_Time', 'ts'), ('Solve_Time', 'tl')):
            if not isinstance(B[k], float) or not B[k] >= 0: E.violation('%s = %r' % (k, B[k]))
            if times and B['Iterations'] == r['it'] and abs(B[k] - r[t]) > 1e-6 * (1 + r[t]): E.violation('%s = %r, library %r under the same clock' % (k, B[k], r[t]))
    if level == 2:
        A = res['advInfo']; want = {'fval', 'kktTime', 'ldlTime', 'z', 's'} | ({'y'} if q['b'] is not None else set())
        if type(A) is not dict or set(A) != want: E.violation('advInfo has fields %s instead of %s' % (sorted(A), sorted(want)))
        if not isinstance(A['fval'], float) or not close(np.array([A['fval']]), np.array([r['fval']]), reg): E.violation('fval %r, library %r' % (A['fval'], r['fval']))
        for k, t in (('kktTime', 'tk'), ('ldlTime', 'tf')):
            if not isinstance(A[k], float) or (times and B['Iterations'] == r['it'] and abs(A[k] - r[t]) > 1e-6 * (1 + r[t])): E.violation('%s = %r, library %r under the same clock' % (k, A[k], r[t]))
        arrs += [('z', A['z'], r['z']), ('s', A['s'], r['s'])] + ([('y', A['y'], r['y'])] if q['b'] is not None else [])
    for k, a, w in arrs:
        if type(a) is not np.ndarray or a.dtype != np.float64 or a.ndim != 1: E.violation('%s is %r' % (k, a))
        if not close(a, w, reg): E.violation('%s = %s, library %s' % (k, a, w))
    return [a for _, a, _ in arrs]
def call(a, kw={}): return qpSWIFT.run(*a, **kw)
def raises(a, kw={}):
    """None when run() accepted the call, else the exception"""
    try: call(a, kw); return None
    except Exception as e: return e
def snapshot(a): return [(x.tobytes(), x.shape, x.strides, x.dtype, x.flags.writeable) if isinstance(x, np.ndarray) and x.dtype != object else None for x in a]
def nokeep(f, what, objs=()):
    """repeating the call must not change reference counts, the interpreter's block count or the library's ledger"""
    f(); f(); rc = [sys.getrefcount(o) for o in objs]; l0 = S.sh_live(); b0 = sys.getallocatedblocks(); f(); b1 = sys.getallocatedblocks(); f(); b2 = sys.getallocatedblocks(); rc2 = [sys.getrefcount(o) for o in objs]
    if S.sh_live() != l0: E.violation('%s: %d library allocations not released' % (what, S.sh_live() - l0))
    if rc != rc2: E.violation('%s: reference counts of the arguments changed from %s to %s over two calls' % (what, rc, rc2))
    if b1 > b0 and b2 > b1 and not ASAN:
        for _ in range(150): f()  # the interpreter's own free lists fill up
        b = sys.getallocatedblocks()
        for _ in range(20): f()
        d = sys.getallocatedblocks() - b
        if d >= 20: E.violation('%s: %d interpreter memory blocks kept per call' % (what, d // 20))
FLOAT64 = np.dtype(np.float64); COMMON = [FLOAT64, np.ndarray, dict, float]
# ---------------------------------------------------------------- memory layouts of a valid argument
class Sub(np.ndarray): pass
class Hook(np.ndarray):  # a subclass with Python-level hooks
    def __array_finalize__(self, o): pass
def L_c(a): return np.ascontiguousarray(a).copy()
def L_f(a): return np.asfortranarray(a).copy('F')
def L_stride(a): w = np.full([2 * d + 1 for d in a.shape], np.nan); v = w[tuple(slice(0, 2 * d, 2) for d in a.shape)]; v[...] = a; return v
def L_neg(a): w = a[tuple(slice(None, None, -1) for _ in a.shape)].copy(); return w[tuple(slice(None, None, -1) for _ in a.shape)]
def L_neglast(a): w = a[..., ::-1].copy(); return w[..., ::-1]
def L_trans(a): return a.T.copy().T
def L_unal(a): w = np.zeros(a.size * 8 + 9, np.uint8); v = np.frombuffer(w.data, np.float64, a.size, 1).reshape(a.shape); v[...] = a; return v
def L_swap(a): return a.astype('>f8')
def L_swapstride(a): return L_stride(a).astype('>f8') if a.ndim == 1 else np.asfortranarray(a.astype('>f8'))
def L_ro(a): w = a.copy(); w.flags.writeable = False; return w
def L_sub(a): return a.copy().view(Sub)
def L_hook(a): return a.copy('F').view(Hook)
def L_f2(a): return a.astype(np.float16)
def L_f4(a): return a.astype(np.float32)
def L_ld(a): return a.astype(np.longdouble)
def L_f4sw(a): return a.astype('>f4')
def L_f4F(a): return np.asfortranarray(a.astype(np.float32))
def L_ldstride(a): return L_stride(a).astype(np.longdouble)[...]
def L_bcast(a):
    if a.ndim == 2 and a.size and (a == a[:1]).all(): return np.broadcast_to(a[0].copy(), a.shape)
    if a.size and (a == a.flat[0]).all(): return np.broadcast_to(np.float64(a.flat[0]), a.shape)
    return a.copy()
def L_slice3(a): w = np.full((2,) + a.shape + (3,), np.nan); w[1, ..., 1] = a; return w[1, ..., 1]
def L_rec(a): w = np.zeros(a.shape, dtype=[('t', 'i1'), ('v', 'f8')]); w['v'] = a; return w['v']  # a field of packed records: unaligned and strided
LAY = [L_c, L_f, L_stride, L_neg, L_neglast, L_trans, L_unal, L_swap, L_swapstride, L_ro, L_sub, L_hook, L_f2, L_f4, L_ld, L_f4sw, L_f4F, L_ldstride, L_bcast, L_slice3, L_rec]
LQ = [L_c, L_f, L_stride, L_neg, L_unal, L_swap, L_f4, L_rec]
def lay_run(it):
    qi, lays, lev = it; q = PR[qi]; a = [l(x) for l, x in zip(lays, args_of(q))]; s0 = snapshot(a); rc = [sys.getrefcount(x) for x in a]
    E.at('%s layouts %s' % (q['name'], [l.__name__[2:] for l in lays])); S.sh_clock(ctypes.c_long(1000000))
    res = call(a, dict(opts={'OUTPUT': lev})); check(q, res, lev)
    if snapshot(a) != s0: E.violation('an input was modified')
    if [sys.getrefcount(x) for x in a] != rc: E.violation('reference counts of the inputs changed')
    for x in a:
        for y in res.values():
            if isinstance(y, np.ndarray) and np.shares_memory(x, y): E.violation('a result shares memory with an input')
    E.count('evaluations'); E.count('nontrivial')
lay = []
for qi, q in enumerate(PR):
    k = len(args_of(q))
    for i in range(k):
        for l in LAY:
            for lev in (1, 2, 0): lay.append((qi, [l if j == i else L_c for j in range(k)], lev))
    for i, j in itertools.combinations(range(k), 2):
        for l1 in LAY:
            for l2 in LAY: lay.append((qi, [l1 if t == i else l2 if t == j else L_c for t in range(k)], 2))
if not ASAN:
    for qi in ([1, 2, 5] if TH else [1]):
        for ls in itertools.product(*[LAY if TH and t < 4 and qi == 1 else LQ if t < 4 else LQ[:3] for t in range(len(args_of(PR[qi])))]): lay.append((qi, list(ls), 2))
E.family('layouts', lay, lay_run)
# ---------------------------------------------------------------- special values in every data position
SV = [float('inf'), float('-inf'), float('nan'), -0.0, 5e-324, -2.2250738585072014e-308, 1e30, -1e30, 1e300, 1.7976931348623157e308, 1e-30, 1 + 2**-52, 0.1]
def eqn(a, b): a, b = np.asarray(a, float), np.asarray(b, float); return a.shape == b.shape and bool(np.all((a == b) & (np.signbit(a) == np.signbit(b)) | np.isnan(a) & np.isnan(b)))
def sp_run(it):
    qi, k, j, vi, li, lev = it; q = dict(PR[qi], name='special %s' % (it[:4],), reg=False); q[k] = q[k].copy(); q[k].flat[j] = SV[vi]
    a = [LAY[li](x) for x in args_of(q)]; s0 = snapshot(a); E.at('%s: entry %d of %s = %r, layout %s' % (PR[qi]['name'], j, k, SV[vi], LAY[li].__name__[2:])); S.sh_clock(ctypes.c_long(1000000))
    res = call(a, dict(opts={'OUTPUT': lev})); r = ref(q); got = dict(zip(['x', 'z', 's', 'y'], check(q, res, lev)))
    if 'basicInfo' in res and res['basicInfo']['Iterations'] != r['it']: E.violation('Iterations %r, library %d' % (res['basicInfo']['Iterations'], r['it']))
    if 'advInfo' in res: got['fval'] = res['advInfo']['fval']
    for t, v in got.items():
        if not eqn(v, r[t]): E.violation('%s = %s, library %s' % (t, v, r[t]))
    if snapshot(a) != s0: E.violation('an input was modified')
    E.count('evaluations'); E.count('nontrivial')
E.family('special-values', [(qi, k, j, vi, li, lev) for qi in range(len(PR)) for k in NAMES if PR[qi][k] is not None for j in range(PR[qi][k].size) for vi in range(len(SV)) for li in ([LAY.index(l) for l in (L_c, L_f, L_stride, L_swap, L_ro, L_rec)] if TH else [LAY.index(l) for l in (L_c, L_f)]) for lev in (2, 1, 0) if lev == 2 or vi < 4], sp_run)
# ---------------------------------------------------------------- acceptance: shapes, element types, argument kinds
def acceptable(a, A, b):
    """the documented domain: floating arrays of consistent shape; None = unspecified"""
    c, h, P, G = a
    for x in a: 
        if not isinstance(x, np.ndarray) or x.dtype.kind != 'f': return False
    if c.ndim != 1 or h.ndim != 1 or P.ndim != 2 or G.ndim != 2: return False
    n, m = len(c), len(h)
    if P.shape != (n, n) or G.shape != (m, n): return False
    if A is not None or b is not None:
        for x in (A, b):
            if x is not None and not isinstance(x, np.ndarray): return False
        if A is None or b is None: return None
        if A.dtype.kind != 'f' or b.dtype.kind != 'f' or b.ndim != 1 or A.ndim != 2 or A.shape != (len(b), n): return False
    return True if n > 0 else None
def accept_case(a, A, b, what, leak=False):
    E.at(what); want = acceptable(a, A, b); kw = {}
    if A is not None: kw['A'] = A
    if b is not None: kw['b'] = b
    e = raises(a, kw); E.count('evaluations')
    if want is False: E.count('nontrivial')
    if want is True and e is not None: E.violation('valid arguments rejected: %r' % e)
    if want is False and e is None: E.violation('invalid arguments accepted')
    if e is not None and not isinstance(e, TypeError): E.violation('%s instead of TypeError: %s' % (type(e).__name__, e))
    if leak: nokeep(lambda: raises(a, kw), 'accepted call' if e is None else 'rejected call', [x for x in list(a) + [A, b] if x is not None] + COMMON)
def shape_run(it):
    cn, hn, lo, hi = it
    for d in itertools.product(range(lo, hi), repeat=4):
        a = [np.ones(cn), np.ones(hn), np.eye(d[0], d[1]), np.zeros((d[2], d[3]))]; accept_case(a, None, None, 'shapes c(%d) h(%d) P(%d,%d) G(%d,%d)' % ((cn, hn) + d))
E.family('shapes', [(c, h, 0, 5 if TH else 4) for c in range(5 if TH else 4) for h in range(5 if TH else 4)], shape_run)
def shape_run2(it):
    n, m = it; hi = 5 if TH else 4
    for d in itertools.product(range(0, hi), repeat=3):
        for pd in ((n, n), (n + 1, n)):
            a = [np.ones(n), np.ones(m), np.eye(*pd), np.zeros((m, n))]; accept_case(a, np.eye(d[0], d[1]), np.zeros(d[2]), 'shapes n=%d m=%d P%s A(%d,%d) b(%d)' % (n, m, pd, d[0], d[1], d[2]))
E.family('shapes-equalities', [(n, m) for n in range(4) for m in range(4)], shape_run2)
DT = ['f2', 'f4', 'f8', 'g', '>f8', '>f4', 'i8', 'i4', 'u1', '?', 'c8', 'c16', 'O', 'S8', 'U4', 'M8[s]', 'm8[s]', 'V8', [('x', 'f8')]]
def conv(x, dt):
    if dt in ('M8[s]', 'm8[s]'): return x.astype('i8').astype(dt)
    if isinstance(dt, list) or dt == 'V8': return np.zeros(x.shape, dt)
    return x.astype(dt)
def dt_run(it):
    qi, dts, leak = it; q = PR[qi]; a = [conv(x, d) for x, d in zip(args_of(q), dts)]
    accept_case(a[:4], *(a[4:6] if len(a) > 4 else (None, None)), '%s element types %s' % (q['name'], dts), leak)
dts = []
for qi in (1, 2): k = len(args_of(PR[qi])); dts += [(qi, [d if j == i else 'f8' for j in range(k)], True) for i in range(k) for d in DT]; dts += [(qi, [d if j == i else e if j == l else 'f8' for j in range(k)], False) for i, l in itertools.combinations(range(k), 2) for d in DT for e in DT]
dts += [(1, list(t), False) for t in itertools.product(DT if TH else ['f8', 'f4', 'i8', 'c16', '?', 'O'], repeat=4)]
E.family('element-types', dts, dt_run)
def nd(x, k):
    if k == 0: return np.float64(1.0).reshape(()) if not isinstance(x, np.ndarray) else np.array(1.0)
    if k == 1: return np.ones(len(x))
    if k == 2: return np.ones((len(x), len(x)))
    if k == 3: return np.ones((len(x), 1))
    if k == 4: return np.ones((1, len(x)))
    if k == 5: return np.ones((len(x), 1, 1))
    if k == 6: return np.ones((1,) * 32)
    if k == 7: return np.array([], float)
    if k == 8: return np.ones((0, 0))
    return x
def nd_run(it):
    qi, ks, leak = it; q = PR[qi]; a = [nd(x, k) for x, k in zip(args_of(q), ks)]
    accept_case(a[:4], *(a[4:6] if len(a) > 4 else (None, None)), '%s dimensions %s' % (q['name'], [x.shape for x in a]), leak)
nds = [(qi, [k if j == i else 9 for j in range(len(args_of(PR[qi])))], True) for qi in (0, 1, 2, 3, 7) for i in range(len(args_of(PR[qi]))) for k in range(9)]
nds += [(qi, list(t), False) for qi in (0, 1) for t in itertools.product(range(10), repeat=4)] + [(2, [9] * 4 + list(t), False) for t in itertools.product(range(10), repeat=2)]
E.family('dimensions', nds, nd_run)
class Arr:  # array-like, but not an array
    def __array__(self, *a): return np.ones(2)
OBJ = lambda: [None, 1, 1.0, [1.0, 2.0], (1.0,), 'x', b'x', {}, np.float64(1), Arr(), memoryview(np.ones(2)), np, object(), range(2), set(), Exception, float]
def obj_run(it):
    qi, pos, oi, kwform = it; q = PR[qi]; a = args_of(q); o = OBJ()[oi]; n = NAMES + ['opts']; full = a + [None] * (7 - len(a)); E.at('%s: %s = %r' % (q['name'], n[pos], type(o)))
    use = dict(zip(n, full)); use = {k: v for k, v in use.items() if v is not None}; use[n[pos]] = o
    if pos == 6 and type(o) is dict: return
    f = (lambda: raises([], use)) if kwform else (lambda: raises([use[k] for k in NAMES[:4]], {k: v for k, v in use.items() if k not in NAMES[:4]}))
    e = f(); E.count('evaluations'); E.count('nontrivial')
    if not isinstance(e, TypeError): E.violation('%r instead of TypeError' % e)
    nokeep(f, 'rejected call', [o] + a + COMMON)
E.family('other-objects', [(qi, pos, o, k) for qi in (1, 2) for pos in range(7) for o in range(len(OBJ())) for k in (0, 1)], obj_run)
# ---------------------------------------------------------------- calling conventions
def conv_run(it):
    qi, npos, order = it; q = PR[qi]; a = args_of(q); names = NAMES[:len(a)]; o = {'OUTPUT': 2}; full = a + ([o] if len(a) == 6 else []); nm = names + (['opts'] if len(a) == 6 else [])
    kw = {nm[i]: full[i] for i in order}; 
    if len(a) < 6: kw['opts'] = o
    E.at('%s: %d positional, keywords %s' % (q['name'], npos, list(kw))); S.sh_clock(ctypes.c_long(1000000)); check(q, call(full[:npos], kw), 2); E.count('evaluations'); E.count('nontrivial')
cv = []
for qi in (1, 2, 3, 7):
    k = len(args_of(PR[qi])); k += k == 6
    for npos in range(k + 1):
        for order in itertools.islice(itertools.permutations(range(npos, k)), 5040 if TH else 120): cv.append((qi, npos, order))
E.family('calling-conventions', cv, conv_run)
def arity_run(it):
    qi, kind, k = it; q = PR[qi]; a = args_of(q); kw = {}; full = a + ([{}] if len(a) == 6 else [])
    if kind == 0: a2 = full[:k]; ok = k >= 4 and (len(a) == 4 or k != 5)
    if kind == 0 and len(a) == 6 and k == 5: return
    if kind == 1: a2 = full + [{}] * (k + 1 + (7 - len(full) if len(full) < 7 else 0)); ok = False; a2 = (a + [None] * 3)[:7] + [{}] * (k + 1)
    if kind == 2: a2 = a[:4]; kw = {NAMES[k]: a[k % 4]} if k < 4 else {['X', 'C', 'p', '', 'option'][k - 4]: a[0]}; ok = False
    if kind == 3: a2 = []; kw = {n: v for i, (n, v) in enumerate(zip(NAMES, a)) if i != k}; ok = k >= len(a) or (k in (4, 5) and None)
    if kind == 3 and k in (4, 5) and len(a) == 6: return
    E.at('%s arity kind %d k %d' % (q['name'], kind, k)); e = raises(a2, kw); E.count('evaluations'); E.count('nontrivial')
    if ok and e is not None: E.violation('rejected: %r' % e)
    if not ok and not isinstance(e, TypeError): E.violation('%r instead of TypeError' % e)
    nokeep(lambda: raises(a2, kw), 'call', a + COMMON)
E.family('arity', [(qi, kind, k) for qi in (1, 2) for kind in range(4) for k in range(9 if kind == 2 else 8 if kind == 0 else 6)], arity_run)
# ---------------------------------------------------------------- options
class MyInt(int): pass
class MyFloat(float): pass
BADO = ['x', None, [], {}, (), b'1', 1j, object, np]
OPT = {  # key: (accepted values, rejected values); values whose status is not documented are left out
 'MAXITER': ([1, 2, 5, 100, 199, MyInt(7)], [0, -1, 200, 201, 10**6, 2**31, 2**32 + 5, 2**63 - 1, 2**63, 2**64 + 5, -2**63, -2**70, 5.0, 0.5, float('nan')] + BADO),
 'ABSTOL': ([1e-6, 1e-3, 0.5, 1 - 2**-53, 1e-12, 5e-324, np.float64(1e-4), MyFloat(1e-5)], [0.0, -0.0, 1.0, -1e-6, 2.0, float('inf'), float('-inf'), float('nan'), 0, 1, -1, 2**70] + BADO),
 'RELTOL': ([1e-6, 1e-3, 0.5, 1 - 2**-53, 1e-12, 5e-324, np.float64(1e-4), MyFloat(1e-5)], [0.0, -0.0, 1.0, -1e-6, 2.0, float('inf'), float('-inf'), float('nan'), 0, 1, -1, 2**70] + BADO),
 'SIGMA': ([100.0, 1.0, 0.5, 1e-3, 1e6, np.float64(10.0), MyFloat(3.0)], [0.0, -0.0, -1.0, float('nan'), float('-inf'), -1] + BADO),
 'VERBOSE': ([0, 1, 2, 2**40, MyInt(0)], [-1, -2**40, -2**63, -2**70, 2**64, 0.0, 1.0, float('nan')] + BADO),
 'OUTPUT': ([0, 1, 2, 3, 10, 2**32 + 1, 2**40, MyInt(1), MyInt(2)], [])}
OWARN = [-1, -2, 1.0, 2.0, 'x', None, 2**70, -2**70]  # OUTPUT: anything else means the solution only, with a warning
KW = {'MAXITER': 'maxit', 'ABSTOL': 'at', 'RELTOL': 'rt', 'SIGMA': 'sg'}
def silent(f):
    """run f with file descriptor 1 redirected; the number of bytes printed"""
    sys.stdout.flush(); libc.fflush(None); t = tempfile.TemporaryFile(); sv = os.dup(1); os.dup2(t.fileno(), 1)
    try: r = f()
    finally: libc.fflush(None); os.dup2(sv, 1); os.close(sv)
    n = os.fstat(t.fileno()).st_size; t.seek(0); LOG[0] = t.read() if n else b''; t.close(); return r, n
LOG = [b'']
def settings_line(q, o, vb):
    """the settings printed before the iterations are those in force"""
    want = dict(zip(('Maximum Iterations', 'ABSTOL', 'RELTOL', 'SIGMA'), ref(q, **o)['opt'])); want['VERBOSE'] = vb
    for k, v in want.items():
        f = re.findall(rb'^[ \t]*' + k.encode() + rb'[ \t]*:[ \t]*(\S+)', LOG[0], re.M)
        if len(f) != 1: E.violation('%s is printed %d times' % (k, len(f)))
        elif abs(float(f[0]) - float(v)) > 1e-6 * abs(float(v)): E.violation('%s is printed as %s, the value in force is %r' % (k, f[0].decode(), v))
def opt_ok(q, opts, leak=False):
    """all option values in opts are documented as valid"""
    o = {KW[k]: (int if k == 'MAXITER' else float)(v) for k, v in opts.items() if k in KW}; lev = opts.get('OUTPUT', 10); lev = lev if type(lev) in (int, MyInt) and lev in (1, 2) else 0
    a = args_of(q); before = list(opts.items()); S.sh_clock(ctypes.c_long(1000000)); S.sh_reset(); E.at('%s options %s' % (q['name'], opts)); vb = opts.get('VERBOSE', 0)
    if len(a) == 6: (res, n) = silent(lambda: call(a + [opts]))
    else: (res, n) = silent(lambda: call(a, dict(opts=opts)))
    q2 = q if not (o.get('at', 1) < 1e-10 or o.get('rt', 1) < 1e-10) else dict(q, reg=False); r = ref(q2, **o)
    check(q2, res, lev, o, times=True)
    if vb == 0 and n: E.violation('%d bytes printed at verbosity 0' % n)
    if vb: settings_line(q2, o, int(vb))
    if list(opts.items()) != before: E.violation('the options dictionary was modified')
    E.count('evaluations'); E.count('nontrivial')
    if leak: nokeep(lambda: silent(lambda: call(a, dict(opts=opts)) if len(a) < 6 else call(a + [opts])), 'call', a + [opts] + list(opts.values()) + COMMON)
def opt_bad(q, opts, leak=False):
    a = args_of(q); E.at('%s options %s' % (q['name'], opts)); rc = [sys.getrefcount(v) for v in opts.values()]; e = raises(a, dict(opts=opts)); E.count('evaluations'); E.count('nontrivial')
    if e is None: E.violation('invalid option accepted')
    if not isinstance(e, TypeError): E.violation('%s instead of TypeError: %s' % (type(e).__name__, e))
    e = None
    if leak: nokeep(lambda: raises(a, dict(opts=opts)), 'rejected option', a + [opts] + list(opts.values()) + COMMON)
def opt_run(it): (opt_ok if it[1] else opt_bad)(PR[it[0]], dict(it[2]), it[3])
ol = [(qi, True, (), True) for qi in range(len(PR))]
for k, (g, b) in OPT.items():
    for qi in range(len(PR)): ol += [(qi, True, ((k, v),), True) for v in g]
    for qi in (1, 2): ol += [(qi, False, ((k, v),), True) for v in b]
for k1, k2 in itertools.permutations(OPT, 2):  # pairs, both insertion orders
    for v1 in OPT[k1][0][:5]:
        ol += [(2, True, ((k1, v1), (k2, v2)), False) for v2 in OPT[k2][0][:5]]; ol += [(1, False, ((k1, v1), (k2, v2)), False) for v2 in OPT[k2][1]]
    ol += [(1, False, ((k1, v1), (k2, v2)), False) for v1 in OPT[k1][1][::3] for v2 in OPT[k2][1][::3]]
for vals in itertools.product([None, 1, 3, 100], [None, 1e-3, 1e-9], [None, 1e-3, 1e-9], [None, 0.5], [None, 0, 1], [None, 1, 2]):
    for qi in ((1, 2, 4, 6) if not TH else range(len(PR))): ol.append((qi, True, tuple((k, v) for k, v in zip(OPT, vals) if v is not None), False))
E.family('options', ol, opt_run)
def warn_run(it):
    qi, v, mode = it; q = PR[qi]; a = args_of(q); o = {'OUTPUT': v}; E.at('%s OUTPUT=%r warnings %s' % (q['name'], v, mode)); E.count('evaluations'); E.count('nontrivial')
    def go():
        with warnings.catch_warnings():
            warnings.simplefilter(mode); warnings.showwarning = lambda *a, **k: None
            try: return call(a, dict(opts=o))
            except Exception as e: return e.with_traceback(None)
    r = go()
    if isinstance(r, dict): check(q, r, 0)
    elif mode == 'error':
        if not isinstance(r, (UserWarning, TypeError)): E.violation('%r' % r)
    else: E.violation('documented output level "anything else" rejected: %r' % r)
    r = None; nokeep(go, 'call with an unusual output level', a + [o, v] + COMMON)
E.family('output-warning', [(qi, v, m) for qi in (1, 2) for v in OWARN for m in ('ignore', 'always', 'error')], warn_run)
# ---------------------------------------------------------------- results own their memory; inputs may overlap
def alias_run(it):
    qi, lev = it; q = PR[qi]; a = [x.copy() for x in args_of(q)]; E.at('%s level %d' % (q['name'], lev)); s0 = snapshot(a); S.sh_clock(ctypes.c_long(1000000))
    r1 = call(a, dict(opts={'OUTPUT': lev})); A1 = check(q, r1, lev); k1 = [x.copy() for x in A1]; S.sh_clock(ctypes.c_long(1000000)); r2 = call(a, dict(opts={'OUTPUT': lev})); A2 = check(q, r2, lev)
    allr = A1 + A2
    for i, x in enumerate(allr):
        for y in allr[i + 1:]:
            if np.shares_memory(x, y): E.violation('two results share memory')
        for y in a:
            if np.shares_memory(x, y): E.violation('a result shares memory with an input')
        if not x.flags.writeable or not x.flags.aligned or not x.flags.c_contiguous: E.violation('a result array is not an ordinary array: %s' % x.flags)
    for x in A2: x[:] = np.nan
    for x, y in zip(A1, k1):
        if x.tobytes() != y.tobytes(): E.violation('an earlier result changed')
    for x in A1: x[:] = -7
    if snapshot(a) != s0: E.violation('an input changed')
    for d in (r1, r1.get('basicInfo'), r1.get('advInfo')):
        if d is not None and sys.getrefcount(d) > 4: E.violation('a result dictionary has %d references' % sys.getrefcount(d))
    d = dict(r1); r1.clear(); B = d.pop('basicInfo', None); C = d.pop('advInfo', None); d.clear(); B = C = None; x = r1 = None
    z = A1.pop(); allr = None; y = x = None; n = sys.getrefcount(z)
    if n > 2: E.violation('a result array keeps %d references after the result is dropped' % (n - 1))
    E.count('evaluations'); E.count('nontrivial')
E.family('result-ownership', [(qi, l) for qi in range(len(PR)) for l in (0, 1, 2)], alias_run)
def overlap_run(it):
    eq = it; v = f8(1, 2); M = np.array([[2., 1], [1, 2]]); h = f8(4, 4); big = np.array([2., 1, 1, 2, 1, 2, 4, 4]); E.at('overlapping inputs %d' % it); S.sh_clock(ctypes.c_long(1000000))
    forms = [(v, v, M, M, None, None), (v, v, M, M, M[:1], v[:1]), (M[0], M[1], M, M.T, None, None), (big[4:6], big[6:8], big[:4].reshape(2, 2), big[:4].reshape(2, 2, order='F'), None, None), (M[0], M[:, 0], M, M[::-1], None, None), (big[4:6], big[5:7], big[:4].reshape(2, 2), big[1:5].reshape(2, 2), big[2:4].reshape(1, 2), big[3:4])]
    f = forms[eq]; q = dict(name='overlap%d' % eq, reg=True); q.update({k: None if x is None else np.ascontiguousarray(x).copy() for k, x in zip('chPG', f)}); q['A'] = None if f[4] is None else np.ascontiguousarray(f[4]).copy(); q['b'] = None if f[5] is None else f[5].copy()
    a = [x for x in f if x is not None]; res = call(a, dict(opts={'OUTPUT': 2})); check(q, res, 2); E.count('evaluations'); E.count('nontrivial'); nokeep(lambda: call(a), 'call', [v, M, big] + COMMON)
E.family('overlapping-inputs', list(range(6)), overlap_run)
# ---------------------------------------------------------------- the lock-free window
PAGE = 4096
def place(a, hold):
    """a copy of a in pages of its own, known to the shim"""
    n = max(1, a.nbytes); mp = (n + PAGE - 1) // PAGE * PAGE; mm = mmap.mmap(-1, mp); v = np.frombuffer(mm, dtype=a.dtype, count=a.size)
    v = v.reshape(a.shape); v[...] = a; hold.append(mm); addr = v.ctypes.data if a.size else ctypes.addressof(ctypes.c_char.from_buffer(mm)); S.sh_buf(ctypes.c_void_p(addr), ctypes.c_long(a.nbytes), ctypes.c_long(mp)); return v
WL = [lambda a: a, lambda a: a.astype(np.float32), lambda a: np.ascontiguousarray(a.T)]
def win_args(q, lay):
    S.sh_reset(); hold = []; out = []
    for x in args_of(q):
        w = x.astype(np.float32) if lay == 1 else x.T.copy() if lay == 2 else x.astype('>f8') if lay == 3 else x
        v = place(w, hold); out.append(v.T if lay == 2 else v)
    return out, hold
def place_view(w, hold):
    """the array w moved into pages of its own: same shape, strides, alignment, type and flags"""
    if not w.size: return w
    lo, hi = BB(w); off = lo % 64; mp = (hi - lo + off + PAGE - 1) // PAGE * PAGE; mm = mmap.mmap(-1, mp); mm[off:off + hi - lo] = ctypes.string_at(lo, hi - lo); hold.append(mm)
    v = np.ndarray(w.shape, w.dtype, mm, off + w.ctypes.data - lo, w.strides)
    if type(w) is not np.ndarray: v = v.view(type(w))
    v.flags.writeable = w.flags.writeable; S.sh_buf(ctypes.c_void_p(ctypes.addressof(ctypes.c_char.from_buffer(mm))), ctypes.c_long(mp), ctypes.c_long(mp)); return v
BB = getattr(np.lib, 'array_utils', np).byte_bounds
def norm(res): return (res['sol'].tobytes(), res['basicInfo']['ExitFlag'], res['basicInfo']['Iterations'], res['advInfo']['fval'], res['advInfo']['z'].tobytes(), res['advInfo']['s'].tobytes(), res['advInfo'].get('y', np.zeros(0)).tobytes())
def same(q, r0, r1, what): 
    if norm(r0) != norm(r1): E.violation('%s changed the result: %s instead of %s' % (what, r1, r0))
def win_run(it):
    qi, lay, act, vb, sl = it; q = PR[qi]; L = ctypes.c_long; o = {'OUTPUT': 2, 'VERBOSE': vb}
    a, hold = win_args(q, lay); S.sh_clock(L(1000000)); S.sh_arm(L(-1), 0, None); r0, _ = silent(lambda: call(a, dict(opts=o))); N = S.sh_points(); check(q, r0, 2)
    names = {1: 'filling the inputs with 0xff', 2: 'zeroing the inputs', 3: 'making the inputs inaccessible'}
    vals = [x.copy() for x in a]
    for k in range(sl, N, 4):
        E.at('%s, layout %d: another thread is %s at point %d of %d inside the window without the interpreter lock' % (q['name'], lay, names[act], k, N))
        S.sh_arm(L(k), act, None); r, _ = silent(lambda: call(a, dict(opts=o))); 
        same(q, r0, r, names[act]); E.count('evaluations'); E.count('schedules'); E.count('states'); E.count('transitions', 2); E.count('traces'); E.count('nontrivial')
        for x, v in zip(a, vals): x[...] = v
    E.count('windows', 1)
WQ = [0, 1, 2, 3, 4, 5, 6] if TH or not ASAN else [1, 2]
E.family('inputs-changed-in-window', [(qi, lay, act, vb, sl) for qi in WQ for lay in range(4) for act in (1, 2, 3) for vb in (0, 1) if not vb or (lay == 0 and act == 1) for sl in range(4)], win_run)
def view_run(it):
    """every combination of memory layouts; another thread overwrites the memory behind all of them when the window opens"""
    qi, lays, lev = it; q = PR[qi]; hold = []; S.sh_reset(); a = [place_view(l(x), hold) for l, x in zip(lays, args_of(q))]
    E.at('%s layouts %s, another thread overwrites the memory of the inputs when the lock is released' % (q['name'], [l.__name__[2:] for l in lays])); S.sh_clock(ctypes.c_long(1000000)); S.sh_arm(ctypes.c_long(0), 1, None)
    res = call(a, dict(opts={'OUTPUT': 2})); E.count('evaluations'); E.count('schedules'); E.count('states'); E.count('transitions', 2); E.count('traces'); E.count('nontrivial', S.sh_fired()); S.sh_reset(); check(q, res, 2)
E.family('layouts-overwritten-in-window', [x for x in lay if x[2] == 2], view_run)
def viewall_run(it):
    qi, li, act, sl = it; q = PR[qi]; hold = []; S.sh_reset(); L = ctypes.c_long; a = [place_view(LAY[li](x), hold) for x in args_of(q)]; raw = [mm[:] for mm in hold]
    S.sh_clock(L(1000000)); S.sh_arm(L(-1), 0, None); r0 = call(a, dict(opts={'OUTPUT': 2})); N = S.sh_points(); check(q, r0, 2)
    for k in range(sl, N, 4):
        E.at('%s, layout %s: another thread is changing the memory of the inputs (action %d) at point %d of %d inside the window' % (q['name'], LAY[li].__name__[2:], act, k, N)); S.sh_arm(L(k), act, None); r = call(a, dict(opts={'OUTPUT': 2}))
        same(q, r0, r, 'changing the memory of the inputs'); E.count('evaluations'); E.count('schedules'); E.count('states'); E.count('transitions', 2); E.count('traces'); E.count('nontrivial')
        for mm, b in zip(hold, raw): mm[:] = b
E.family('views-changed-in-window', [(qi, li, act, sl) for qi in (WQ if TH else [1, 2]) for li in range(len(LAY)) for act in ((1, 3) if TH or not ASAN else (1,)) for sl in range(4)], viewall_run)
def win_cb(it):
    qi, act, sl = it; q = PR[qi]; L = ctypes.c_long; S.sh_reset(); a = [x.copy() for x in args_of(q)]; o = {'OUTPUT': 2, 'MAXITER': 50}; S.sh_arm(L(-1), 0, None); r0 = call(a, dict(opts=o)); N = S.sh_points(); box = {}
    def cb():
        try:
            if act == 0: box['o'].clear()
            if act == 1: box['o'].update({'OUTPUT': 'x', 'MAXITER': object(), 'SIGMA': None})
            if act == 2:
                for i, x in enumerate(box['a']): x.shape = x.shape[::-1] if x.ndim == 2 else (1, x.size)
            if act == 3:
                for x in box['a']: x.resize((1000,), refcheck=False)
            if act == 4:
                for x in box['a']: x.resize((0,), refcheck=False)
            if act == 5:
                for j in (1, 2, 4): box['r%d' % j] = (j, call([t.copy() for t in args_of(PR[j])], dict(opts={'OUTPUT': 2})))
            if act == 6: box['e'] = [raises([]), raises(box['a'][:2]), raises([t.copy() for t in args_of(PR[2])], dict(opts={'MAXITER': -1}))]
            if act == 7: box['l'] = [call(box['a'], dict(opts={'OUTPUT': 2, 'MAXITER': 50}))]; gc.collect()
        except Exception as e: box['x'] = e
    C = CB(cb)
    for k in range(sl, N, 8):
        box.clear(); box['o'] = dict(o); box['a'] = [x.copy() for x in a]; E.at('%s: another thread runs action %d at point %d of %d inside the window' % (q['name'], act, k, N)); S.sh_arm(L(k), 4, C)
        r = call(box['a'], dict(opts=box['o'])); E.count('evaluations'); E.count('schedules'); E.count('states'); E.count('transitions', 2); E.count('traces'); E.count('nontrivial', S.sh_fired())
        if 'x' in box: raise box['x']
        same(q, r0, r, ['clearing the options', 'replacing the options', 'reshaping the inputs', 'growing the inputs', 'shrinking the inputs', 'other calls', 'rejected calls', 'the same call'][act])
        if act == 5:
            for j in (1, 2, 4): check(PR[j], box['r%d' % j][1], 2, times=False)
        if act == 6 and not all(isinstance(e, TypeError) for e in box['e']) and S.sh_fired(): E.violation('invalid calls accepted: %s' % box['e'])
        if act == 7 and S.sh_fired(): same(q, r0, box['l'][0], 'running inside another call')
E.family('other-thread-actions', [(qi, act, sl) for qi in ([1, 2, 3, 4, 6] if not ASAN or TH else [1, 2]) for act in range(8) for sl in range(8)], win_cb)
# every size: number of variables, inequalities, equalities one at a time
def sized(kind, N):
    n, m, p = dict(n=(N, 2, 1), m=(2, N, 0), p=(N + 1, 1, N), q=(N, N, 0))[kind]; i = np.arange(n)
    P = np.diag(1. + i % 3) + (np.diag([.25] * (n - 1), 1) + np.diag([.25] * (n - 1), -1) if n > 1 else 0); G = np.zeros((m, n)); A = np.zeros((p, n)); r = np.arange(m)
    if n == 2 and m > 2: G[r, r % 2] = np.where(r % 4 < 2, 1, -1)
    else: G[r, r % n] = 1; G[r, (r + 1) % n] += .5
    A[np.arange(p), np.arange(p)] = 1; 
    if p: A[np.arange(p), np.arange(p) + 1 if n > 1 else 0] += -1 if n > 1 else 0
    return dict(name='%s-%d' % (kind, N), c=(i * 5 % 7 - 3.) / 2, h=1. + r % 5, P=P, G=G, A=A if p else None, b=(np.arange(p) % 3) / 4. if p else None, reg=False)
LZ = [L_c, L_f, L_stride, L_f4, L_swap, L_unal]
def size_run(it):
    kind, N = it; q = sized(kind, N); k = len(args_of(q)); _rc.clear(); S.sh_reset()
    for w in range(3 if TH else 2):
        a = [LZ[(N + w * 3 + (j if w else 0)) % len(LZ)](x) for j, x in enumerate(args_of(q))]; s0 = snapshot(a); lev = (N + w) % 3; E.at('%s variant %d level %d' % (q['name'], w, lev)); S.sh_clock(ctypes.c_long(1000000))
        res = call(a, dict(opts={'OUTPUT': lev})); check(q, res, lev); r = ref(q); got = dict(sol=r['x'], z=r['z'], s=r['s'], y=r['y'])
        if 'basicInfo' in res and res['basicInfo']['Iterations'] != r['it']: E.violation('Iterations %r, library %d' % (res['basicInfo']['Iterations'], r['it']))
        for t in got:
            v = res['sol'] if t == 'sol' else res.get('advInfo', {}).get(t)
            if v is not None and v.tobytes() != got[t].tobytes(): E.violation('%s differs from the library' % t)
        if snapshot(a) != s0: E.violation('an input was modified')
        E.count('evaluations'); E.count('nontrivial')
    if N <= 40 or N % 7 == 1: nokeep(lambda: call(a, dict(opts={'OUTPUT': 2})), 'call', a + COMMON)
    hold = []; a = [place_view(x, hold) for x in a]; E.at('%s, another thread overwrites the memory of the inputs when the lock is released' % q['name']); S.sh_clock(ctypes.c_long(1000000)); S.sh_arm(ctypes.c_long(0), 1, None)
    res = call(a, dict(opts={'OUTPUT': 2})); E.count('evaluations'); E.count('schedules'); E.count('states'); E.count('transitions', 2); E.count('traces'); E.count('nontrivial', S.sh_fired()); S.sh_reset(); check(q, res, 2)
    if res['sol'].tobytes() != r['x'].tobytes(): E.violation('overwriting the inputs while the lock is released changed the result')
SZ = list(range(1, 131)) + [191, 192, 193, 199, 200, 201, 255, 256, 257, 258]; SZL = [300, 399, 400, 401, 499, 500, 501, 511, 512, 513, 600, 999, 1000, 1001, 1023, 1024, 1025]
E.family('sizes', [('m', N) for N in (range(1, 1030) if TH else SZ + SZL)] + [('n', N) for N in (range(1, 300) if TH else SZ)] + [(k, N) for k in 'pq' for N in (SZ if TH else SZ[:70] + [127, 128, 129])], size_run)
# inputs write-protected during the whole call
def ro_run(it):
    qi, lay, vb = it; q = PR[qi]; a, hold = win_args(q, lay); E.at('%s inputs in write-protected memory, layout %d' % (q['name'], lay)); S.sh_protect(1); S.sh_clock(ctypes.c_long(1000000))
    r, _ = silent(lambda: call(a, dict(opts={'OUTPUT': 2, 'VERBOSE': vb}))); S.sh_protect(0); check(q, r, 2); E.count('evaluations'); E.count('nontrivial')
E.family('inputs-write-protected', [(qi, lay, vb) for qi in range(len(PR)) for lay in range(4) for vb in (0, 1)], ro_run)
# ---------------------------------------------------------------- sequences of calls: no state is kept between calls
SEQ = [lambda: ('ok', 1, {'OUTPUT': 2}), lambda: ('ok', 2, {'OUTPUT': 2, 'MAXITER': 3}), lambda: ('ok', 4, {'OUTPUT': 2}), lambda: ('ok', 2, {'OUTPUT': 2, 'RELTOL': 1e-2, 'ABSTOL': 1e-2, 'SIGMA': 0.5}), lambda: ('ok', 5, {'OUTPUT': 2, 'VERBOSE': 1}), lambda: ('bad', 1, {'SIGMA': -1.0}), lambda: ('bad', 2, {'MAXITER': 0}), lambda: ('arg', 1, None), lambda: ('ok', 1, {'OUTPUT': 1}), lambda: ('ok', 3, {})]
def seq_run(it):
    E.at('call sequence %s' % (it,))
    for s in it:
        k, qi, o = SEQ[s]()
        if k == 'ok': opt_ok(PR[qi], o)
        elif k == 'bad': opt_bad(PR[qi], o)
        elif not isinstance(raises([np.ones(2), np.ones(3), np.eye(2), np.eye(2)]), TypeError): E.violation('invalid call accepted')
    E.count('sequences')
E.family('call-sequences', list(itertools.product(range(len(SEQ)), repeat=4 if TH else 3)) if not ASAN or TH else list(itertools.product(range(len(SEQ)), repeat=2)), seq_run)
# the concatenation with the layouts above, on every problem, keeps no memory
def leak_run(it):
    qi, li, lev = it; q = PR[qi]; a = [LAY[li](x) for x in args_of(q)]; o = {'OUTPUT': lev}; E.at('%s all inputs %s level %d' % (q['name'], LAY[li].__name__[2:], lev)); nokeep(lambda: call(a, dict(opts=o)), 'call', a + [o] + COMMON); E.count('evaluations'); E.count('nontrivial')
E.family('nothing-kept', [(qi, l, lev) for qi in range(len(PR)) for l in range(len(LAY)) for lev in (0, 1, 2)], leak_run)
ORD = ['call-sequences', 'other-thread-actions', 'inputs-changed-in-window', 'views-changed-in-window']
E.fams.sort(key=lambda f: ORD.index(f[0]) if f[0] in ORD else 9)
E.main(AR)
