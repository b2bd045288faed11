"""Harness on the conduction response factors of a construction."""
import numpy as np

ALPHA = {False: [2.0e-6, 7.9e-6, 3.1205e-5, 1.2325e-4, 4.8687e-4, 1.9231e-3, 7.5964e-3, 3.0006e-2],
         True: [1.0597e-9, 4.2389e-9, 1.6956e-8, 6.7806e-8, 2.7128e-7, 1.085e-6, 4.3417e-6, 1.7361e-5, 6.94444e-5, 2.77778e-4]}


def _layers(h):
    out = []
    for k, (c, r) in enumerate(h.cfg['layers']):
        if isinstance(c, tuple):
            c = h.inp('c%d' % k, *c)
        if isinstance(r, tuple):
            r = h.inp('r%d' % k, *r)
        out.append({'thermal_capacity': c, 'thermal_resistance': r})
    return out


def _get(h, spec):
    rf = h.mod('initializer.response_factor')
    with h.expect_ok('response factors can be made'):
        o = rf.ResponseFactorFactory.create(spec=spec)
        f = o.get_response_factors()
    if h.cfg.get('twice'):
        with h.expect_ok('response factors can be made again'):
            f2 = o.get_response_factors()
        for nm in ('rfa0', 'rft0'):
            h.check('asking twice gives the same %s' % nm, h.eq(getattr(f, nm), getattr(f2, nm), 1e-9))
        for m in range(len(f.row)):
            h.check('asking twice gives the same terms[%d]' % m, h.And(h.eq(f.rfa1[m], f2.rfa1[m], 1e-9), h.eq(f.rft1[m], f2.rft1[m], 1e-9)))
    return f


def steady(h):
    bt = h.cfg['bt']
    ls = _layers(h)
    spec = {'method': 'layers', 'boundary_type': bt, 'layers': ls}
    R = sum(x['thermal_resistance'] for x in ls)
    if bt == 'ground':
        R = R + 3.0
    else:
        ro = h.cfg['ro']
        if isinstance(ro, tuple):
            ro = h.inp('r_o', *ro)
        spec['outside_heat_transfer_resistance'] = ro
        R = R + ro
    f = _get(h, spec)
    sa, st = f.rfa0, f.rft0
    for m in range(len(f.row)):
        k = float(f.row[m])
        h.check('decay between zero and one[%d]' % m, 0.0 <= k < 1.0)
        sa = sa + f.rfa1[m] * (1.0 / (1.0 - k))
        st = st + f.rft1[m] * (1.0 / (1.0 - k))
    h.check('steady absorption response is the total resistance', h.eq(sa, R, 1e-6))
    h.check('steady transmission response is one', h.eq(st, 1.0, 1e-6))
    h.observe('rfa0', f.rfa0)
    h.observe('rft0', f.rft0)


def _f(name, x):
    from symx import engine as E
    import math
    return E.sfun(name, x) if isinstance(x, E.Sym) else getattr(math, name)(x)


def _sq(x):
    from symx import engine as E
    import math
    return E.ssqrt(x) if isinstance(x, E.Sym) else math.sqrt(x)


def exact(layers, s):
    """Transfer functions of a multi-layer element at the Laplace variable s: surface temperature per unit heat flow with the rear
    held at zero, and surface temperature per unit rear temperature with an adiabatic surface."""
    m = [[1.0, 0.0], [0.0, 1.0]]
    for k, (c, r) in enumerate(layers):
        if not isinstance(c, float) or c > 0.0:
            w = _sq(r * (c * 1000.0) * s)
            ch, sh = _f('cosh', w), _f('sinh', w)
            f = [[ch, r / w * sh], [w / r * sh, ch]]
        else:
            f = [[1.0, r], [0.0, 1.0]]
        if k == 0:
            m = f
        else:
            m = [[m[i][0] * f[0][j] + m[i][1] * f[1][j] for j in range(2)] for i in range(2)]
    return m[0][1] / m[1][1], 1.0 / m[1][1]


def fit(h):
    """The response is the least-squares fit, with the fixed decay rates, of the exact conduction solution at the sample points."""
    bt = h.cfg['bt']
    ls = _layers(h)
    g = bt == 'ground'
    spec = {'method': 'layers', 'boundary_type': bt, 'layers': ls}
    lay = [(x['thermal_capacity'], x['thermal_resistance']) for x in ls]
    if g:
        lay.append((9900.0, 3.0))
    else:
        ro = h.cfg['ro']
        if isinstance(ro, tuple):
            ro = h.inp('r_o', *ro)
        spec['outside_heat_transfer_resistance'] = ro
        lay.append((0.0, ro))
    f = _get(h, spec)
    al = ALPHA[g]
    n = len(al)
    s = []
    for i in range(n):
        s.append(al[i] / np.sqrt(al[i] / al[i - 1]) if i else al[0] / np.sqrt(al[1] / al[0]))
        s.append(al[i])
    R = sum(r for c, r in lay)
    F = np.array([[x / (x + a) for a in al] for x in s])
    AA, AT = [], []
    for k, a in enumerate(al):
        t = a * 900.0
        z = -t / (1.0 - np.exp(-t)) ** 2
        AA.append(f.rfa1[k] * float(z))
        AT.append(f.rft1[k] * float(z))
        h.check('decay rate[%d]' % k, h.eq(f.row[k], float(np.exp(-t)), 1e-12))
    ex = [exact(lay, float(x)) for x in s]
    # facts about passive RC chains: the surface resistance is positive and at most the steady one, transmission at most one
    hi = sum((r[1] if isinstance(r, tuple) else r) for c, r in h.cfg['layers']) + (3.0 if g else 0.3)
    for a, t in ex:
        h.assume(h.And(h.le(0.0, a, 1e-9), h.le(a, hi, 1e-9), h.le(0.0, t, 1e-9), h.le(t, 1.0, 1e-9)))
    for k in range(n):
        ra = rt = 0.0
        for i in range(2 * n):
            ra = ra + float(F[i, k]) * (sum(float(F[i, j]) * AA[j] for j in range(n)) + R - ex[i][0])
            rt = rt + float(F[i, k]) * (sum(float(F[i, j]) * AT[j] for j in range(n)) + 1.0 - ex[i][1])
        h.check('absorption response fits the conduction solution[%d]' % k, h.eq(ra, 0.0, 1e-5))
        h.check('transmission response fits the conduction solution[%d]' % k, h.eq(rt, 0.0, 1e-5))
    h.observe('rfa0', f.rfa0)
    h.observe('rft0', f.rft0)


def steady_u(h):
    """Elements given by a U-value store no heat and have the resistance between inside surface and outside."""
    u, ri = h.inp('u', *h.cfg['u']), h.cfg['ri']
    if isinstance(ri, tuple):
        ri = h.inp('ri', *ri)
    f = _get(h, {'method': 'u_value', 'boundary_type': h.cfg['bt'], 'u_value': u, 'inside_heat_transfer_resistance': ri})
    # 1/u = r_i + R
    h.check('resistance from the inside surface to outside', h.eq((f.rfa0 + ri) * u, 1.0, 1e-6))
    h.check('transmission', h.eq(f.rft0, 1.0, 1e-9))
    for m in range(12):
        h.check('no storage[%d]' % m, h.And(h.eq(f.rfa1[m], 0.0, 1e-12), h.eq(f.rft1[m], 0.0, 1e-12), h.eq(f.row[m], 0.0, 1e-12)))
    h.observe('rfa0', f.rfa0)
