"""Generator of scenarios: sequences of calls of the public interface (events, see /verif/spec/Study.tla).

Everything random is drawn from a generator seeded with VERIF_SEED, the property and the number of the trace.
A scenario never contains outcomes: those are observed by the driver and judged by the specification.
"""
import random, math
from fractions import Fraction

NOPRIOR = {'kind': 'none'}


def f2s(x):
    """float or Fraction -> numeral (short decimals stay short)"""
    if isinstance(x, Fraction):
        x = float(x)
    if isinstance(x, int):
        return str(x)
    if x != x:
        return 'nan'
    r = repr(round(x, 6)) if abs(round(x, 6) - x) < 1e-12 else repr(x)
    return r[:-2] if r.endswith('.0') else r


def hp(name, v, scalar=None, all_=False, prior=None, kind='', **kw):
    if not isinstance(v, (list, tuple)):
        v, scalar = [v], True
    h = {'name': name, 'v': [f2s(x) for x in v], 'scalar': bool(scalar), 'all': all_, 'prior': prior or NOPRIOR, 'kind': kind}
    h.update(kw)
    return h


def tm(type_, hps=(), subs=(), target='', f='', **kw):
    t = {'type': type_, 'hp': list(hps), 'subs': list(subs), 'target': target, 'f': f}
    t.update(kw)
    return t


STATIC = tm('static')


def om(type_, names, grids, prior=None, dist='', fixed=None, pname=None, f='', **kw):
    fixed = fixed or {}
    o = {'type': type_, 'names': list(names), 'grids': [[f2s(x) for x in g] for g in grids],
         'prior': prior or {'kind': 'default'}, 'dist': dist,
         'fixed': {'names': list(fixed), 'values': [f2s(x) for x in fixed.values()]},
         'pname': list(pname or names), 'f': f}
    o.update(kw)
    return o


def flat_names(t):
    r = []
    for s in t['subs']:
        r += flat_names(s)
    return r + [h['name'] for h in t['hp']]


def flat_hp(t):
    r = []
    for s in t['subs']:
        r += flat_hp(s)
    return r + t['hp']


def types_in(t):
    r = {t['type']}
    for s in t['subs']:
        r |= types_in(s)
    return r


def tame_notequal(t):
    """the inverse of a distribution that is flat up to the absolute error of an interpolation or FFT is undetermined"""
    if t['type'] == 'notequal':
        t['type'] = 'regime'
    for s in t['subs']:
        tame_notequal(s)


def has_cp_point(t):
    return (t['type'] == 'serial' and any(h['kind'] == 'cp' for h in t['hp'])) or any(has_cp_point(s) for s in t['subs'])


class Trace(object):
    """a list of events under construction"""
    def __init__(self, tag=''):
        self.ev = []
        self.tag = tag

    def __call__(self, c, s='S', **kw):
        e = {'c': c, 's': s}
        if 'tm' in kw and {'det', 'stable'} & types_in(kw['tm']):
            tame_notequal(kw['tm'])
        e.update(kw)
        self.ev.append(e)
        return self

    def devs(self):
        """known deviations (see known_findings.json) that can matter for this trace"""
        d = set()
        online = any(e['c'] == 'newStudy' and e['kind'] == 'online' for e in self.ev)
        for e in self.ev:
            if e['c'] == 'newTM':
                ty = types_in(e['tm'])
                if 'changepoint' in ty or has_cp_point(e['tm']):
                    d.add('resetscale')
                if has_cp_point(e['tm']):
                    d.add('serialback')
                if 'combined' in ty:
                    d.add('combinedback')
                if online and any(not h['scalar'] for h in flat_hp(e['tm'])):
                    d.add('onlinehgc')
            if e.get('reuse'):
                d.add('compound')
            if e['c'] == 'tmprior':
                d.add('onlineprior')
        return sorted(d)

    def no_zeros(self):
        """a shift moves the value at an edge into the grid; where that is zero, all that is left is the rounding error of
        the interpolation"""
        if any('det' in types_in(e['tm']) for e in self.ev if 'tm' in e):
            for e in self.ev:
                p = e.get('prior') if e['c'] != 'setOM' else e['om'].get('prior')
                if isinstance(p, dict) and p.get('kind') == 'array':
                    p['v'] = ['0.07' if float(x) == 0 else x for x in p['v']]

    def off_edges(self):
        """moves observations that lie exactly on the edge of the support of a SciPy distribution: whether such a value has
        probability zero is decided by the rounding of a difference of decimal fractions"""
        F = lambda x: Fraction(str(x))
        edges = set()
        for e in self.ev:
            o = e.get('om')
            if o and o['type'] == 'scipy' and o['dist'] in ('uniform', 'expon'):
                val = {p: [F(x) for x in g] for p, g in zip(o['pname'] or o['names'], o['grids'])}
                val.update({p: [F(x)] for p, x in zip(o['fixed']['names'], o['fixed']['values'])})
                for a in val.get('loc', [Fraction(0)]):
                    edges.add(a)
                    if o['dist'] == 'uniform':
                        edges.update(a + b for b in val.get('scale', [Fraction(1)]))
        if not edges:
            return

        def move(x):
            if isinstance(x, list):
                return [move(y) for y in x]
            if not isinstance(x, str) or x in ('nan', 'inf', '-inf') or F(x).denominator == 1:
                return x
            while F(x) in edges:
                x = f2s(float(F(x) + Fraction(3, 1000)))
            return x
        for e in self.ev:
            for k in ('data', 'x'):
                if e['c'] in ('load', 'step') and k in e:
                    e[k] = move(e[k])

    def events(self, n):
        self.no_zeros()
        self.off_edges()
        return [{'c': 'begin', 's': '', 'n': n, 'devs': self.devs(), 'tag': self.tag}] + self.ev


class Gen(object):
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.uid = 0
        # rough transition models (convolution by FFT, spline interpolation) have absolute rounding errors of about
        # 1e-17: they are combined with observation models whose likelihoods vary only moderately over the grid
        self.tame = self.chance(0.5)

    # ------------------------------------------------------------------------------------------ small helpers
    def pick(self, *xs):
        return self.r.choice(xs)

    def chance(self, p):
        return self.r.random() < p

    def name(self, base):
        self.uid += 1
        return base + str(self.uid)

    def dec(self, lo, hi, d=3):
        return round(self.r.uniform(lo, hi), d)

    def grid(self, lo, step, n):
        return [Fraction(str(lo)) + i*Fraction(str(step)) for i in range(n)]

    def axis(self, positive=False, n=None, irregular=0.08):
        """values of a location-like or scale-like parameter"""
        n = n or self.r.randint(3, 7)
        if self.chance(irregular):
            lo = self.dec(0.7 if self.tame else 0.4, 1.0, 2) if positive else self.dec(-2, 1, 2)
            v, x = [], lo
            for i in range(n):
                v.append(x)
                x = round(x + self.dec(0.2, 1.3, 2), 2)
            if len(v) < 3 or abs((v[2]-v[1])-(v[1]-v[0])) > 1e-3:
                return [Fraction(str(y)) for y in v]
        step = self.pick('0.1', '0.2', '0.25', '0.5', '0.5', '0.3', *([] if self.tame else ['1', '2'])) if not positive else \
            self.pick('0.2', '0.25', '0.5', '0.5', '1', '0.3')
        lo = self.pick('0.7', '0.8', '1', *([] if self.tame else ['0.4', '0.5'])) if positive else \
            self.pick('-2', '-1', '0', '-0.5', '0.3', '1')
        g = self.grid(lo, step, n)
        return g

    # ------------------------------------------------------------------------------------------ priors
    def prior_array(self, shape, zeros=False):
        n = 1
        for s in shape:
            n *= s
        v = [self.dec(0.05, 3) for _ in range(n)]
        if zeros and n > 3 and self.chance(0.3):
            v[self.r.randrange(n)] = 0
        return {'kind': 'array', 'v': [f2s(x) for x in v], 'shape': list(shape)}

    def prior_func(self, k, big=1.):
        """function of k arguments whose values do not exceed `big` by far"""
        f = self.pick('const', 'expo', 'absp')
        if f == 'const':
            return {'kind': 'func', 'f': f, 'c': [f2s(self.dec(0.1, 5, 2))]}
        if f == 'expo':
            return {'kind': 'func', 'f': f, 'c': [f2s(self.dec(0.1, 5, 2))] + [f2s(round(self.dec(-0.8, 0.8, 2)/max(1., big/4), 6)) for _ in range(k)]}
        return {'kind': 'func', 'f': f, 'c': [f2s(self.dec(0.1, 2, 2))] + [f2s(self.dec(0.0, 1.5, 2)) for _ in range(k)]}

    def rv(self, x=None):
        d = self.pick('Normal', 'Laplace', 'Exponential', 'Uniform')
        lo, hi = (float(min(x)), float(max(x))) if x else (0., 3.)
        if d in ('Normal', 'Laplace'):
            return {'d': d, 'a': [f2s(round(self.r.uniform(lo, hi), 2)), f2s(self.dec(0.5, 3, 2))]}
        if d == 'Exponential':
            if lo < 0:
                return {'d': 'Normal', 'a': ['0.25', '1.5']}
            return {'d': d, 'a': [f2s(self.dec(0.2, 1.5, 2))]}
        return {'d': d, 'a': [f2s(math.floor(lo) - 1.25), f2s(math.ceil(hi) + 0.75)]}

    def prior(self, axes, jeffreys=True):
        k = self.pick('default', 'none', 'array', 'array', 'func', 'func', 'sympy')
        if k in ('default', 'none'):
            return {'kind': k if jeffreys else 'none'}
        if k == 'array':
            return self.prior_array([len(a) for a in axes], zeros=True)
        if k == 'func':
            return self.prior_func(len(axes))
        return {'kind': 'sympy', 'rv': [self.rv(a) for a in axes]}

    def hprior(self, values, sympy=True):
        k = self.pick('none', 'array', 'func', 'sympy' if sympy and max(abs(float(v)) for v in values) < 150 else 'array')
        if k == 'none':
            return NOPRIOR
        if k == 'array':
            p = {'kind': 'array', 'v': [f2s(self.dec(0.1, 3, 2)) for _ in values]}
            if self.chance(0.3):
                p['v'] = [str(self.r.randint(1, 9)) for _ in values]
                p['int'] = True
            return p
        if k == 'func':
            return self.prior_func(1, max(abs(float(v)) for v in values))
        return {'kind': 'sympy', 'rv': [self.rv([float(v) for v in values])]}

    # ------------------------------------------------------------------------------------------ observation models
    OMS = ['gaussian', 'gaussian', 'laplace', 'whitenoise', 'poisson', 'bernoulli', 'ar1', 'scaledar1', 'gaussianmean',
           'scipy', 'sympy', 'numpy']

    def om(self, types=None, prior=True, n=None, irregular=0.08, dims=None, defaultprior=True):
        """[observation model, data generator: n -> (data, dim)]"""
        t = self.r.choice(types or self.OMS)
        kw = {}
        loc = lambda: self.axis(n=n, irregular=irregular)
        sca = lambda: self.axis(positive=True, n=n, irregular=irregular)
        if t in ('gaussian', 'laplace'):
            g = [self.axis(n=n or self.r.randint(3, 5), irregular=irregular),
                 self.axis(positive=True, n=n or self.r.randint(3, 4), irregular=irregular)]
            names = [self.name('mean'), self.name('std')]
        elif t == 'whitenoise':
            g, names = [sca()], [self.name('std')]
        elif t == 'poisson':
            g, names = [self.axis(positive=True, n=n, irregular=irregular)], [self.name('rate')]
        elif t == 'bernoulli':
            k = n or self.r.randint(3, 7)
            g, names = [[Fraction(i + 1, k + 1) for i in range(k)]], [self.name('p')]
        elif t in ('ar1', 'scaledar1'):
            k = n or self.r.randint(3, 5)
            g = [self.grid('-0.75', '0.25', 7)[:k+2][-k:], self.axis(positive=True, n=n or self.r.randint(3, 4), irregular=irregular)]
            names = [self.name('corr'), self.name('noise')]
        elif t == 'gaussianmean':
            g, names = [loc()], [self.name('mean')]
        elif t == 'scipy':
            d = self.pick('norm', 'laplace', 'expon', 'poisson', 'binom', 'norm1')
            kw['dist'] = d
            if d == 'norm1':
                kw['dist'] = 'norm'
                g, names = [loc()], ['loc']
                if self.chance(0.7):
                    kw['fixed'] = {'scale': self.dec(0.5, 2, 2)}
                else:
                    g, names = [sca()], ['scale']
            elif d in ('norm', 'laplace'):
                g, names = [self.axis(n=n or self.r.randint(3, 5)), self.axis(positive=True, n=n or self.r.randint(3, 4))], ['loc', 'scale']
                if self.chance(0.3):   # order of the parameters is up to the user
                    g, names = g[::-1], names[::-1]
            elif d == 'expon':
                g, names = [sca()], ['scale']
                if self.chance(0.5):
                    kw['fixed'] = {'loc': -0.25}
            elif d == 'poisson':
                g, names = [sca()], ['mu']
            else:
                k = n or self.r.randint(3, 6)
                g, names = [[Fraction(i + 1, k + 1) for i in range(k)]], ['p']
                kw['fixed'] = {'n': 4}
        elif t == 'sympy':
            d = self.pick('norm', 'norm', 'laplace', 'poisson')
            kw['dist'] = d
            if d == 'poisson':
                g, names, kw['pname'] = [sca()], [self.name('mu')], ['mu']
            elif self.chance(0.5):
                g = [self.axis(n=n or self.r.randint(3, 5)), self.axis(positive=True, n=n or self.r.randint(3, 4))]
                names, kw['pname'] = [self.name('m'), self.name('s')], ['loc', 'scale']
                if self.chance(0.3):
                    g, names, kw['pname'] = g[::-1], names[::-1], kw['pname'][::-1]
            else:
                g, names, kw['pname'] = [loc()], [self.name('m')], ['loc']
                kw['fixed'] = {'scale': self.dec(0.5, 2, 2)}
        else:
            f = self.pick('norm', 'cauchy', 'three', 'pair')
            kw['f'] = f
            if f == 'pair':
                g, names = [loc()], [self.name('a')]
            elif f == 'three':
                g = [self.axis(n=3), self.axis(positive=True, n=2, irregular=0), self.axis(n=4)]
                names = [self.name('a'), self.name('b'), self.name('c')]
            else:
                g = [self.axis(n=n or self.r.randint(3, 5)), self.axis(positive=True, n=n or self.r.randint(3, 4))]
                names = [self.name('a'), self.name('b')]
        if prior is True:
            pr = self.prior(g, jeffreys=defaultprior)
        else:
            pr = prior or {'kind': 'default'}
        o = om(t, names, g, prior=pr, **kw)
        if self.chance(0.25):
            o['as'] = self.pick('list', 'tuple')
        return o

    def axis_range(self, o, i):
        v = [float(x) for x in o['grids'][i]]
        return min(v), max(v)

    def data(self, o, n, missing=0.1, dims=None, tame=False):
        """data that the model can explain; [data, dim]"""
        t, d = o['type'], o['dist']
        lo = hi = 0.
        dim = 0
        if t in ('gaussian', 'laplace') or (t in ('scipy', 'sympy') and d in ('norm', 'laplace')) or \
                (t == 'numpy' and o['f'] in ('norm', 'cauchy')):
            loc = [i for i, p in enumerate(o['pname']) if p == 'loc'] if t in ('scipy', 'sympy') else [0]
            if loc:
                lo, hi = self.axis_range(o, loc[0])
            one = lambda: self.dec(lo - 0.6, hi + 0.6, 2)
        elif t == 'numpy' and o['f'] == 'three':
            l0, h0 = self.axis_range(o, 0)
            l2, h2 = self.axis_range(o, 2)
            one = lambda: self.dec(l0 + l2, h0 + h2, 2)
        elif t == 'numpy' and o['f'] == 'table':
            lo, hi = self.axis_range(o, 0)
            one = lambda: self.dec(hi, hi + 1, 2)
        elif t == 'whitenoise':
            one = lambda: self.dec(-2, 2, 2)
        elif t in ('ar1', 'scaledar1'):
            one = lambda: self.dec(-1.8, 1.8, 2)
        elif t == 'poisson' or d == 'poisson':
            one = lambda: self.r.randint(0, 6)
        elif t == 'bernoulli':
            one = lambda: self.r.randint(0, 1)
        elif d == 'binom':
            one = lambda: self.r.randint(0, 4)
        elif d == 'expon':
            one = lambda: self.dec(0, 3, 2)
        elif d == 'uniform':
            one = lambda: self.dec(0, 1, 2)
        elif t == 'gaussianmean' or (t == 'numpy' and o['f'] == 'pair'):
            lo, hi = self.axis_range(o, 0)
            dim = 2
            one = lambda: [self.dec(lo - 0.5, hi + 0.5, 2), self.dec(0.5, 2, 2)]
        nan = float('nan')
        if dim == 2:
            out = []
            for _ in range(n):
                x = one()
                if self.chance(missing):
                    x = [nan, x[1]] if self.chance(0.5) else [nan, nan]
                out.append(x)
            return [[f2s(y) for y in x] for x in out], 2
        multi = o['type'] != 'numpy'
        dim = dims if dims is not None else (self.pick(0, 0, 0, 1, *([] if self.tame else [2, 3])) if multi else 0)
        if not multi:
            dim = 0
        if dim == 0:
            return [f2s(nan if self.chance(missing) else one()) for _ in range(n)], 0
        return [[f2s(nan if self.chance(missing) else one()) for _ in range(dim)] for _ in range(n)], dim

    # ------------------------------------------------------------------------------------------ time stamps
    def timestamps(self, n, kind=None):
        """[has time stamps, list]"""
        k = kind or self.pick('default', 'default', 'ints', 'shift', 'uneven', 'float', 'neg', 'mismatch')
        if k == 'default':
            return False, list(range(n))
        if k in ('ints', 'shift'):
            s = self.r.randint(1, 2000)
            return True, [s + i for i in range(n)]
        if k == 'neg':
            s = -self.r.randint(1, n + 3)
            return True, [s + i for i in range(n)]
        if k == 'uneven':
            t, out = self.r.randint(0, 20), []
            for _ in range(n):
                out.append(t)
                t += self.r.randint(1, 5)
            return True, out
        if k == 'float':
            t, out = self.r.randint(-4, 20)/4, []
            for _ in range(n):
                out.append(t)
                t += self.r.randint(1, 6)/4
            return True, out
        return True, list(range(7, 7 + n + self.pick(-1, 1, 2)))   # wrong number: replaced by 0, 1, 2, ...

    def effective(self, n, hasts, ts):
        return ts if hasts and len(ts) == n else list(range(n))

    # ------------------------------------------------------------------------------------------ transition models
    def sigma(self, lc, lo=0.15, hi=2.5):
        while True:
            x = round(self.r.uniform(lo, hi)*float(lc), 3)
            u = 4*x/float(lc) + 0.5
            if x > 0 and abs(u - round(u)) > 1e-3:
                return x

    def lattice(self, o, i):
        v = [Fraction(x) if '/' not in x else Fraction(x) for x in (str(y) for y in o['grids'][i])]
        d = [b - a for a, b in zip(v, v[1:])]
        dd = [abs(b - a) for a, b in zip(d, d[1:])]
        return abs(float(d[0])) if all(x < 1e-10 for x in dd) else 1.

    def leaf(self, o, kinds, times=(0, 1, 2), vector=False, hyper=False):
        """a simple transition model; vector: hyper-parameters may have several values"""
        k = self.r.choice(kinds)
        nd = len(o['names'])
        if (k == 'bivariate' and nd != 2) or (k == 'stable' and nd > 2):
            k = 'grw'
        ax = self.r.randrange(nd)
        target = o['names'][ax]
        lc = self.lattice(o, ax)

        def par(base, draw, nmax=3):
            if vector and self.chance(0.75):
                m = self.r.randint(2, nmax)
                vals = []
                for _ in range(20):
                    if len(vals) == m:
                        break
                    x = draw()
                    if all(abs(x - y) > 1e-9 for y in vals):
                        vals.append(x)
                if self.chance(0.6):
                    vals = sorted(vals)
                return hp(self.name(base), vals, scalar=False, prior=self.hprior(vals) if hyper else None,
                          **{'as': self.pick('array', 'list')})
            return hp(self.name(base), draw())

        if k == 'static':
            return STATIC
        if k == 'independent':
            return tm('independent')
        if k == 'changepoint':
            return tm('changepoint', [par('tc', lambda: self.r.choice(list(times)))])
        if k == 'grw':
            h = par('sigma', lambda: self.sigma(lc))
            if vector and self.chance(0.3) and not h['scalar'] and h['prior']['kind'] != 'sympy':
                h['v'][0] = '0'
            return tm('grw', [h], target=target)
        if k == 'stable':
            return tm('stable', [par('c', lambda: round(lc*self.dec(1.0, 3.0, 2), 4)), par('alpha', lambda: self.dec(0.6, 2.0, 2))], target=target)
        if k == 'bivariate':
            l0, l1 = self.lattice(o, 0), self.lattice(o, 1)
            return tm('bivariate', [par('s1_', lambda: self.bsig(l0)), par('s2_', lambda: self.bsig(l1)),
                                    par('rho', lambda: self.dec(-0.8, 0.8, 2))])
        if k in ('regime', 'notequal'):
            return tm(k, [par('pmin', lambda: self.pick(-7, -3, -2, -1, -1.5, -2.25))])
        if k == 'det':
            f = self.pick('linear', 'linear', 'quadratic', 'step')
            small = lambda: round(lc*self.pick(1, -1, 2, 0.5, -0.5, 0.3, -0.7, 1.25), 5)
            h = [par('a', small)]
            if f == 'quadratic':
                big = 2*max(abs(float(x)) for x in times) + 1     # keeps the shift per time step below one grid point
                h = [par('a', lambda: round(lc*self.pick(0.6, -0.6, 0.9, -0.8)/big, 7)), par('b', small)]
            if f == 'step':
                h = [par('a', small), hp(self.name('t'), self.r.choice(list(times)))]
            return tm('det', h, target=target, f=f)
        raise RuntimeError(k)

    def bsig(self, lc):
        while True:
            x = round(lc*self.dec(0.3, 1.9, 2), 4)
            if abs(x/lc - round(x/lc)) > 1e-3:
                return x

    LEAVES = ['static', 'grw', 'grw', 'stable', 'bivariate', 'regime', 'notequal', 'det', 'independent', 'changepoint']

    SMOOTH = ['static', 'grw', 'grw', 'regime', 'notequal', 'independent', 'changepoint']

    def points(self, times, k):
        """k increasing times"""
        ts = sorted(set(times))
        if len(ts) < k + 1:
            return None
        return sorted(self.r.sample(ts[:-1] if len(ts) > k + 1 else ts, k))

    def tm(self, o, times, depth=1, kinds=None, cp=True):
        """transition model with fixed hyper-parameters"""
        kinds = kinds or (self.LEAVES if self.tame else self.SMOOTH)
        u = self.r.random()
        if depth == 0 or u < 0.5:
            return self.leaf(o, kinds, times)
        if u < 0.75:
            return tm('combined', subs=[self.tm(o, times, depth - 1, kinds, cp) for _ in range(self.r.randint(1, 3))])
        k = self.r.randint(1, 2)
        p = self.points(times, k)
        if p is None:
            return self.leaf(o, kinds, times)
        if self.chance(0.2):
            p = [x + 0.5 for x in p] if self.chance(0.5) else p
        sub = [x for x in kinds if x != 'changepoint'] or ['static']   # (a change-point would be a point of the serial model)
        return tm('serial', [hp(self.name('tb'), x, kind='cp' if cp and self.chance(0.3) else 'bp') for x in p],
                  subs=[self.leaf(o, sub, times) if depth < 2 or self.chance(0.7) else
                        tm('combined', subs=[self.leaf(o, sub, times) for _ in range(2)]) for _ in range(k + 1)],
                  **({'grouped': True} if self.chance(0.2) else {}))

    # ------------------------------------------------------------------------------------------ hyper-studies
    def combos(self, t, nt=5):
        c = 1
        for h in flat_hp(t):
            c *= max(1, nt - 1) if h['all'] else len(h['v'])
        return c

    def hypertm(self, o, times, maxc=12, depth=1, minc=1):
        """transition model with lists of hyper-parameter values (at most maxc combinations)"""
        times = list(times)
        while True:
            kinds = [k for k in (self.LEAVES if self.tame else self.SMOOTH)]
            u = self.r.random()
            leaf = lambda ks=kinds: self.leaf(o, ks, times[:-1] or times, vector=True, hyper=True)
            if depth == 0 or u < 0.45:
                t = leaf()
            elif u < 0.8:
                t = tm('combined', subs=[leaf() for _ in range(self.r.randint(1, 3))])
            else:
                p = self.points(times, self.r.randint(1, 2))
                if p is None:
                    continue
                sub = [x for x in kinds if x != 'changepoint']
                hs = [hp(self.name('tb'), x, kind=self.pick('bp', 'bp', 'cp')) for x in p]
                if len(hs) == 1 and len(times) > 2 and self.chance(0.6):
                    vs = self.r.sample(times[:-1], self.r.randint(1, min(3, len(times) - 1)))
                    hs[0] = hp(hs[0]['name'], vs, scalar=False, kind=hs[0]['kind'], prior=self.hprior(vs))
                t = tm('serial', hs, subs=[leaf(sub) for _ in range(len(hs) + 1)])
            if minc <= self.combos(t, len(times)) <= maxc and flat_hp(t):
                return t

    def pointvalues(self, times, kmax, allowall=True):
        """[values, 'all'] of a change- or break-point"""
        ts = sorted(set(times))[:-1]
        if allowall and self.chance(0.45):
            return ts, True
        v = self.r.sample(ts, self.r.randint(1, min(kmax, len(ts))))
        if self.chance(0.5):
            v = sorted(v)
        return v, False

    def point(self, times, kmax=3, kind='', allowall=True, prior=True):
        v, a = self.pointvalues(times, kmax, allowall)
        if a:
            pr = NOPRIOR
            if prior and self.chance(0.4):
                pr = self.prior_func(1, max(abs(float(x)) for x in v)) if self.chance(0.5) else \
                    {'kind': 'array', 'v': [f2s(self.dec(0.1, 3, 2)) for _ in v]}
            return hp(self.name('t'), [], scalar=False, all_=True, kind=kind, prior=pr)
        return hp(self.name('t'), v, scalar=False if len(v) > 1 else self.chance(0.5), kind=kind,
                  prior=self.hprior(v, sympy=False) if prior and len(v) > 1 else NOPRIOR, **{'as': self.pick('array', 'list')})

    def cptm(self, o, times, maxc=40):
        """transition model of a change-point study: change-points or the points of one serial model, at least one
        strictly ordered combination"""
        times = list(times)
        for _ in range(200):
            u = self.r.random()
            base = [k for k in (self.LEAVES if self.tame else self.SMOOTH) if k != 'changepoint']
            extra = lambda: self.leaf(o, base, times, vector=self.chance(0.3), hyper=True)
            if u < 0.2:
                t = tm('changepoint', [self.point(times)])
            elif u < 0.55:
                k = self.r.randint(1, 3)
                subs = [tm('changepoint', [self.point(times)]) for _ in range(k)]
                for _ in range(self.r.randint(0, 2)):
                    subs.insert(self.r.randint(0, len(subs)), extra())
                t = tm('combined', subs=subs)
            else:
                k = self.r.randint(1, 3 if len(times) > 4 else 2)
                hs = [self.point(times, kind=self.pick('bp', 'bp', 'cp')) for _ in range(k)]
                t = tm('serial', hs, subs=[extra() for _ in range(k + 1)], **({'grouped': True} if self.chance(0.2) else {}))
                firsts = [float(h['v'][0]) for h in hs if not h['all']]
                if any(not (float(a['v'][0]) < float(b['v'][0])) for a, b in zip(hs, hs[1:]) if not a['all'] and not b['all']):
                    continue
            n = len(times)
            if self.combos(t, n) > maxc:
                continue
            vals = []
            for h in flat_hp(t):
                if h['name'].startswith('t') and (h['all'] or True) and h['name'] in self.point_names(t):
                    vals.append([float(x) for x in (sorted(set(times))[:-1] if h['all'] else h['v'])])
            if self.ordered_exists(vals):
                return t
        return tm('changepoint', [hp(self.name('t'), [], scalar=False, all_=True)])

    def point_names(self, t):
        r = []
        for s in t['subs']:
            r += self.point_names(s)
        if t['type'] in ('changepoint', 'serial'):
            r += [h['name'] for h in t['hp']]
        return r

    def ordered_exists(self, vals):
        last = -1e99
        for v in vals:
            c = [x for x in v if x > last]
            if not c:
                return False
            last = min(c)
        return True
