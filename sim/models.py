"""Random OpenMDAO models from JSON specs, and an independent reference.

A spec is {'tree': node, 'comps': {cid: comp}} where node is
  {'g': gid, 'kind': 'G'|'PG', 'subs': [node|cid, ...], 'cyc': bool, ...}
and comp is
  {'kind': 'P'|'F'|'I'|'X', 'ins': [...], 'outs': [...], 'seed': int, ...}.
The reference evaluates the same equations with plain numpy and never imports
OpenMDAO."""
import math
import random

import numpy as np

# (source unit, target unit, scale, offset): target = (source + offset) * scale
UNITS = [('m', 'cm', 100.0, 0.0), ('m', 'ft', 1.0 / 0.3048, 0.0), ('kg', 'g', 1000.0, 0.0),
         ('degC', 'degF', 1.8, 32.0 / 1.8), ('s', 'ms', 1000.0, 0.0), ('km', 'm', 1000.0, 0.0)]


# ------------------------------------------------------------------ generator
def gen(rng, ncomp=6, ngroup=3, pg=0.5, cyc=0.0, implicit=0.15, units=0.25, idx=0.25, prom=0.4,
        vec=0.7, shape2d=0.2, execcomp=0.1, unconn=0.1, fanin=3, nindep=(1, 3), deepindep=0.15,
        fdcomp=0.0, outputs2=0.25, feed=0.0):
    """Random spec.  cyc: probability that a plain group may iterate."""
    nid = [0]

    def newg(kind, parent):
        nid[0] += 1
        return {'g': nid[0], 'kind': kind, 'subs': [], 'cyc': False}
    root = {'g': 0, 'kind': 'PG' if rng.random() < 0.05 * pg else 'G', 'subs': [], 'cyc': False}
    groups = [root]
    depth = {0: 0}
    for _ in range(rng.randrange(ngroup + 1)):
        par = rng.choice([g for g in groups if depth[g['g']] < 3])
        g = newg('PG' if rng.random() < pg else 'G', par)
        depth[g['g']] = depth[par['g']] + 1
        par['subs'].append(g)
        groups.append(g)
    comps = {}
    cnt = [0]

    def newc(kind, g, pos=None):
        cnt[0] += 1
        cid = 'c%d' % cnt[0]
        comps[cid] = {'kind': kind, 'ins': [], 'outs': [], 'seed': rng.randrange(1 << 30)}
        if pos is None:
            pos = rng.randrange(len(g['subs']) + 1)
        g['subs'].insert(pos, cid)
        return cid
    n = rng.randrange(2, ncomp + 1)
    # make sure parallel groups have something in them
    todo = [g for g in groups if g['kind'] == 'PG']
    for k in range(n):
        g = rng.choice(todo) if todo and rng.random() < 0.6 else rng.choice(groups)
        r = rng.random()
        kind = 'I' if r < implicit else ('X' if r < implicit + execcomp else 'F')
        newc(kind, g)
    for k in range(rng.randrange(nindep[0], nindep[1] + 1)):
        if rng.random() < deepindep and len(groups) > 1:
            newc('P', rng.choice(groups[1:]), 0)
        else:
            if root['kind'] == 'PG':
                newc('P', rng.choice(groups), 0)
            else:
                newc('P', root, 0)
    for g in groups:
        if not g['subs']:
            newc('F', g)
    spec = {'tree': root, 'comps': comps}
    for g in groups:
        if g['kind'] == 'G' and cyc and rng.random() < cyc:
            g['cyc'] = True
    wire(rng, spec, units, idx, prom, vec, shape2d, unconn, fanin, fdcomp, outputs2)
    return spec


def walk(spec):
    """[(cid, [node, ...] from root)] in execution order."""
    out = []

    def rec(node, path):
        for s in node['subs']:
            if isinstance(s, dict):
                rec(s, path + [s])
            else:
                out.append((s, path))
    rec(spec['tree'], [spec['tree']])
    return out


def groups_of(spec):
    out = []

    def rec(node):
        out.append(node)
        for s in node['subs']:
            if isinstance(s, dict):
                rec(s)
    rec(spec['tree'])
    return out


def lca(p, q):
    r = None
    for a, b in zip(p, q):
        if a is b or a['g'] == b['g']:
            r = a
        else:
            break
    return r


def wire(rng, spec, units, idx, prom, vec, shape2d, unconn, fanin, fdcomp, outputs2):
    order = walk(spec)
    pos = dict((c, i) for i, (c, _) in enumerate(order))
    paths = dict(order)
    comps = spec['comps']
    nv = [0]
    # outputs first
    for cid, _ in order:
        c = comps[cid]
        nout = 1 + (rng.random() < outputs2)
        if c['kind'] == 'X':
            nout = 1
        if c['kind'] == 'P':
            nout = rng.choice([1, 1, 2, 3])
        for k in range(nout):
            nv[0] += 1
            shp = 0
            if rng.random() < vec:
                shp = [rng.randrange(1, 5)]
                if rng.random() < shape2d:
                    shp = [rng.randrange(1, 4), rng.randrange(1, 4)]
            u = rng.choice(UNITS) if rng.random() < units else None
            o = {'n': 'y%d' % nv[0], 's': shp, 'u': u[0] if u else None}
            if c['kind'] == 'X':
                o['s'] = 0
            if c['kind'] == 'P':
                o['v'] = [round(rng.uniform(-2, 2), 3) for _ in range(size(shp))]
            c['outs'].append(o)
        if fdcomp and c['kind'] == 'F' and rng.random() < fdcomp:
            c['dt'] = rng.choice(['fd', 'fd', 'cs'])
            if c['dt'] == 'fd':
                c['form'] = rng.choice(['forward', 'backward', 'central'])
    for cid, path in order:
        c = comps[cid]
        if c['kind'] == 'P':
            continue
        cands = []
        for s, spath in order:
            if s == cid:
                continue
            l = lca(path, spath)
            if l['kind'] == 'PG':
                continue
            later = pos[s] > pos[cid]
            if later and not l['cyc']:
                continue
            if later and comps[s]['kind'] == 'P':
                continue
            for k in range(len(comps[s]['outs'])):
                cands.append((s, k))
        nin = rng.randrange(1, fanin + 1)
        used = set()
        for j in range(nin):
            if not cands or (rng.random() < unconn):
                nv[0] += 1
                shp = [rng.randrange(1, 4)] if rng.random() < vec else 0
                c['ins'].append({'n': 'x%d' % nv[0], 's': shp, 'src': None,
                                 'v': [round(rng.uniform(-1, 1), 3) for _ in range(size(shp))]})
                continue
            s, k = rng.choice(cands)
            o = comps[s]['outs'][k]
            inp = {'src': [s, k], 's': o['s'], 'u': None, 'idx': None, 'how': 'c'}
            if o['u'] and c['kind'] != 'X' and rng.random() < 0.7:
                inp['u'] = rng.choice([u[1] for u in UNITS if u[0] == o['u']] + [o['u']])
            if isinstance(o['s'], list) and rng.random() < idx:
                m = rng.randrange(1, size(o['s']) + 2)
                inp['idx'] = [rng.randrange(size(o['s'])) for _ in range(m)]
                if rng.random() < 0.3:
                    inp['idx'] = sorted(set(inp['idx']))
                inp['s'] = [len(inp['idx'])]
                inp['idxc'] = rng.random() < 0.5      # at connect() rather than add_param()
            if rng.random() < prom and (s, k) not in used and not inp.get('idxc'):
                inp['how'] = 'p'
                inp['n'] = o['n']
                used.add((s, k))
            else:
                nv[0] += 1
                inp['n'] = 'x%d' % nv[0]
            c['ins'].append(inp)


def size(shp):
    return 1 if shp == 0 else int(np.prod(shp))


# ------------------------------------------------------------------ equations
def coeffs(c, spec_comps):
    """Deterministic coefficients of a component."""
    r = np.random.RandomState(c['seed'] % (2 ** 31))
    nin = max(1, len(c['ins']))
    out = []
    for o in c['outs']:
        no = size(o['s'])
        row = []
        for i in c['ins']:
            ni = size(i['s'])
            f, _ = _conv(c, i, spec_comps)
            w = r.uniform(-1, 1, (no, ni)) * (0.45 / (nin * max(1, ni) ** 0.5)) / f
            v = r.uniform(-1, 1, (no, ni)) / f
            row.append((w, v, 0.15 / nin))
        b = r.uniform(-1, 1, no)
        A = np.eye(no) * 1.5 + 0.2 * r.uniform(-1, 1, (no, no)) / max(1, no)
        out.append((row, b, A))
    return out


def _conv(c, i, comps):
    """(scale, offset) of the unit conversion of an input."""
    if i.get('src') is None or not i.get('u'):
        return 1.0, 0.0
    o = comps[i['src'][0]]['outs'][i['src'][1]]
    if not o['u'] or o['u'] == i['u']:
        return 1.0, 0.0
    for a, b, s, off in UNITS:
        if a == o['u'] and b == i['u']:
            return s, off
    raise KeyError((o['u'], i['u']))


def fexpl(co, k, xs):
    """Value of explicit output k for flat inputs xs (works for complex)."""
    row, b, A = co[k]
    y = b + 0.0 * (sum(x.sum() for x in xs) if xs else 0.0)
    for (w, v, a), x in zip(row, xs):
        y = y + w.dot(x) + a * np.sin(v.dot(x))
    return y


def dfexpl(co, k, xs, j):
    w, v, a = co[k][0][j]
    x = xs[j]
    return w + a * np.cos(v.dot(x))[:, None] * v


def fimpl_res(co, k, xs, z):
    A = co[k][2]
    return A.dot(z) + 0.1 * np.sin(z) - fexpl(co, k, xs)


def dfimpl_dz(co, k, z):
    return co[k][2] + 0.1 * np.diag(np.cos(z))


def fimpl_solve(co, k, xs, z0=None):
    rhs = fexpl(co, k, xs)
    A = co[k][2]
    z = np.zeros(len(rhs), dtype=rhs.dtype)
    for _ in range(60):
        r = A.dot(z) + 0.1 * np.sin(z) - rhs
        dz = np.linalg.solve(A + 0.1 * np.diag(np.cos(z)), r)
        z = z - dz
        if np.abs(dz).max() < 1e-15:
            break
    return z


def xcoef(c, nin):
    r = np.random.RandomState(c['seed'] % (2 ** 31))
    return [round(float(a), 4) for a in r.uniform(-0.45, 0.45, nin) / max(1, nin)], \
        round(float(r.uniform(-1, 1)), 4)


class Ref(object):
    """Reference values and derivatives of a spec."""

    def __init__(self, spec):
        self.spec = spec
        self.comps = spec['comps']
        self.order = [c for c, _ in walk(spec)]
        self.co = {}
        self.x = {}
        for c in self.order:
            if self.comps[c]['kind'] in 'FI':
                self.co[c] = coeffs(self.comps[c], self.comps)
            if self.comps[c]['kind'] == 'P':
                for o in self.comps[c]['outs']:
                    self.x[o['n']] = np.array(o['v'], float)
        self.unconn = {}
        self.y = {}

    def set(self, name, val):
        self.x[name] = np.array(val, float).ravel()

    def inval(self, c, j, y):
        i = self.comps[c]['ins'][j]
        if i.get('src') is None:
            return np.array(i['v'], float)
        s, k = i['src']
        o = self.comps[s]['outs'][k]
        v = y[o['n']]
        if i.get('idx') is not None:
            v = v[np.array(i['idx'], int)]
        f, off = _conv(self.comps[c], i, self.comps)
        return (v + off) * f

    def _eval(self, c, y):
        comp = self.comps[c]
        xs = [self.inval(c, j, y) for j in range(len(comp['ins']))]
        if comp['kind'] == 'P':
            return [self.x[o['n']] for o in comp['outs']]
        if comp['kind'] == 'F':
            return [fexpl(self.co[c], k, xs) for k in range(len(comp['outs']))]
        if comp['kind'] == 'I':
            return [fimpl_solve(self.co[c], k, xs) for k in range(len(comp['outs']))]
        if comp['kind'] == 'X':
            a, b = xcoef(comp, len(xs))
            o = comp['outs'][0]
            s = b + sum(ai * np.sin(x).sum() for ai, x in zip(a, xs))
            return [np.ones(size(o['s'])) * s]
        raise KeyError(comp['kind'])

    def run(self, tol=1e-15, maxit=2000):
        y = {}
        for c in self.order:
            for o in self.comps[c]['outs']:
                y[o['n']] = np.zeros(size(o['s']))
        for it in range(maxit):
            d = 0.0
            for c in self.order:
                for o, v in zip(self.comps[c]['outs'], self._eval(c, y)):
                    if v.size:
                        d = max(d, float(np.abs(v - y[o['n']]).max()))
                    y[o['n']] = np.asarray(v, float)
            if d <= tol:
                break
        self.y = y
        self.sweeps = it + 1
        return y

    def inputs(self, c):
        return [self.inval(c, j, self.y) for j in range(len(self.comps[c]['ins']))]

    def totals(self):
        """dict (of, wrt) -> matrix, for all outputs w.r.t. all indep outputs."""
        names, off, n = [], {}, 0
        for c in self.order:
            for o in self.comps[c]['outs']:
                names.append(o['n'])
                off[o['n']] = (n, n + size(o['s']))
                n += size(o['s'])
        M = np.zeros((n, n))
        for c in self.order:
            comp = self.comps[c]
            if comp['kind'] == 'P':
                continue
            xs = self.inputs(c)
            for k, o in enumerate(comp['outs']):
                r0, r1 = off[o['n']]
                for j, i in enumerate(comp['ins']):
                    if i.get('src') is None:
                        continue
                    if comp['kind'] == 'F':
                        J = dfexpl(self.co[c], k, xs, j)
                    elif comp['kind'] == 'I':
                        J = np.linalg.solve(dfimpl_dz(self.co[c], k, self.y[o['n']]),
                                            dfexpl(self.co[c], k, xs, j))
                    else:
                        a, b = xcoef(comp, len(xs))
                        J = np.ones((size(o['s']), 1)).dot((a[j] * np.cos(xs[j]))[None, :])
                    f, _ = _conv(comp, i, self.comps)
                    so = self.comps[i['src'][0]]['outs'][i['src'][1]]
                    c0, c1 = off[so['n']]
                    sel = np.zeros((size(i['s']), c1 - c0))
                    ii = i['idx'] if i.get('idx') is not None else range(c1 - c0)
                    for a_, b_ in enumerate(ii):
                        sel[a_, b_] += f
                    M[r0:r1, c0:c1] += J.dot(sel)
        T = np.linalg.inv(np.eye(n) - M)
        out = {}
        for c in self.order:
            if self.comps[c]['kind'] != 'P':
                continue
            for o in self.comps[c]['outs']:
                c0, c1 = off[o['n']]
                for nm in names:
                    r0, r1 = off[nm]
                    out[nm, o['n']] = T[r0:r1, c0:c1]
        return out


# ------------------------------------------------------------------ names
class Names(object):
    """Where each variable ends up after promotion."""

    def __init__(self, spec):
        self.spec = spec
        order = walk(spec)
        self.paths = dict(order)
        self.promto = {}        # (cid, name) -> depth of node (index in path) it is promoted to
        comps = spec['comps']
        top = {}
        for c, path in order:
            for i in comps[c]['ins']:
                if i.get('src') is not None and i.get('how') == 'p':
                    s = i['src'][0]
                    key = (s, comps[s]['outs'][i['src'][1]]['n'])
                    a = lca(path, self.paths[s])
                    d = [g['g'] for g in self.paths[s]].index(a['g'])
                    top[key] = min(top.get(key, 99), d)
        for (s, n), d in top.items():
            self.promto[s, n] = d
        for c, path in order:
            for i in comps[c]['ins']:
                if i.get('src') is not None and i.get('how') == 'p':
                    s = i['src'][0]
                    self.promto[c, i['n']] = top[s, comps[s]['outs'][i['src'][1]]['n']]

    def gname(self, g):
        return 'g%d' % g['g']

    def at_root(self, c, n):
        """Promoted name of a variable at the root."""
        path = self.paths[c]
        d = self.promto.get((c, n))
        # names of systems from root: path[1:], then c
        sysn = [self.gname(g) for g in path[1:]] + [c]
        if d is None:
            return '.'.join(sysn + [n])
        return '.'.join(sysn[:d] + [n])

    def promotes(self, sysname_path_depth, members):
        pass


def comp_path(names, c):
    return '.'.join([names.gname(g) for g in names.paths[c][1:]] + [c])


# ------------------------------------------------------------------ OpenMDAO side
_K = {}
HOOK = [None]          # called as HOOK[0](comp, method name) before user code runs


def call_hook(comp, what):
    if HOOK[0] is not None:
        HOOK[0](comp, what)


def classes():
    """Component classes (made after openmdao is imported under the seams)."""
    if _K:
        return _K
    from openmdao.api import Component, IndepVarComp, ExecComp

    def val(shp, v=None):
        if shp == 0:
            return float(v[0]) if v is not None else 0.0
        a = np.zeros(tuple(shp))
        if v is not None:
            a.flat = v
        return a

    def addin(self, i, comps):
        kw = {}
        if i.get('u'):
            kw['units'] = i['u']
        if i.get('idx') is not None and not i.get('idxc'):
            kw['src_indices'] = list(i['idx'])
        for k in ('step_size', 'form', 'step_calc'):
            if k in i:
                kw[k] = i[k]
        self.add_param(i['n'], val(i['s'], i.get('v')), **kw)

    def flat(x):
        return np.asarray(x).ravel() if not np.isscalar(x) else np.array([x])

    def put(vec, o, v):
        if o['s'] == 0:
            vec[o['n']] = v[0]
        else:
            vec[o['n']] = v.reshape(tuple(o['s']))

    class Base(Component):
        def __init__(self, cid, c, comps):
            super(Base, self).__init__()
            self.cid, self.c, self.comps = cid, c, comps
            self.co = coeffs(c, comps)
            self.nsolve = 0
            for i in c['ins']:
                addin(self, i, comps)
            for o in c['outs']:
                kw = {}
                if o['u']:
                    kw['units'] = o['u']
                self.addo(o['n'], val(o['s']), **kw)
            if c.get('dt'):
                # equal but not identical strings would be legal too
                self.deriv_options['type'] = 'cs' if c['dt'] == 'cs' else 'fd'
                if c.get('form'):
                    self.deriv_options['form'] = c['form']

        def xs(self, params):
            return [flat(params[i['n']]) for i in self.c['ins']]

    class Func(Base):
        def addo(self, n, v, **kw):
            self.add_output(n, v, **kw)

        def solve_nonlinear(self, params, unknowns, resids):
            call_hook(self, 'solve_nonlinear')
            self.nsolve += 1
            xs = self.xs(params)
            for k, o in enumerate(self.c['outs']):
                put(unknowns, o, fexpl(self.co, k, xs))
            call_hook(self, 'solve_nonlinear.end')

        def linearize(self, params, unknowns, resids):
            call_hook(self, 'linearize')
            J = {}
            xs = self.xs(params)
            for k, o in enumerate(self.c['outs']):
                for j, i in enumerate(self.c['ins']):
                    J[o['n'], i['n']] = dfexpl(self.co, k, xs, j)
            return J

    class Impl(Base):
        def addo(self, n, v, **kw):
            if self.c.get('rsc'):
                kw['resid_scaler'] = self.c['rsc']
            self.add_state(n, v, **kw)

        def solve_nonlinear(self, params, unknowns, resids):
            call_hook(self, 'solve_nonlinear')
            self.nsolve += 1
            if self.c.get('ext'):
                return            # states are converged by a group's solver
            xs = self.xs(params)
            for k, o in enumerate(self.c['outs']):
                put(unknowns, o, fimpl_solve(self.co, k, xs))
            call_hook(self, 'solve_nonlinear.end')

        def apply_nonlinear(self, params, unknowns, resids):
            call_hook(self, 'apply_nonlinear')
            xs = self.xs(params)
            for k, o in enumerate(self.c['outs']):
                put(resids, o, fimpl_res(self.co, k, xs, flat(unknowns[o['n']])))

        def linearize(self, params, unknowns, resids):
            call_hook(self, 'linearize')
            J = {}
            xs = self.xs(params)
            self.Jz = {}
            for k, o in enumerate(self.c['outs']):
                for j, i in enumerate(self.c['ins']):
                    J[o['n'], i['n']] = -dfexpl(self.co, k, xs, j)
                for k2, o2 in enumerate(self.c['outs']):
                    if k2 == k:
                        J[o['n'], o['n']] = self.Jz[k] = dfimpl_dz(self.co, k, flat(unknowns[o['n']]))
            return J

        def solve_linear(self, dumat, drmat, vois, mode=None):
            call_hook(self, 'solve_linear')
            for voi in vois:
                if mode == 'fwd':
                    sol, rhs = self.dumat, self.drmat
                else:
                    sol, rhs = self.drmat, self.dumat
                for k, o in enumerate(self.c['outs']):
                    if o['n'] not in rhs[voi]:
                        continue          # not relevant to this variable of interest
                    r = flat(rhs[voi][o['n']])
                    A = self.Jz[k] if mode == 'fwd' else self.Jz[k].T
                    put(sol[voi], o, np.linalg.solve(A, r))

    class XC(ExecComp):
        def __init__(self, cid, c, comps):
            self.cid, self.c = cid, c
            a, b = xcoef(c, len(c['ins']))
            o = c['outs'][0]
            ex = '%s = %r' % (o['n'], b)
            kw = {}
            for ai, i in zip(a, c['ins']):
                t = 'sin(%s)' % i['n']
                if i['s'] != 0:
                    t = 'sum(%s)' % t
                    if len(i['s']) == 2:
                        t = 'sum(%s)' % t
                ex += ' + %r*%s' % (ai, t)
                kw[i['n']] = val(i['s'], i.get('v'))
            kw[o['n']] = val(o['s'])
            un = {}
            if o['u']:
                un[o['n']] = o['u']
            for i in c['ins']:
                if i.get('u'):
                    un[i['n']] = i['u']
            super(XC, self).__init__(ex, units=un, **kw) if un else \
                super(XC, self).__init__(ex, **kw)
            for i in c['ins']:
                if i.get('idx') is not None and not i.get('idxc'):
                    self._init_params_dict[i['n']]['src_indices'] = list(i['idx'])

        def solve_nonlinear(self, params, unknowns, resids):
            call_hook(self, 'solve_nonlinear')
            super(XC, self).solve_nonlinear(params, unknowns, resids)
            call_hook(self, 'solve_nonlinear.end')

        def linearize(self, params, unknowns, resids):
            call_hook(self, 'linearize')
            return super(XC, self).linearize(params, unknowns, resids)

    class Indep(IndepVarComp):
        def __init__(self, cid, c, comps):
            vs = []
            for o in c['outs']:
                kw = {}
                if o['u']:
                    kw['units'] = o['u']
                vs.append((o['n'], val(o['s'], o['v']), kw))
            super(Indep, self).__init__(vs)
            self.cid, self.c = cid, c
    _K.update(F=Func, I=Impl, X=XC, P=Indep, val=val, flat=flat)
    return _K


def promotes_map(spec, names):
    """system (gid or cid) -> list of names it promotes to its parent."""
    pr = {}
    for (c, n), d in names.promto.items():
        path = names.paths[c]
        pr.setdefault(c, []).append(n)
        # groups path[k] for k > d promote to path[k-1]
        for k in range(len(path) - 1, d, -1):
            l = pr.setdefault(path[k]['g'], [])
            if n not in l:
                l.append(n)
    for v in pr.values():
        v.sort()
    return pr


def build_group(spec, names=None, setup_group=None, make_comp=None, make_group=None):
    """Build the OpenMDAO root group of a spec."""
    from openmdao.api import Group, ParallelGroup
    K = classes()
    names = names or Names(spec)
    pr = promotes_map(spec, names)
    comps = spec['comps']

    def rec(node):
        g = None
        if make_group is not None:
            g = make_group(node)
        if g is None:
            g = ParallelGroup() if node['kind'] == 'PG' else Group()
        for s in node['subs']:
            if isinstance(s, dict):
                g.add(names.gname(s), rec(s), promotes=pr.get(s['g'], []))
            else:
                c = make_comp(s, comps[s]) if make_comp is not None else None
                if c is None:
                    c = K[comps[s]['kind']](s, comps[s], comps)
                g.add(s, c, promotes=pr.get(s, []))
        if setup_group is not None:
            setup_group(g, node)
        return g
    root = rec(spec['tree'])
    for c, path in walk(spec):
        for i in comps[c]['ins']:
            if i.get('src') is not None and i.get('how') != 'p':
                s, k = i['src']
                kw = {}
                if i.get('idx') is not None and i.get('idxc'):
                    kw['src_indices'] = list(i['idx'])
                root.connect(names.at_root(s, comps[s]['outs'][k]['n']),
                             names.at_root(c, i['n']), **kw)
    return root


# ------------------------------------------------------------------ shrinking
def drop_comp(spec, cid):
    """Spec without a component; its readers get constants."""
    import copy
    s = copy.deepcopy(spec)
    del s['comps'][cid]

    def rec(node):
        node['subs'] = [x for x in node['subs'] if x != cid]
        for x in node['subs']:
            if isinstance(x, dict):
                rec(x)
        node['subs'] = [x for x in node['subs'] if not isinstance(x, dict) or x['subs']]
    rec(s['tree'])
    nv = 9000
    for c in s['comps'].values():
        for i in c['ins']:
            if i.get('src') is not None and i['src'][0] == cid:
                nv += 1
                i.update(src=None, n='x%d_%s' % (nv, i['n']), idx=None, u=None, how='c',
                         v=[0.5] * size(i['s']))
    return s


def drop_input(spec, cid, j):
    import copy
    s = copy.deepcopy(spec)
    del s['comps'][cid]['ins'][j]
    return s


def hoist(spec, gid):
    """Replace a group by its contents."""
    import copy
    s = copy.deepcopy(spec)

    def rec(node):
        out = []
        for x in node['subs']:
            if isinstance(x, dict):
                rec(x)
                if x['g'] == gid:
                    out.extend(x['subs'])
                    continue
            out.append(x)
        node['subs'] = out
    rec(s['tree'])
    return s


def shrinks(spec):
    """Smaller specs (structure first, then details)."""
    import copy
    order = [c for c, _ in walk(spec)]
    for c in reversed(order):
        if len(order) > 1:
            yield drop_comp(spec, c)
    for g in groups_of(spec):
        if g['g'] != 0 and g['kind'] == 'G':
            yield hoist(spec, g['g'])
    for c in order:
        for j in range(len(spec['comps'][c]['ins'])):
            yield drop_input(spec, c, j)
        if len(spec['comps'][c]['outs']) > 1:
            for k in range(len(spec['comps'][c]['outs'])):
                used = any(i.get('src') and i['src'][0] == c and i['src'][1] >= k
                           for d in spec['comps'].values() for i in d['ins'])
                if not used:
                    s = copy.deepcopy(spec)
                    del s['comps'][c]['outs'][k]
                    yield s
    for g in groups_of(spec):
        if g['kind'] == 'PG':
            s = copy.deepcopy(spec)
            for h in groups_of(s):
                if h['g'] == g['g']:
                    h['kind'] = 'G'
            yield s
    for c in order:
        for j, i in enumerate(spec['comps'][c]['ins']):
            if i.get('how') == 'p':
                s = copy.deepcopy(spec)
                s['comps'][c]['ins'][j].update(how='c', n='z_%s' % i['n'])
                yield s
            if i.get('u'):
                s = copy.deepcopy(spec)
                s['comps'][c]['ins'][j]['u'] = None
                yield s
        if spec['comps'][c]['kind'] == 'I':
            s = copy.deepcopy(spec)
            s['comps'][c]['kind'] = 'F'
            yield s
        if spec['comps'][c].get('dt'):
            s = copy.deepcopy(spec)
            s['comps'][c].pop('dt')
            s['comps'][c].pop('form', None)
            yield s
