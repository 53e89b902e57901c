"""C06: results depend only on the current settings, never on history.

The model is the dictionary of settings; an operation either changes one entry or observes.  Every operation
sequence up to the bound is executed on a real solver object; whenever it observes, the result has to be the one
that belongs to the model state (a freshly built object's, itself validated once against the reference solver)."""
import copy
import itertools

import numpy as np

from mc import lattice as L
from mc import meentio as io
from mc import oracle

ID = 'C06'
BOUNDS = ('all ordered pairs of 43 operations (settings, cells of other kind and depth, elements changed in place, rejected values, drawing, solves, keyword solves, field computations) with and without '
          'an observation before and between them x 4 initial structures x backend (JAX: reduced alphabet); all interleavings of two 3-step programs on two objects '
          '(same and different backends, shared inputs); long histories (24 solves, sweeps there and back); thorough: all triples of a reduced alphabet')
ASSUMPTIONS = ['fields are requested only directly after a solve, as documented', 'keyword arguments of conv_solve stay in force afterwards']

CELLS = {
    'line': dict(r=[[[1.0, 2.1, 1.6]], [[1.9, 1.9, 1.2]]]),
    'line2': dict(r=[[[1.0, 1.0, 2.4, 1.0]], [[1.3, 1.8, 1.3, 1.3]]]),
    'lossy': dict(r=[[[1.0, 2.1, 1.6]], [[0.4, 1.9, 1.2]]], i=[[[0, -0.2, 0]], [[-2.8, 0, 0]]]),
    'grid': dict(r=[[[1.0, 2.1], [1.6, 1.0], [1.0, 1.0]], [[1.9, 1.9], [1.9, 1.9], [1.9, 1.2]]]),
    'tall': dict(r=[[[1.0], [2.1], [1.0]], [[1.9], [1.2], [1.2]]]),
    'vec': dict(v=[[1.2, [['rectangle', 400, 310, 330, 190, 2.1, 0.6, 2, 3], ['rectangle', 500, 400, 120, 330, 1.5, 0.0, 1, 1]]],
                   [1.0, [['ellipse', 420, 330, 410, 230, {'c': [1.8, -0.1]}, 0.35, 6, 6]]]]),
    'three': dict(r=[[[1.0, 2.1, 1.6]], [[1.9, 1.9, 1.2]], [[1.0, 1.4, 1.0]]]),
    # close relatives: a hair's breadth away, pixels or layers exchanged, the same numbers in another layout
    'line~': dict(r=[[[1.0, 2.1, 1.6]], [[1.9, 1.900003, 1.2]]]), 'line-perm': dict(r=[[[1.0, 1.6, 2.1]], [[1.9, 1.2, 1.9]]]), 'line-swap': dict(r=[[[1.9, 1.9, 1.2]], [[1.0, 2.1, 1.6]]]),
    'line-rep': dict(r=[[[1.0, 2.1, 1.6]], [[1.0, 2.1, 1.6]]]), 'line-lossy': dict(r=[[[1.0, 2.1, 1.6]], [[1.9, 1.9, 1.2]]], i=[[[0, 0, 0]], [[0, -0.000002, 0]]]),
    'grid~': dict(r=[[[1.0, 2.1], [1.6, 1.0], [1.0, 1.0]], [[1.9, 1.9], [1.9, 1.9], [1.900003, 1.2]]]), 'grid-perm': dict(r=[[[1.0, 1.6], [2.1, 1.0], [1.0, 1.0]], [[1.9, 1.9], [1.9, 1.2], [1.9, 1.9]]]),
    'grid-T': dict(r=[[[1.0, 2.1, 1.6], [1.0, 1.0, 1.0]], [[1.9, 1.9, 1.9], [1.9, 1.9, 1.2]]]),
    'vec~': dict(v=[[1.2, [['rectangle', 400.0005, 310, 330, 190, 2.1, 0.6, 2, 3], ['rectangle', 500, 400, 120, 330, 1.5, 0.0, 1, 1]]],
                    [1.0, [['ellipse', 420, 330, 410, 230, {'c': [1.8, -0.1]}, 0.35, 6, 6]]]]),
    'vec-n': dict(v=[[1.2, [['rectangle', 400, 310, 330, 190, 2.1, 0.6, 2, 3], ['rectangle', 500, 400, 120, 330, 1.5, 0.0, 1, 1]]],
                     [1.0, [['ellipse', 420, 330, 410, 230, {'c': [1.8, -0.1000005]}, 0.35, 6, 6]]]]),
    'vec-order': dict(v=[[1.2, [['rectangle', 500, 400, 120, 330, 1.5, 0.0, 1, 1], ['rectangle', 400, 310, 330, 190, 2.1, 0.6, 2, 3]]],
                         [1.0, [['ellipse', 420, 330, 410, 230, {'c': [1.8, -0.1]}, 0.35, 6, 6]]]]),
}
BASES = {
    '1d': dict(ucell='line', phi=None, pol=0, fto=[1, 0]),
    'con': dict(ucell='line', phi=0.6, psi=0.7, fto=[1, 0]),
    '2d': dict(ucell='grid', phi=0.6, psi=0.7, fto=[1, 1]),
    'vec': dict(ucell='vec', phi=None, psi=1.9, fto=[1, 1]),
}
COMMON = dict(n_top=1.5, n_bot=1.2, theta=0.37, period=[900.0, 700.0], wavelength=610.0, thickness=[120.0, 260.0],
              fourier_type=0, enhanced_dfs=True, use_pinv=False, prec=0)


def base(name):
    c = copy.deepcopy(COMMON)
    c.update(copy.deepcopy(BASES[name]))
    c['ucell'] = copy.deepcopy(CELLS[c['ucell']])
    return c


# operations: name -> (kind, payload)
OPS = {
    'theta=0': ('set', dict(theta=0.0)), 'theta=-.6': ('set', dict(theta=-0.6)), 'phi=None': ('set', dict(phi=None)), 'phi=0': ('set', dict(phi=0.0)),
    'phi=2.3': ('set', dict(phi=2.3)), 'pol=0': ('set', dict(pol=0)), 'pol=1': ('set', dict(pol=1)), 'pol=.3': ('set', dict(pol=0.3)), 'psi=2.2': ('set', dict(psi=2.2)),
    'wl': ('set', dict(wavelength=540.0)), 'period': ('set', dict(period=[760.0, 980.0])), 'fto20': ('set', dict(fto=[2, 0])), 'fto11': ('set', dict(fto=[1, 1])),
    'fto01': ('set', dict(fto=[0, 1])), 'thick': ('set', dict(thickness=[310.0, 45.0])), 'n_top': ('set', dict(n_top=1.0)), 'n_bot': ('set', dict(n_bot=[1.9, -0.3])),
    'cfs': ('set', dict(fourier_type=1)), 'plain': ('set', dict(enhanced_dfs=False)), 'pinv': ('set', dict(use_pinv=True)),
    'line2': ('set', dict(ucell='line2')), 'lossy': ('set', dict(ucell='lossy')), 'grid': ('set', dict(ucell='grid')), 'tall': ('set', dict(ucell='tall')),
    'vec': ('set', dict(ucell='vec')), 'three': ('set', dict(ucell='three', thickness=[80.0, 150.0, 60.0])),
    'single': ('prec', 1), 'double': ('prec', 0),
    'bad pol': ('bad', dict(pol=1.5)), 'bad fto': ('bad', dict(fto=[1, 2, 3])), 'bad ucell': ('bad', dict(ucell=(1, 2))), 'bad period': ('bad', dict(period='x')),
    'poke cell': ('poke', 'ucell'), 'poke thick': ('poke', 'thickness'), 'poke period': ('poke', 'period'), 'poke fto': ('poke', 'fto'), 'draw': ('draw', {}),
    'solve': ('solve', {}), 'field': ('field', {}),
    'kw theta,wl': ('kw', dict(theta=0.9, wavelength=700.0)), 'kw pol': ('kw', dict(pol=1)), 'kw ucell': ('kw', dict(ucell='line2')), 'kw n,d': ('kw', dict(n_bot=1.9, thickness=[50.0, 400.0])),
}

# settings next to the initial ones; 'back' restores the initial ones
NEAR = {
    'theta~': ('set', dict(theta=0.3700007)), 'phi~': ('set', dict(phi=0.6000009)), 'psi~': ('set', dict(psi=0.7000009)), 'wl~': ('set', dict(wavelength=610.0006)),
    'period~': ('set', dict(period=[900.0, 700.0006])), 'thick~': ('set', dict(thickness=[120.0001, 260.0])), 'thick-swap': ('set', dict(thickness=[260.0, 120.0])), 'n_top~': ('set', dict(n_top=1.5000009)),
    'n_bot~': ('set', dict(n_bot=1.2000007)), 'n_bot-i': ('set', dict(n_bot=[1.2, -0.000002])), 'theta<0': ('set', dict(theta=-0.37)), 'period-swap': ('set', dict(period=[700.0, 900.0])),
}
for _n in ('line~', 'line-perm', 'line-swap', 'line-rep', 'line-lossy', 'grid~', 'grid-perm', 'grid-T', 'vec~', 'vec-n', 'vec-order'):
    NEAR[_n] = ('set', dict(ucell=_n))
OPS.update(NEAR)
OPS.update({'back': ('back', {}), 'field2': ('field2', dict(res_x=3, res_y=1, res_z=3, set_field_input=(True, False, False))),
            'field3': ('field2', dict(res_x=1, res_y=2, res_z=1, set_field_input=(False, True, True))), 'kw all': ('kwall', {}), 'field!': ('field!', {})})
RELATIVES = {'1d': 'line', 'con': 'line', '2d': 'grid', 'vec': 'vec'}


def model_step(cfg, upd):
    c = dict(cfg)
    for k, v in upd.items():
        if k == 'pol':
            c.pop('psi', None)
        if k == 'psi':
            c.pop('pol', None)
        c[k] = copy.deepcopy(CELLS[v]) if k == 'ucell' else v
    return c


def valid(c):
    if 'v' in c['ucell']:
        n = len(c['ucell']['v'])
    else:
        n = len(c['ucell']['r'])
    return n == len(c['thickness'])


def encode(be, k, v, keep):
    """Value to assign; mutable inputs are remembered with a copy."""
    if k == 'ucell':
        x = io.ucell(be, dict(ucell=CELLS[v] if isinstance(v, str) else v))
    elif k in ('n_top', 'n_bot'):
        x = io.cnum(v)
    elif k in ('period', 'thickness') and be != 1:
        x = np.array(v) if be == 0 else io.mods()['torch'].tensor(v, dtype=io.mods()['torch'].float64)
    elif k in ('period', 'thickness', 'fto'):
        x = list(v)
    else:
        return v
    remember(x, keep)
    return x


def snapshot(x):
    if isinstance(x, list):
        return copy.deepcopy(x)
    return io.to_np(x).copy() if hasattr(x, 'shape') else x


def remember(x, keep):
    if isinstance(x, list) or hasattr(x, 'shape'):
        keep.append((x, snapshot(x)))


def same(x, snap):
    if isinstance(x, list):
        return repr(x) == repr(snap)
    a = io.to_np(x)
    return a.shape == snap.shape and a.dtype == snap.dtype and np.array_equal(a, snap)


class Obj:
    """A real solver object next to its model state."""

    def __init__(self, be, cfg, S, shared=None):
        self.be, self.cfg, self.S = be, cfg, S
        self.keep = []
        self.results = []
        self.fields = []
        self.init = cfg
        self.solved = None          # model state of the last solve
        self.log = []
        self.tol = 1e-8
        kw = io.kwargs(be, cfg)
        if shared is not None:
            kw.update(shared)
        for v in kw.values():
            remember(v, self.keep)
        self.m = S.call(f'{io.BACKENDS[be]} build', io.mods()['meent'].call_mee, backend=be, **kw)

    def op(self, name):
        kind, upd = OPS[name]
        self.log.append(name)
        nm = io.BACKENDS[self.be]
        S = self.S
        if kind == 'prec':
            S.call(f'{nm} type_complex after {self.log}', setattr, self.m, 'type_complex', io.ctype(self.be, upd))
            self.tol = 1e-3      # stored settings may have been rounded to single precision
        elif kind == 'set':
            for k, v in upd.items():
                S.call(f'{nm} set {k} after {self.log}', setattr, self.m, k, encode(self.be, k, v, self.keep))
            self.cfg = model_step(self.cfg, upd)
        elif kind == 'poke':
            self.poke(upd)
        elif kind == 'draw':        # drawing something else is no setting
            other = [[1.1, [['rectangle', 300, 200, 150, 90, 1.7, 0.0, 1, 1], ['ellipse', 350, 300, 200, 150, 2.0, 0.2, 4, 4]]]]
            S.call(f'{nm} modeling_vector_instruction after {self.log}', self.m.modeling_vector_instruction, other)
        elif kind == 'bad':
            for k, v in upd.items():
                S.transitions += 1
                try:
                    setattr(self.m, k, v)
                    S.fail(f'{nm}-accepted', f'{nm}-accepted: {k}={v!r} was accepted')
                except (ValueError, TypeError):
                    pass
        elif kind == 'kw':
            kw = {k: encode(self.be, k, v, self.keep) for k, v in upd.items()}
            self.cfg = model_step(self.cfg, upd)
            if valid(self.cfg):
                self.observe(kw)
        elif kind == 'back':
            for k in ('theta', 'phi', 'wavelength', 'period', 'fto', 'thickness', 'n_top', 'n_bot', 'fourier_type', 'enhanced_dfs', 'use_pinv', 'ucell', 'psi' if 'psi' in self.init else 'pol'):
                S.call(f'{nm} set {k} after {self.log}', setattr, self.m, k, encode(self.be, k, self.init[k], self.keep))
            self.cfg = self.init
        elif kind == 'kwall':
            ks = ('theta', 'phi', 'wavelength', 'period', 'fto', 'thickness', 'n_top', 'n_bot', 'ucell', 'psi' if 'psi' in self.init else 'pol')
            self.cfg = dict({k: v for k, v in self.cfg.items() if k not in ('pol', 'psi')}, **{k: self.init[k] for k in ks})
            self.observe({k: encode(self.be, k, self.init[k], self.keep) for k in ks})
        elif kind == 'field!':      # the field of the last solve, if the settings are still the same
            if self.solved is not None and self.solved == self.cfg:
                self.field()
        elif kind == 'field2':
            if valid(self.cfg):
                self.observe({})
                self.field(upd)
        elif kind in ('solve', 'field'):
            if valid(self.cfg):
                self.observe({})
                if kind == 'field':
                    self.field()

    def poke(self, k):
        """Change one element of a setting in place, through the attribute."""
        m, c, S = self.m, copy.deepcopy(self.cfg), self.S
        S.transitions += 1
        if k == 'ucell':
            if 'v' in c['ucell']:
                m.ucell[0][1][0][1] = c['ucell']['v'][0][1][0][1] = 430
            else:
                m.ucell[0, 0, 0] = 1.33
                c['ucell']['r'][0][0][0] = 1.33
                if 'i' in c['ucell']:
                    c['ucell']['i'][0][0][0] = 0
        elif k == 'fto':
            m.fto[0] = 0 if c['fto'][0] else 1
            c['fto'] = [0 if c['fto'][0] else 1, c['fto'][1]]
        else:
            getattr(m, k)[1] = 888.0
            c[k] = [c[k][0], 888.0] + list(c[k][2:])
        self.cfg = c
        self.keep = [(x, snapshot(x)) for x, _ in self.keep]        # the user's own array may be the one held

    def observe(self, kw=None):
        nm = io.BACKENDS[self.be]
        r = self.S.call(f'{nm} conv_solve after {self.log}', self.m.conv_solve, **(kw or {}))
        got = io.unpack(r)
        self.S.traces += 1
        exp, _ = expected(self.be, self.cfg, self.S)
        compare(self.S, nm, got, exp, self.log, self.tol)
        self.results.append((r, got))
        self.solved = copy.deepcopy(self.cfg)

    def field(self, fr=None):
        nm = io.BACKENDS[self.be]
        fr = fr or FR
        f = self.S.call(f'{nm} calculate_field after {self.log}', self.m.calculate_field, **fr)
        want = expected_field(self.be, self.cfg, self.S, fr)
        self.fields.append((f, io.to_np(f).copy()))
        self.S.close(f'{nm}-field', io.to_np(f), want, self.tol * max(1.0, np.abs(want).max()), f'field after {self.log}')

    def readback(self):
        if self.tol > 1e-6:
            return
        m, c, nm = self.m, self.cfg, io.BACKENDS[self.be]
        num = lambda v: complex(io.to_np(v)) if hasattr(v, 'shape') else complex(v)
        psi = io.psi_of(c)
        for k, g, w in (('theta', num(m.theta), complex(c['theta'])), ('psi', num(m.psi), psi), ('pol', num(m.pol), 1 - 2 * psi / np.pi),
                        ('wavelength', num(m.wavelength), c['wavelength']), ('n_top', num(m.n_top), io.cnum(c['n_top'])), ('n_bot', num(m.n_bot), io.cnum(c['n_bot']))):
            self.S.close(f'{nm}-readback', g, w, 1e-9, f'{k} after {self.log}')
        self.S.true(f'{nm}-readback', (m.phi is None) == (c['phi'] is None) and (m.phi is None or abs(num(m.phi) - c['phi']) < 1e-12), f'phi after {self.log}: {m.phi}')
        self.S.true(f'{nm}-readback', list(m.fto) == list(c['fto']), f'fto after {self.log}')
        self.S.close(f'{nm}-readback', io.to_np(m.period), np.array(c['period']), 1e-9, f'period after {self.log}')
        self.S.close(f'{nm}-readback', io.to_np(m.thickness), np.array(c['thickness']), 1e-9, f'thickness after {self.log}')

    def finish(self):
        nm = io.BACKENDS[self.be]
        for x, snap in self.keep:
            self.S.true(f'{nm}-input-mutated', same(x, snap), f'an input was modified during {self.log}: {str(x)[:120]} was {str(snap)[:120]}')
        for r, got in self.results:
            now = io.unpack(r)
            ok = all((got[w] is None and now[w] is None) or all(np.array_equal(got[w][k], now[w][k]) for k in io.FIELDS) for w in ('res', 'te', 'tm'))
            self.S.true(f'{nm}-result-mutated', ok, f'an earlier result changed during {self.log}')
        for f, was in self.fields:
            self.S.true(f'{nm}-result-mutated', np.array_equal(io.to_np(f), was), f'an earlier field changed during {self.log}')


FR = dict(res_x=2, res_y=3, res_z=2, set_field_input=(True, True, True))
_memo = {}
_ref = {}


def key(cfg):
    import json
    return json.dumps({k: v for k, v in cfg.items()}, sort_keys=True)


def expected(be, cfg, S):
    """The answer belonging to a model state: a fresh object's, validated against the reference model."""
    k = (be, key(cfg))
    if k not in _memo:
        if len(_memo) > 4000:
            _memo.clear()
        m = S.call(f'{io.BACKENDS[be]} fresh', io.build, be, cfg)
        with np.errstate(all='ignore'):
            got = io.unpack(S.call('fresh conv_solve', m.conv_solve))
        if k[1] not in _ref:
            if len(_ref) > 4000:
                _ref.clear()
            _ref[k[1]] = oracle.Reference(cfg)
        S.state([be, k[1]])
        oracle.compare(S, be, cfg, got, _ref[k[1]], tag=f'fresh {io.BACKENDS[be]} object, theta={cfg["theta"]} phi={cfg["phi"]} fto={cfg["fto"]}')
        _memo[k] = [got, {}, cfg]
    return _memo[k][0], _memo[k]


def expected_field(be, cfg, S, fr=None):
    _, ent = expected(be, cfg, S)
    fr = fr or FR
    k = repr(sorted(fr.items()))
    if k not in ent[1]:
        m = io.build(be, cfg)
        m.conv_solve()
        ent[1][k] = io.to_np(m.calculate_field(**fr)).copy()
    return ent[1][k]


def compare(S, nm, got, exp, log, tol):
    for w in ('res', 'te', 'tm'):
        if (got[w] is None) != (exp[w] is None):
            S.fail(f'{nm}-kind', f'{nm}-kind: after {log} {w} is {"absent" if got[w] is None else "present"}')
            continue
        if got[w] is None:
            continue
        for k in io.FIELDS:
            S.close(f'{nm}-history', got[w][k], exp[w][k], tol, f'{w}.{k} after {log}')


def run_seq(case, S):
    for seq in case['seqs']:
        o = Obj(case['be'], base(case['base']), S)
        S.state([case['be'], case['base'], seq])
        for name in seq:
            o.op(name)
        if not valid(o.cfg):
            continue
        o.observe()
        if case['field']:
            o.field()
        o.observe()
        o.readback()
        o.finish()


def interleavings(n, m):
    for pos in itertools.combinations(range(n + m), n):
        yield [0 if i in pos else 1 for i in range(n + m)]


def run_two(case, S):
    ba, bb = case['bes']
    for order in interleavings(len(case['pa']), len(case['pb'])):
        S.state([case['bes'], case['bases'], case['pa'], case['pb'], order])
        ca, cb = base(case['bases'][0]), base(case['bases'][1])
        shared = None
        if case['shared']:
            cb = copy.deepcopy(ca)
            shared = io.kwargs(ba, ca)
            shared = {k: shared[k] for k in ('ucell', 'thickness', 'period')}
        objs = [Obj(ba, ca, S, shared), Obj(bb, cb, S, shared)]
        todo = [list(case['pa']), list(case['pb'])]
        for w in order:
            objs[w].op(todo[w].pop(0))
            if case['every']:
                for o in objs:
                    if valid(o.cfg):
                        o.observe()
        for o in objs:
            if valid(o.cfg):
                o.observe()
                o.readback()
            o.finish()


def run(case, S):
    (run_two if case['kind'] == 'two' else run_seq)(case, S)


L_PREC = [(0, '1d'), (0, '2d'), (2, '1d'), (2, 'con'), (2, '2d'), (2, 'vec')]


def groups(tier):
    T = tier == 'thorough'
    g = []
    new = list(NEAR) + ['back', 'field2', 'field3', 'kw all', 'field!']
    names = [n for n in OPS if OPS[n][0] != 'prec' and n not in new]
    for be in (0, 2):
        for b in BASES:
            for a in new:
                if OPS[a][1].get('ucell', RELATIVES[b])[:3] != RELATIVES[b][:3] or (b == '1d' and a in ('phi~', 'psi~')):
                    continue
                seqs = [['solve', a], [a, 'back'], ['solve', a, 'solve', 'back'], ['field', a, 'field', 'back', 'field'], ['solve', a, 'kw all'], ['field2', a, 'field3'], ['field3', a, 'field'],
                        ['kw theta,wl', a, 'solve', 'back'], ['vec', 'solve', 'back', a], ['fto01', 'solve', 'back', a]]
                if T:
                    seqs += [['solve', c, 'solve', a] for c in new] + [['solve', c, a, 'back'] for c in names if OPS[c][0] == 'set']
                g.append((len(seqs) * 6, [dict(kind='seq', be=be, base=b, seqs=seqs, field=False)]))
            # a field of the last solve, after operations that change no setting
            idle = [n for n in OPS if OPS[n][0] in ('bad', 'draw', 'field2', 'field!')] + ['field']
            g.append((60, [dict(kind='seq', be=be, base=b, seqs=[['solve', x, 'field!', y, 'field!'] for x in idle for y in idle], field=False)]))
            # long histories
            g.append((60, [dict(kind='seq', be=be, base=b, seqs=[['solve'] * 24, ['field'] * 12, ['solve', 'wl~', 'solve', 'wl', 'solve', 'back', 'solve', 'theta~'] * 3, [a for a in ('theta=0', 'wl', 'theta=-.6', 'n_bot', 'thick', 'cfs', 'lossy', 'vec', 'fto11', 'grid', 'back', 'pol=1', 'period') for a in (a, 'solve')] * 2 + ['back']], field=True)]))
    for be in (0, 2):
        for b in BASES:
            for a in names:
                seqs = []
                for c in names:
                    if b == 'vec' and not T and 'poke' in c and 'poke' not in a:
                        continue
                    if b != 'vec' or T:
                        seqs.append([a, c])
                    if OPS[a][0] in ('set', 'bad'):
                        seqs.append(['solve', a, c])
                    if OPS[a][0] in ('set', 'bad') and (b != 'vec' or T):
                        seqs.append([a, 'field', c] if len(seqs) % 3 == 0 else [a, 'solve', c])
                g.append((len(seqs) * {'1d': 1, 'con': 2, '2d': 3, 'vec': 4}[b] * (1 if be == 0 else 1.7),
                          [dict(kind='seq', be=be, base=b, seqs=seqs, field=b != '1d' or be == 0)]))
    small = ['theta=0', 'phi=None', 'phi=2.3', 'pol=1', 'psi=2.2', 'wl', 'fto11', 'cfs', 'grid', 'vec', 'lossy', 'kw ucell', 'field']
    deep = [(0, '1d'), (2, '1d'), (0, '2d'), (2, 'con')] if not T else [(be, b) for be in (0, 2) for b in BASES]
    alpha = small if T else ['phi=None', 'pol=1', 'fto11', 'grid', 'cfs', 'field', 'kw theta,wl']
    for be, b in deep:
        for a in alpha:
            seqs = [[a, c, d] for c in alpha for d in alpha]
            if T:
                seqs += [[a, 'solve', c, 'solve', d] for c in alpha for d in alpha]
            g.append((len(seqs) * 2, [dict(kind='seq', be=be, base=b, seqs=seqs, field=False)]))
    others = [n for n in names if OPS[n][0] in ('set', 'kw')]
    for be, b in L_PREC:
        seqs = [[x, y] for a in others for x, y in ((a, 'single'), ('single', a))] + [['solve', 'single', a, 'double'] for a in others]
        for i in range(0, len(seqs), 30):
            g.append((60, [dict(kind='seq', be=be, base=b, seqs=seqs[i:i + 30], field=False)]))
    # jax: alphabet restricted to one shape per base, plus a few that change it
    jops = ['theta=0', 'phi=2.3', 'psi=2.2', 'wl', 'period', 'thick', 'n_bot', 'bad pol', 'kw theta,wl', 'field'] + (['pol=1', 'phi=0', 'n_top', 'line2', 'lossy', 'fto11', 'cfs', 'pinv', 'grid'] if T else [])
    for b in ('con', '2d') + (('vec', '1d') if T else ()):
        seqs = [['solve', a, c] for a in jops for c in jops]
        n = len(seqs) // 2 if not T else 30
        for i in range(0, len(seqs), n):
            g.append((10 ** 5, [dict(kind='seq', be=1, base=b, seqs=seqs[i:i + n], field=False)]))
    for b, sq in (('con', [['solve', a] for a in ('pol=1', 'lossy', 'cfs', 'fto01', 'grid')]), ('vec', [['solve', a] for a in ('theta=0', 'line2', 'wl')]),
                  ('1d', [['solve', a] for a in ('pol=1', 'phi=2.3', 'wl')])):
        g.append((10 ** 5, [dict(kind='seq', be=1, base=b, seqs=sq, field=False)]))
    progs = [['solve', 'theta=-.6', 'solve'], ['phi=2.3', 'field', 'wl'], ['grid', 'solve', 'pol=1'], ['vec', 'solve', 'fto20'],
             ['kw theta,wl', 'n_bot', 'field'], ['cfs', 'lossy', 'solve'], ['cfs', 'solve', 'field!']]
    pairs = [(p, q) for p in progs for q in progs]
    for bes in ([0, 0], [2, 2], [0, 2]):
        for bases, shared in ((['2d', '2d'], True), (['vec', 'vec'], True), (['1d', '2d'], False), (['con', 'vec'], False)):
            if shared and bes[0] != bes[1]:
                continue
            for k in range(0, len(pairs), 9 if not T else 4):
                sel = pairs[k:k + (9 if not T else 4)]
                if not T:
                    sel = sel[(k // 9) % 3::3]
                g.append((len(sel) * 100, [dict(kind='two', bes=bes, bases=bases, pa=p, pb=q, shared=shared, every=T) for p, q in sel]))
    for bes in ([0, 0], [2, 2]):
        for b in BASES:
            for shared in (True, False):
                g.append((100, [dict(kind='two', bes=bes, bases=[b, b], pa=pa, pb=pb, shared=shared, every=False) for pa, pb in (
                    (['cfs', 'solve', 'field!'], ['cfs', 'theta=-.6', 'solve']), (['solve', 'field!', 'field!'], ['lossy' if b in ('1d', 'con') else RELATIVES[b] + ('-n' if b == 'vec' else '-perm'), 'solve', 'field!']))]))
    g.append((10 ** 5, [dict(kind='two', bes=[1, 0], bases=['con', 'con'], pa=['solve', 'theta=-.6', 'solve'], pb=['phi=2.3', 'field', 'wl'], shared=False, every=False)]))
    return g
