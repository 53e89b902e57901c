"""C15: operations survive interruption, and other objects' operations, at every point of their execution.

The scheduler is a trace function: it stops the real implementation at a chosen line (or call) inside meent and there either
runs complete operations of another object (a preemption by a second thread, with one context switch there and back) or raises
an exception that the implementation cannot expect (KeyboardInterrupt).  Every such point of every operation is enumerated."""
import copy
import os
import sys
import threading

import numpy as np

os.environ['TQDM_DISABLE'] = '1'

from mc import meentio as io
from mc.checks import c06
from mc.checks.c06 import CELLS, FR, Obj, base, compare, encode, expected, expected_field, model_step

ID = 'C15'
BOUNDS = ('operations {solve, keyword solve, field, drawing of vector shapes, filling a cell with materials, setting every attribute, switching the precision, grad, fit} x 4 structures x backend; '
          'every executed line of meent inside the operation (JAX: every call; thorough: every line) as preemption point for complete operations of another object, and as point of interruption by an exception')
ASSUMPTIONS = ['one preemption per operation; the preempting operations are complete', 'after an interrupted change of settings the user assigns the settings again',
               'two threads do not share one solver object']
SETTINGS = ('theta', 'phi', 'wavelength', 'period', 'fto', 'thickness', 'n_top', 'n_bot', 'fourier_type', 'enhanced_dfs', 'use_pinv', 'ucell')


class Stop(BaseException):
    """Stands for KeyboardInterrupt."""


ROOT = os.path.join(os.environ.get('MEENT_REPO', '/repo'), 'meent') + os.sep


def at_point(fn, k, action, event):
    """Run fn(); at the k-th event ('line' or 'call') inside meent call action().  Returns (result, number of events seen)."""
    n = [0]

    def hit():
        n[0] += 1
        if n[0] == k:
            sys.settrace(None)
            action()
            return True

    def local(frame, ev, arg):
        if ev == event and hit():
            return None
        return local

    def tr(frame, ev, arg):
        if not frame.f_code.co_filename.startswith(ROOT):
            return None
        if event == 'call' and hit():
            return None
        return local if event == 'line' else None
    sys.settrace(tr)
    try:
        return fn(), n[0]
    finally:
        sys.settrace(None)


def in_thread(fn):
    """Run fn in a thread of its own (its own thread-local state, as a second thread of the user has) and wait for its end."""
    err = []

    def body():
        try:
            fn()
        except BaseException as e:
            err.append(e)
    t = threading.Thread(target=body)
    t.start()
    t.join()
    if err:
        raise err[0]


DRAWING = [[1.2, [['rectangle', 400, 310, 330, 190, 2.1, 0.6, 2, 3], ['rectangle', 500, 400, 120, 330, 1.5, 0.0, 1, 1], ['ellipse', 300, 200, 120, 90, 1.7, -0.4, 4, 4]]],
           [1.0, [['ellipse', 420, 330, 410, 230, 1.8 - 0.1j, 0.35, 6, 6], ['rectangle', 300, 200, 150, 90, 1.7, 2.2, 3, 3]]]]
MATERIALS = {}


def materials():
    from mc import materials as M
    if not MATERIALS:
        lib = M.read_library(os.environ.get('MEENT_REPO', '/repo'))
        names = sorted(n for n in lib if lib[n]['range'][0] < 5e-7 and lib[n]['range'][1] > 9e-7)
        MATERIALS['n'] = [names[0], 1.25, names[-1].lower() + '__real']
    return MATERIALS['n']



def flat(x):
    if isinstance(x, (list, tuple)):
        return [v for u in x for v in flat(u)]
    if hasattr(x, 'shape'):
        return [complex(v) for v in np.ravel(io.to_np(x))]
    return [complex(x)]


def fill(m, be, wl):
    mask = np.array([[[0, 1, 2], [2, 0, 1]]])
    return m.put_refractive_index_in_ucell(mask if be != 2 else io.mods()['torch'].tensor(mask), materials(), wl)


def tloss(r):
    return (r.de_ri.real * io.mods()['torch'].arange(1.0, 1.0 + r.de_ri.numel(), dtype=io.mods()['torch'].float64).reshape(r.de_ri.shape)).sum() + (r.de_ti.real ** 2).sum()


_want = {}


def memo(key, fn):
    if key not in _want:
        _want[key] = fn()
    return _want[key]


def settle(o, cfg):
    """Assign every setting again."""
    for k in SETTINGS + ('psi' if 'psi' in cfg else 'pol',):
        setattr(o.m, k, encode(o.be, k, cfg[k], o.keep))


def operation(o, what):
    """(the bare operation, judge(result, log), what the user does after an interruption)."""
    S, nm, be, m = o.S, io.BACKENDS[o.be], o.be, o.m
    res = lambda r, log: compare(S, nm, io.unpack(r), expected(be, o.cfg, S)[0], log, o.tol)
    nothing = lambda: None
    if what == 'solve':
        return m.conv_solve, res, nothing
    if what == 'field':
        m.conv_solve()
        want = expected_field(be, o.cfg, S)
        return (lambda: m.calculate_field(**FR)), lambda f, log: S.close(f'{nm}-field', io.to_np(f), want, o.tol * max(1.0, np.abs(want).max()), f'field: {log}'), nothing
    if what == 'kw':
        upd = dict(theta=0.9, wavelength=700.0, n_bot=1.9, thickness=[50.0, 400.0])
        o.cfg = model_step(o.cfg, upd)
        kw = {k: encode(be, k, v, o.keep) for k, v in upd.items()}
        return (lambda: m.conv_solve(**kw)), res, lambda: [setattr(m, k, encode(be, k, upd[k], o.keep)) for k in upd]
    if what == 'draw':
        want = memo((be, 'draw', c06.key(o.cfg)), lambda: flat(io.build(be, o.cfg).modeling_vector_instruction(copy.deepcopy(DRAWING))))
        return (lambda: m.modeling_vector_instruction(copy.deepcopy(DRAWING))), lambda r, log: S.close(f'{nm}-draw', np.array(flat(r)), np.array(want), 1e-12, f'{log}'), nothing
    if what == 'fill':
        want = memo((be, 'fill'), lambda: io.to_np(fill(io.build(be, base('1d')), be, 6.1e-7)).copy())
        return (lambda: fill(m, be, 6.1e-7)), lambda r, log: S.close(f'{nm}-fill', io.to_np(r), want, 1e-12, f'{log}'), nothing
    if what in ('set', 'prec'):
        c = dict(o.cfg, theta=-0.6, wavelength=540.0, period=[760.0, 980.0], fto=[2, 0] if c06.RELATIVES[o.log[0]] == 'line' else [2, 1], thickness=[310.0, 45.0], n_top=1.0, n_bot=[1.9, -0.3], fourier_type=1,
                 ucell=copy.deepcopy(CELLS[c06.RELATIVES[o.log[0]] + ('-n' if o.log[0] == 'vec' else '-perm')]))
        if c['phi'] is not None:
            c['phi'] = 2.3
        c.pop('psi', None), c.pop('pol', None)
        c['psi' if o.log[0] != '1d' else 'pol'] = 2.2 if o.log[0] != '1d' else 1
        old = o.cfg
        o.cfg = c
        if what == 'set':
            go = lambda: settle(o, c)
        else:
            def go():
                m.type_complex = io.ctype(be, 1)
                m.type_complex = io.ctype(be, 0)
                settle(o, c)

        def again():
            if what == 'prec':
                m.type_complex = io.ctype(be, 0)
            settle(o, c)
        return go, lambda r, log: res(m.conv_solve(), log), again
    torch = io.mods()['torch']
    pois = ['thickness', 'ucell']
    if what == 'grad':
        def one():
            f = io.build(2, o.cfg)
            return {k: io.to_np(v).copy() for k, v in f.grad(pois, f.conv_solve, tloss).items()}
        want = memo((be, 'grad', c06.key(o.cfg)), one)

        def judge(r, log):
            for k in pois:
                S.close(f'{nm}-grad', io.to_np(r[k]), want[k], 1e-9 + 1e-7 * np.abs(want[k]).max(), f'{k}: {log}')
        return (lambda: m.grad(pois, m.conv_solve, tloss)), judge, nothing

    def steps(f, n):
        f.fit(pois, f.conv_solve, tloss, torch.optim.SGD, dict(lr=0.01), iteration=n)
        return [io.to_np(getattr(f, k)).copy() for k in pois]
    o.keep = []         # the optimiser moves the user's tensors, as optimisers of torch do
    want = memo((be, 'fit', c06.key(o.cfg)), lambda: [steps(io.build(2, o.cfg), n) for n in range(3)])

    def judge(r, log):
        for k, v, w in zip(pois, r, want[2]):
            S.close(f'{nm}-fit', io.to_np(v), w, 1e-9, f'{k}: {log}')
        moved(2)

    def moved(n):
        o.cfg = dict(o.cfg, thickness=list(want[n][0]), ucell=dict(r=want[n][1].tolist()))

    def after():        # the parameters are those after 0, 1 or 2 whole steps (each may have been stepped or not)
        for i, k in enumerate(pois):
            g = io.to_np(getattr(m, k))
            S.true(f'{nm}-fit', any(np.abs(g - w[i]).max() < 1e-9 for w in want), f'{k} is between two steps: {o.log}')
        o.cfg = dict(o.cfg, thickness=io.to_np(m.thickness).tolist(), ucell=dict(r=io.to_np(m.ucell).tolist()))
    return (lambda: m.fit(pois, m.conv_solve, tloss, torch.optim.SGD, dict(lr=0.01), iteration=2)), judge, after


FTS = {'dfs': {}, 'cfs': dict(fourier_type=1), 'plain': dict(enhanced_dfs=False)}


def other_cfg(b):
    c = base(b)
    c.update(theta=-0.5, wavelength=540.0, n_bot=1.9, thickness=[310.0, 45.0], period=[760.0, 980.0])
    r = c06.RELATIVES[b]
    c['ucell'] = copy.deepcopy(CELLS[r + ('-n' if r == 'vec' else '-perm')])
    return c


def start(case, S):
    o = Obj(case['be'], dict(base(case['base']), **FTS[case.get('ft', 'dfs')]), S)
    o.log.append(case['base'])
    return o, operation(o, case['op'])


def points(case, S):
    o, (go, judge, again) = start(case, S)
    _, total = at_point(go, 0, None, case['event'])
    return total, range(case['from'] + 1, total + 1, case['of'])


def run_preempt(case, S):
    be, what = case['be'], case['op']
    nm = io.BACKENDS[be]
    total, ks = points(case, S)
    for k in ks:
        S.state([be, case['base'], case.get('ft'), what, k, case['other'], case['event']])
        S.traces += 1
        a, (go, judge, again) = start(case, S)
        z = Obj(be, dict(other_cfg(case['other']), **FTS[case.get('ft', 'dfs')]), S)
        got = []

        def other():
            if what in ('fill', 'draw'):
                got.append(fill(z.m, be, 7.3e-7) if what == 'fill' else z.m.modeling_vector_instruction([[1.1, [['rectangle', 300, 200, 150, 90, 1.7, 0.5, 2, 2], ['ellipse', 350, 300, 200, 150, 2.0, 0.2, 4, 4]]]]))
            elif what in ('grad', 'fit'):
                got.append(z.m.grad(['thickness', 'ucell'], z.m.conv_solve, tloss))
            else:
                got.append(z.m.conv_solve())
                if what == 'field':
                    got.append(z.m.calculate_field(**FR))
        log = f'{what} preempted at {case["event"]} {k} of {total} by another object'
        r, n = S.call(f'{nm} {log}', at_point, go, k, lambda: in_thread(other), case['event'])
        judge(r, log)
        if not got:         # the implementation remembered something and took a shorter way
            continue
        if what == 'fill':
            want = memo((be, 'fill2'), lambda: io.to_np(fill(io.build(be, base('1d')), be, 7.3e-7)).copy())
            S.close(f'{nm}-fill', io.to_np(got[0]), want, 1e-12, f'the other object during {log}')
        elif what == 'draw':
            want = memo((be, 'draw2', c06.key(z.cfg)), lambda: flat(io.build(be, z.cfg).modeling_vector_instruction([[1.1, [['rectangle', 300, 200, 150, 90, 1.7, 0.5, 2, 2], ['ellipse', 350, 300, 200, 150, 2.0, 0.2, 4, 4]]]])))
            S.close(f'{nm}-draw', np.array(flat(got[0])), np.array(want), 1e-12, f'the other object during {log}')
        elif what in ('grad', 'fit'):
            def one():
                f = io.build(2, z.cfg)
                return {k: io.to_np(v).copy() for k, v in f.grad(['thickness', 'ucell'], f.conv_solve, tloss).items()}
            want = memo((be, 'grad', c06.key(z.cfg)), one)
            for k2 in want:
                S.close(f'{nm}-grad', io.to_np(got[0][k2]), want[k2], 1e-9 + 1e-7 * np.abs(want[k2]).max(), f'{k2} of the other object during {log}')
        else:
            now = io.unpack(got[0])
            compare(S, nm, now, expected(be, z.cfg, S)[0], f'the other object during {log}', z.tol)
            z.results.append((got[0], now))
            if len(got) > 1:
                want = expected_field(be, z.cfg, S)
                S.close(f'{nm}-field', io.to_np(got[1]), want, z.tol * max(1.0, np.abs(want).max()), f'the other object during {log}')
        for x in (a, z):
            x.log.append(log)
            if be != 1:
                x.observe()
            x.finish()


def run_crash(case, S):
    be, what = case['be'], case['op']
    nm = io.BACKENDS[be]
    total, ks = points(case, S)
    for k in ks:
        S.state([be, case['base'], case.get('ft'), what, k, 'crash', case['event']])
        S.traces += 1
        S.transitions += 1
        a, (go, judge, again) = start(case, S)

        def stop():
            raise Stop
        try:
            at_point(go, k, stop, case['event'])
        except Stop:
            pass
        except Exception:
            pass          # the code turned the interruption into an error of its own
        log = f'{what} interrupted at {case["event"]} {k} of {total}'
        a.log.append(log)
        S.call(f'{nm} assignments after {log}', again)
        if what in ('draw', 'fill', 'grad', 'field'):
            _, (go, judge, _) = a, operation(a, what)
            judge(S.call(f'{nm} {what} after {log}', go), 'after ' + log)
        if what not in ('draw', 'fill', 'field', 'grad') or be != 1:
            a.observe()
        a.finish()


def run(case, S):
    {'preempt': run_preempt, 'crash': run_crash}[case['kind']](case, S)
    if case['be'] == 1:
        io.mods()['jax'].clear_caches()


def groups(tier):
    T = tier == 'thorough'
    g = []
    for be in (0, 2, 1):
        bases = list(c06.BASES) if be != 1 or T else ['con', '2d']
        ops = ['solve', 'field', 'kw', 'draw', 'fill', 'set', 'prec'] + (['grad', 'fit'] if be == 2 else [])
        if be == 1:
            ops = ['solve', 'field', 'draw', 'set'] + (['kw'] if T else [])
        for b in bases:
            for op in ops:
                if op in ('draw', 'fill') and b != '1d' and not (be == 1 and b == 'con'):
                    continue
                if op in ('grad', 'fit') and b == 'vec':
                    continue
                ev = 'line' if be != 1 or T else 'call'
                for kind in ('preempt', 'crash'):
                    if not T and ((kind == 'preempt' and op in ('kw', 'prec', 'set')) or (op in ('kw', 'prec', 'set', 'fit') and b in ('con', 'vec')) or (op == 'solve' and b == 'con' and be != 1)):
                        continue
                    n = {'vec': 8, '2d': 3}.get(b, 2) * (4 if be == 1 and T else 1)
                    for o in ([b] if not T or op in ('draw', 'fill') or kind == 'crash' or be == 1 else [b, 'con' if b != 'con' else '2d']):
                        w = {'1d': 1, 'con': 2, '2d': 2, 'vec': 5}[b] * (1 if be == 0 else 2.5) * (3 if op in ('grad', 'fit') else 1) * (20 if be == 1 else 1)
                        g += [(w, [dict(kind=kind, be=be, base=b, op=op, event=ev, other=o, of=n, **{'from': i})]) for i in range(n)]
    # the other Fourier series
    for be in (0, 2, 1):
        for b, op, ft in [(b, op, ft) for b in ('1d', 'con', '2d') for op in ('solve', 'field') for ft in ('cfs', 'plain')]:
            if (be == 1 and (b != 'con' or ft != 'cfs')) or (not T and ft == 'plain' and b != '1d') or (not T and op == 'solve' and b == 'con'):
                continue
            for kind in ('preempt', 'crash'):
                if kind == 'crash' and not T and (op == 'field' or be == 1):
                    continue
                n = 3 if b == '2d' else 2
                w = {'1d': 1, 'con': 2, '2d': 2}[b] * (1 if be == 0 else 2.5) * (20 if be == 1 else 1)
                g += [(w, [dict(kind=kind, be=be, base=b, op=op, event='line' if be != 1 or T else 'call', other=b, ft=ft, of=n, **{'from': i})]) for i in range(n)]
    return g
