"""C01: a saved analysis loads back as the same analysis, at every stage of its life."""
import copy
import os
import pickle

import numpy as np

from .. import world as W
from ..core import in_fork, Violation

ID = 'C01'
LEVEL = 'exploration'
TIERS = {'quick': dict(runs=1200, budget=240, redo=20), 'thorough': dict(runs=20000, budget=1500, redo=60)}
RULE = ('a run is a random history of analysis steps, predictions, saves, loads into new processes and dictionary round '
        'trips of one analysis, executed next to the same history without any of the round trips; distinct = different '
        '(analysis settings, operation sequence) shapes')
ASSUMPTIONS = ['same platform and library versions on both sides', 'a healthy disk (failures are C02)']
REAL = ['kinisi', 'h5py/HDF5 on the real file system in a scratch directory', 'process boundary (fork per generation)']
STUBS = ['entropy, progress clock and display']


def gen(rng, tier, idx):
    spec = W.gen_simple(rng)
    few = rng.random() < 0.08
    if few:  # an analysis of one or two time intervals, too few for most steps
        spec['opts'].pop('sub_dt', None)
        m = rng.choice((1, 1, 2))
        spec['opts']['grid'] = dict(mode='stride', k=rng.choice((1, 2)), m=m if spec['opts']['kind'] == 'diff' else 2 * m)
    ops = []
    for _ in range(rng.choice((1, 2, 3, 3, 4, 5))):
        r = rng.random()
        if r < 0.38:
            s = W.gen_step(rng, light=False)
            done = [o for o in ops if o[0] == 'step' and 'refused' not in o[1]]
            if done and rng.random() < 0.4:
                s = W.vary(rng, done[-1][1])
            ops.append(['step', s, rng.random() < 0.6, few])
        elif r < 0.41:
            ops.append(['step', dict(W.gen_step(rng), refused=rng.choice((1e9, 1e300))), True, True])
        elif r < 0.48:
            ops.append(['ppd', rng.randrange(10**6), rng.choice((1, 2, 5)), rng.choice((1, 3))])
        elif r < 0.8:
            ops.append(['hdf', rng.choice(('a', 'a.hdf', 'b.x', 'c.tar.gz', 'sub/d', './e'))])
        else:
            ops.append(['dict', rng.choice(('plain', 'pickle', 'copy'))])
    if not any(o[0] in ('hdf', 'dict') for o in ops):
        ops.insert(rng.randrange(len(ops) + 1), ['hdf', 'a'])
    if rng.random() < 0.2:
        spec['bare'] = True  # the bootstrap object on its own, by dictionary
        ops = [['dict', 'plain'] if o[0] == 'hdf' else o for o in ops]
        for o in ops:
            if o[0] == 'step' and rng.random() < 0.5:
                o[1]['which'] = rng.choice(('diff', 'jump', 'cond'))
    return dict(spec=spec, ops=ops)


def apply(an, kind, op, run):
    if op[0] == 'step':
        np.random.seed(op[1]['seed'] % (2**32))
        bare = not hasattr(an, 'volume')
        try:
            if bare:
                W.boot_step(an, op[1].get('which', kind), op[1], seeded=op[2], start=op[1].get('refused'))
            else:
                W.do_step(an, kind, op[1], seeded=op[2], start=op[1].get('refused'))
        except Exception as e:  # noqa  (a step the original refuses must be refused by the restored one)
            if not op[3]:
                raise
            return f'refused ({type(e).__name__})'
        return None
    if op[0] == 'ppd':
        np.random.seed(op[1])
        kw = dict(n_posterior_samples=op[2], n_predictive_samples=op[3], progress=False)
        try:
            r = an.posterior_predictive(kw) if hasattr(an, 'volume') else an.posterior_predictive(**kw)
            return W.C(r)
        except Exception as e:  # noqa  (nothing analysed yet)
            return f'unavailable ({type(e).__name__})'


def start(spec):
    an = W.simple(spec)
    return an._diff if spec.get('bare') else an


def reference(spec, ops):
    """The same life without any round trip."""
    an = start(spec)
    kind = spec['opts']['kind']
    out = [(None, W.observe(an))]
    for op in ops:
        extra = None
        if op[0] in ('step', 'ppd'):
            extra = apply(an, kind, op, None)
        out.append((extra, W.observe(an)))
    return out


def live(an, sc, i, want, run, gen_no):
    """Continue the history at operation i in this process."""
    spec, ops = sc['spec'], sc['ops']
    kind = spec['opts']['kind']
    n = 0
    while i < len(ops):
        op = ops[i]
        desc = f'operation {i} {op[0]} after {gen_no} round trips'
        extra = None
        if op[0] in ('step', 'ppd'):
            try:
                extra = apply(an, kind, op, run)
            except Exception as e:
                raise Violation('unexpected-error', f'{desc} raised {type(e).__name__}: {e} although the original does it')
        elif op[0] == 'hdf':
            name = f'g{gen_no}_' + op[1] if not op[1].startswith(('sub/', './')) else op[1].replace('/', f'/g{gen_no}_')
            d = os.path.dirname(name)
            if d:
                os.makedirs(d, exist_ok=True)
            try:
                an.save(name)
            except Exception as e:
                raise Violation('save-failed', f'{desc}: save({name!r}) raised {type(e).__name__}: {e}')
            d = _same(W.observe(an), want[i + 1][1], f'{desc}: the analysis changed by being saved')
            if d:
                raise Violation('changed-by-save', d)
            st, r = in_fork(_loaded, sc, i + 1, want, name, gen_no + 1)
            if st == 'exc':
                raise r
            if st == 'died':
                raise Violation('load-died', f'{desc}: the process that loaded {name!r} died ({r})')
            return n + r
        else:
            K = type(an)
            try:
                dct = an.to_dict()
                if op[1] == 'pickle':
                    dct = pickle.loads(pickle.dumps(dct))
                elif op[1] == 'copy':
                    dct = copy.deepcopy(dct)
                before = W.C(dct)
                if spec.get('bare'):
                    import kinisi.diffusion as kd
                    new = kd.Bootstrap.from_dict(dct)
                else:
                    new = K.from_dict(dct)
            except Exception as e:
                raise Violation('dict-failed', f'{desc} raised {type(e).__name__}: {e}')
            old = (an, W.observe(an))
            # go on with the restored one; the original and the dictionary must not notice
            n += live(new, sc, i + 1, want, run, gen_no + 1)
            d = _same(W.observe(old[0]), old[1], f'{desc}: the original changed while the restored one was used')
            if d:
                raise Violation('shared-state', d)
            d = _same(W.C(dct), before, f'{desc}: the dictionary changed while the restored one was used')
            if d:
                raise Violation('shared-state', d)
            d = _same(W.observe(new) if i + 1 == len(ops) else None, want[i + 1][1] if i + 1 == len(ops) else None,
                      desc + ': the restored analysis differs')
            if d:
                raise Violation('restored-differs', d)
            return n
        n += 1
        d = _same(extra, want[i + 1][0], f'{desc}: result differs') or \
            _same(W.observe(an), want[i + 1][1], f'{desc}: the analysis differs from one never saved')
        if d:
            raise Violation('restored-differs', d)
        i += 1
    return n + 1


def _same(a, b, what):
    from ..core import diff
    d = diff(a, b)
    return f'{what}: {d}' if d else None


def _loaded(sc, i, want, name, gen_no):
    K = W.klass(sc['spec']['opts']['kind'])
    try:
        an = K.load(name)
    except Exception as e:
        raise Violation('load-failed', f'load({name!r}) raised {type(e).__name__}: {e}')
    d = _same(W.observe(an), want[i][1], f'load({name!r}) after {gen_no} round trips')
    if d:
        raise Violation('restored-differs', d)
    return live(an, sc, i, want, None, gen_no)


def run(sc, run):
    st, want = in_fork(reference, sc['spec'], sc['ops'])
    if st != 'ok':
        run.fail('unexpected-error', f'the plain history raised {type(want).__name__}: {want}')
    an = start(sc['spec'])
    n = live(an, sc, 0, want, run, 0)
    run.count('checks', n)
    kinds = [o[0] for o in sc['ops']]
    for k in kinds:
        run.count(f'probe:{k}')
    run.count('fault:process boundary', kinds.count('hdf'))
    o = sc['spec']['opts']
    run.log(kinds, n, W.dig(want))
    run.sig(sc['spec']['route'], o['kind'], o['dims'], o.get('sub_dt'), bool(o.get('bootstrap')), bool(o.get('block')),
            o['sampling'], '>'.join(x[0] + ('' if x[0] != 'step' else 'M' * bool(x[1].get('model')) + 'I' * (
                'fit_intercept' in x[1])) for x in sc['ops']))


def shrink(sc):
    for i in range(len(sc['ops'])):
        if len(sc['ops']) > 1:
            c = copy.deepcopy(sc)
            del c['ops'][i]
            yield c
    for k in ('bootstrap', 'sub_dt', 'block'):
        if sc['spec']['opts'].get(k):
            c = copy.deepcopy(sc)
            c['spec']['opts'].pop(k)
            yield c
    for k, v in (('dims', 'xyz'), ('sampling', 'multi-origin')):
        if sc['spec']['opts'][k] != v:
            c = copy.deepcopy(sc)
            c['spec']['opts'][k] = v
            yield c
    for k, v in (('drift', 0.0), ('cell', 'cubic'), ('mix', 'grouped'), ('skip', 1), ('nf', 0)):
        if sc['spec']['world'][k] != v:
            c = copy.deepcopy(sc)
            c['spec']['world'][k] = v
            yield c
