#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--runs N] [--budget S]"""
import argparse
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import boot  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--replay')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--budget', type=float)
    ap.add_argument('--seed', type=int)
    ap.add_argument('--show', action='store_true')
    ap.add_argument('--digests', type=int, help='print the trace digest of the first N runs')
    a = ap.parse_args()
    boot.enter([os.path.abspath(__file__)] + sys.argv[1:])
    boot.load_code()
    from sim import core
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED', '1'))
    if a.replay:
        rec, res = core.replay(a.prop, a.replay)
        if a.show:
            print('\n'.join(res['events']))
            print(res.get('tb', ''))
        if res['status'] == 'viol':
            print(f"{res['viol'][0]}: {res['viol'][1]}")
            print(f"VIOLATION property={a.prop} replay={a.replay}")
            print('trace identical to the recorded one:', res['digest'] == rec.get('trace_digest'))
            return 1
        print('replay:', res['status'], res.get('tb', ''))
        return 0 if res['status'] == 'ok' else 2
    if a.digests:
        prop = core.load_prop(a.prop)
        base = core.make_base()
        pool = core.Pool(prop, int(os.environ.get('KINISI_SIM_WORKERS', core.workers())), base)
        out = {}
        for res in pool.map((i, core.scenario(prop, seed, i, tier)) for i in range(a.digests)):
            out[res['key']] = (res['status'], res['digest'])
            if a.show:
                out[res['key']] += (res.get('viol'), res.get('tb'), round(res['wall'], 2))
        os.rmdir(base)
        for i in sorted(out):
            print(i, *out[i])
        return 0
    return core.check(a.prop, tier, seed, a.runs, a.budget)


if __name__ == '__main__':
    sys.exit(main())
