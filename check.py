#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decides one property on /repo's current headers."""
import argparse, importlib, json, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gatlcheck import engine, registry

VERIF = os.path.dirname(os.path.abspath(__file__))


def load_known():
    f = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f))['findings'] if k.get('status') == 'known']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', help='probe name substring')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--all', action='store_true', help='report every violated obligation')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if not os.path.isdir(engine.INC):
        print('ANALYSIS-ERROR no headers at %s' % engine.INC)
        return 2
    prop = registry.get(a.prop)
    probes = prop.probes(a.tier)
    if a.only:
        probes = [p for p in probes if a.only in p.name or a.only in p.what]
    if len(probes) < (1 if a.only else prop.min_probes):
        print('ANALYSIS-ERROR property %s has only %d obligations' % (a.prop, len(probes)))
        return 2
    res, ntu = engine.run(probes)
    known = [k for k in load_known() if k['property'] == a.prop]
    viol, unsup, ok, seen_known = [], [], [], []
    skipped = 0
    for p, r in zip(probes, res):
        if r['status'] == 'unsupported':
            unsup.append((p, r))
            continue
        if r['status'] == 'skipped':
            skipped += 1
            continue
        r['violations'] = [v for v in r.get('violations', []) if v['kind'] in prop.kinds]
        hit = [k for k in known if k['program'] == p.what]
        if r['violations'] and hit and matches(hit[0], r):
            seen_known.append(hit[0])
            ok.append((p, r))
        elif r['violations']:
            viol.append((p, r))
        else:
            ok.append((p, r))
    for k in seen_known:
        print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what_fails']))
    if a.v:
        for p, r in zip(probes, res):
            print('%-10s %-12s %6.1fs %s' % (r['status'], p.name, r.get('secs', 0), p.what))
    for p, r in unsup:
        print('NOT-ANALYSED %s (%s): %s' % (p.name, p.what, r.get('why', '')[:500]))
    tot = {k: sum(r.get(k, 0) for _, r in ok + viol) for k in ('traces', 'outputs', 'statements', 'blocks', 'loads', 'stores')}
    ev = {
        'property': a.prop, 'tier': a.tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': prop.explanation,
            'rule': prop.rule,
            'programs_analysed': len(ok) + len(viol), 'programs_not_analysed': len(unsup) + skipped, 'translation_units': ntu,
            'gimple_blocks': tot['blocks'], 'gimple_statements': tot['statements'], 'traces': tot['traces'],
            'output_obligations': tot['outputs'], 'memory_reads': tot['loads'], 'memory_writes': tot['stores'],
            'compile_time_witnesses': sum(1 for p, _ in ok + viol if p.kind != 'value'),
            'samples': [p.what for p, _ in (ok + viol)[:: max(1, len(ok) // 12)]][:16],
            'not_analysed': [p.what for p, _ in unsup][:20],
            'known_findings_seen': len(seen_known),
        },
        'assumptions': prop.assumptions,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viol),
    }
    rc = 0
    if viol:
        rd = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        first = True
        for p, r in viol[:(10**6 if a.all else 8)]:
            path = os.path.join(rd, '%s-%s.json' % (a.prop, p.name))
            locs, cmd = engine.locate(p) if first and p.kind == 'value' and r['violations'][0]['kind'] != 'does-not-compile' else ([], '')
            with open(path, 'w') as h:
                json.dump({'property': a.prop, 'program': p.what, 'violations': r['violations'], 'source': engine.tu_source([p]),
                           'library_lines_on_the_path': locs, 'rerun': 'cd /verif && python3 check.py %s --only %s -v' % (a.prop, p.name)}, h, indent=1)
            v = r['violations'][0]
            print('VIOLATION property=%s replay=%s' % (a.prop, path))
            print('  program: %s' % p.what)
            print('  %s: %s' % (v['kind'], v['text'][:600]))
            if v.get('when') and v['when'] != 'always':
                print('  when: %s' % v['when'][:400])
            if locs:
                print('  computed by: %s' % ', '.join(locs[:8]))
            first = False
        if len(viol) > 8 and not a.all:
            print('  ... and %d more violated obligations' % (len(viol) - 8))
        if skipped:
            print('  (%d programs of translation units that do not compile were not compiled one by one)' % skipped)
        rc = 1
    elif len(unsup) > max(1, len(probes) // 10):
        print('ANALYSIS-ERROR %d of %d programs could not be analysed' % (len(unsup), len(probes)))
        rc = 2
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not a.only:
        with open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w') as h:
            json.dump(ev, h, indent=1)
    print('%s %s: %d programs, %d statements, %d traces, %d outputs compared, %d violated, %d not analysed, %.1fs' %
          (a.prop, a.tier, len(ok) + len(viol), tot['statements'], tot['traces'], tot['outputs'], len(viol), len(unsup), time.time() - t0))
    return rc


def matches(k, r):
    """A known finding covers the listed program only and, where a signature is given, only those wrong outputs of it."""
    want = k.get('signature')
    if want == 'any':
        return True
    return want is not None and sorted(v['kind'] + ':' + v['text'] for v in r['violations']) == sorted(want)


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        print('ANALYSIS-ERROR %s' % e)
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
