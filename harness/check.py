"""check.py PROPERTY: decides one property of the code in /repo's working tree (see DESIGN.md).

Exit 0: held on everything explored.  Exit 1 and 'VIOLATION property=<id> replay=<path>': broken.  Exit 2: machinery."""
import json
import os
import sys
import time
import traceback

import vlib
from vlib import MachineryError, log
import plans


def load_known():
    with open(os.path.join(vlib.VERIF, 'known_findings.json')) as f:
        return json.load(f)


def validate(traces, timeout, module='Trace'):
    """TLC on Trace.tla (or the given module); returns the failing events as (trace id, position, clauses)."""
    files = {'traces.json': traces}
    total = sum(len(t['ev']) + 1 for t in traces)
    out, st = vlib.tlc(module, 'INIT Init\nNEXT Next\nINVARIANT Report\nCHECK_DEADLOCK FALSE\n', files, timeout=timeout)
    if module == 'Trace' and st['distinct'] != total:
        raise MachineryError('trace validation visited %d of %d states' % (st['distinct'], total))
    bad = {}
    for b in vlib.tlc_json(out, 'BAD'):
        bad[(b['id'], b['l'])] = b['bad']
    return bad, st


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    plan = plans.PLANS[prop]
    src = vlib.build(plan.get('sanitize', False))
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], events=0, by_call={}, generators=[])
    known = [k for k in load_known() if k['property'] == prop and k['status'] == 'known']
    violations, knowns = [], {}
    for run in plan['runs'](tier, seed):
        if os.environ.get('VERIF_ONLY', run.get('gen', run.get('spec'))) != run.get('gen', run.get('spec')):
            continue       # for development
        traces, gst = [], None
        if 'spec' in run:      # the specification alone: laws and invariants
            out, gst = vlib.tlc(run['spec'], run['cfg'], timeout=run.get('timeout', 600), args=run.get('args', ()))
            if 'violated' in out or 'Error:' in out:
                raise MachineryError('%s: %s' % (run['spec'], out[-3000:]))
            cov['states'] += gst['distinct']
            cov['transitions'] += gst['generated']
            cov['generators'].append('%s: laws of the specification hold (%d states)' % (run['spec'], gst['distinct']))
            if not run.get('gen'):
                continue
        traces = []
        for g in [run] if not run.get('spec') and 'many' not in run else run.get('many', []):
            out, gst = vlib.tlc(g['gen'], g['cfg'], timeout=g.get('timeout', 600), args=g.get('args', ()))
            cov['states'] += gst['distinct']
            cov['transitions'] += gst['generated']
            got = vlib.tlc_json(out, 'CASE')
            if 'many' in run:
                for t in got:
                    t['id'] = '%s %s' % (g['name'], t['id'])
            traces += got
        traces.sort(key=lambda t: json.dumps(t['id']))
        ids = [json.dumps(t['id']) for t in traces]
        if len(set(ids)) != len(ids):
            raise MachineryError('generator gave the same case twice')
        if len(traces) < run.get('least', 1):
            raise MachineryError('generator gave only %d cases' % len(traces))
        gen_name = run.get('gen', run.get('spec'))
        cov['generators'].append('%s: %d behaviours' % (gen_name, len(traces)))
        traces = vlib.replay(src, traces, timeout=run.get('limit', 120), sanitize=plan.get('sanitize', False))
        if plan.get('sanitize'):
            from_memory(traces, run)
        for t in traces:
            for e in t['ev']:
                name = e['op']
                if name == 'bad':
                    name += '/' + e['what'] + ('/accepted' if e['obs'].get('rejected') == '' else '/rejected')
                if name == 'set':
                    name += '/' + e['attr']
                cov['by_call'][name] = cov['by_call'].get(name, 0) + 1
                cov['events'] += 1
        bad, st = validate(traces, run.get('vtimeout', 800), run.get('validator', 'Trace'))
        cov['states'] += st['distinct']
        cov['transitions'] += st['generated']
        cov['traces_validated_against_impl'] += len(traces)
        cov['samples'] += [shorten(t) for t in traces[:2]]
        byid = {json.dumps(t['id']): t for t in traces}
        for (tid, l), clauses in sorted(bad.items(), key=lambda x: json.dumps(x[0])):
            t = byid[json.dumps(tid)]
            k = match_known(known, t, l, clauses)
            if k is not None:
                knowns.setdefault(k['id'], (k, 0))
                knowns[k['id']] = (k, knowns[k['id']][1] + 1)
            else:
                violations.append((gen_name, t, l, clauses))
    cov['samples'] = cov['samples'][:4]
    for k, n in knowns.values():
        print('KNOWN-FINDING: property=%s %s (%s, %d events)' % (prop, k['what'], k['id'], n))
    cov['known_findings_seen'] = sorted(knowns)
    ev = dict(property=prop, tier=tier, seed=seed, level=plan['level'], coverage=cov, wall_s=round(time.time() - t0, 1))
    os.makedirs(os.path.join(vlib.VERIF, 'evidence'), exist_ok=True)
    if violations:
        gen_name, t, l, clauses = violations[min(int(os.environ.get('VERIF_SHOW', 0)), len(violations) - 1)]
        path = os.path.join(vlib.VERIF, 'evidence', 'replay-%s.json' % prop)
        with open(path, 'w') as f:
            json.dump(dict(property=prop, generator=gen_name, tier=tier, seed=seed,
                           failures=[dict(trace=v[1]['id'], event=v[2], clauses=v[3]) for v in violations[:50]],
                           trace=dict(id=t['id'], ev=t['ev'][:l])), f, indent=1)
        for v in violations[:10]:
            print('  trace %s event %d (%s): %s' % (json.dumps(v[1]['id'])[:120], v[2], v[1]['ev'][v[2] - 1]['op'], v[3][:2]))
        cov['violations'] = len(violations)
        write(prop, ev)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    write(prop, ev)
    log('%s: held on %d behaviours, %d calls (%.0f s)' % (prop, cov['traces_validated_against_impl'], cov['events'], time.time() - t0))
    return 0


def wild(x):
    """Whether a recorded result has values that only memory nobody wrote to can explain (the build fills it so)."""
    if isinstance(x, dict):
        return x.get('exc', '') not in ('', 'SKIP') or x.get('finite') is False or any(wild(v) for v in x.values())
    if isinstance(x, list):
        return any(wild(v) for v in x)
    if isinstance(x, str) and x[-1:].isalnum() and x.lstrip('-')[:1] in tuple('0123456789in'):
        try:
            return not abs(float(x)) < 1e150
        except ValueError:
            pass
    return False


def from_memory(traces, run):
    """Marks calls whose result is wild in the instrumented build, where new memory is filled, and not in the plain one."""
    found = [t for t in traces if any(wild(e['obs']) and not e['obs']['mem'] for e in t['ev'])]
    if not found:
        return
    log('%d behaviours to repeat on the plain build' % len(found))
    plain = vlib.replay(vlib.build(), [dict(t, ev=[{k: v for k, v in e.items() if k != 'obs'} for e in t['ev']]) for t in found],
                        timeout=run.get('limit', 120))
    for t, p in zip(found, plain):
        for e, f in zip(t['ev'], p['ev']):
            if wild(e['obs']) and not wild(f['obs']) and not e['obs']['mem']:
                e['obs']['mem'] = 'depends on what was in memory before'


def write(prop, ev):
    with open(os.path.join(vlib.VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def shorten(x, n=6):
    if isinstance(x, list):
        return [shorten(y, n) for y in x[:n]] + (['... %d more' % (len(x) - n)] if len(x) > n else [])
    if isinstance(x, dict):
        return {k: shorten(v, n) for k, v in x.items()}
    return x


def match_known(known, trace, l, clauses):
    """A listed finding is identified by the call, its arguments and the failing clause."""
    e = trace['ev'][l - 1]
    for k in known:
        m = k['match']
        if m.get('op') != e['op']:
            continue
        if any(e.get(a) != v for a, v in m.get('args', {}).items()):
            continue
        if all(any(c[0].startswith(p) for p in m['clauses']) for c in clauses):
            return k
    return None


if __name__ == '__main__':
    try:
        rc = main()
    except MachineryError as x:
        print('MACHINERY: %s' % x)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
