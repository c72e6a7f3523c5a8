#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property.  Exit 0 / 1 as described in MANIFEST."""
import json, os, sys, time, shutil, tempfile, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sxlib
from sxlib import *
sys.path.insert(0, HAR)
import registry


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    keep = False
    verbose = False
    for i, a in enumerate(sys.argv):
        if a == '--tier':
            tier = sys.argv[i + 1]
        if a == '--only':
            only = sys.argv[i + 1]
        if a == '--keep':
            keep = True
        if a == '-v':
            verbose = True
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = registry.PROPS[pid]
    t0 = time.time()
    total_budget = (registry.THOROUGH_S if tier == 'thorough' else registry.QUICK_S)
    wd = tempfile.mkdtemp(prefix='sx-%s-' % pid)
    rdir = ensure_dir(os.path.join(VERIF, 'evidence', 'replay'))
    status, lines = 0, []
    try:
        tool = tools()
        hs = [h for h in prop['harnesses'] if (tier == 'thorough' or not h.get('thorough_only')) and (only is None or only == h['name'])]
        built = []
        for h in hs:
            built.append((h, build_harness(h, tool, wd)))
        tb = time.time() - t0
        results = []
        rem = max(30, total_budget - (time.time() - t0))
        # run the harnesses concurrently, sharing the processors
        jobs = max(2, NCPU // max(1, min(len(built), 3)))
        par = max(1, min(len(built), 3))
        with ThreadPoolExecutor(par) as ex:
            futs = [ex.submit(run_harness, h, e, wd, tier, jobs, rem / max(1, -(-len(built) // par)) if len(built) > 3 else rem, None) for h, e in built]
            results = [f.result() for f in futs]
        viol, incon, known_hits = [], [], []
        known = []
        try:
            with open(os.path.join(VERIF, 'known_findings.json')) as f:
                known = [k for k in json.load(f)['findings'] if k['property'] == pid and k['status'] == 'open']
        except OSError:
            pass
        wit_ok = 0
        wit_bad = []
        unconfirmed = []
        for (h, e), r in zip(built, results):
            s = r['summary']
            if s is None:
                incon.append('%s: no summary (%s)' % (h['name'], r['err'][-300:]))
                continue
            nviol = 0
            for x in r['recs']:
                if x['kind'] == 'violation':
                    nviol += 1
                    rc, out = native(r['nat'], x['file'], r['env'])
                    failed = [l for l in out.splitlines() if l.startswith('FAIL ')]
                    if (rc == 1 and failed) or (rc == -999 and h.get('hang_is_violation')):
                        dst = os.path.join(rdir, '%s-%s-%d.txt' % (pid, h['name'], len(viol) + len(known_hits)))
                        with open(x['file']) as f:
                            body = f.read()
                        with open(dst, 'w') as f:
                            f.write(body)
                            f.write('# property %s, tier %s\n# solver: %s\n# native replay: %s\n# params %s\n# replay with: bin/replay.py %s\n' % (
                                pid, tier, x['label'], failed[0] if failed else 'hang', json.dumps(r["params"]), dst))
                        k = next((k for k in known if re.search(k['match'], h['name'] + ' :: ' + failed[0])), None) if failed else None
                        if k:
                            known_hits.append((k, dst))
                        else:
                            viol.append((h['name'], failed[0] if failed else 'hang', dst, body))
                    else:
                        unconfirmed.append('%s: %s (native exit %s: %s)' % (h['name'], x['label'], rc, out[-300:].replace('\n', ' | ')))
                elif x['kind'] == 'inconclusive':
                    incon.append('%s: %s at %s' % (h['name'], x.get('what'), x.get('at')))
                elif x['kind'] == 'lost':
                    if not any(re.search(p, x['what'] + '@' + x['loc']) for p in h.get('allow_lost', [])):
                        incon.append('%s: symbolic value escapes the encoding: %s at %s' % (h['name'], x['what'], x['loc']))
                elif x['kind'] == 'witness':
                    ok, why = validate_witness(r['nat'], x['file'], r['env'])
                    if ok:
                        wit_ok += 1
                    else:
                        wit_bad.append('%s: %s (%s)' % (h['name'], why, x['file']))
            if s['timeouts'] or (s['stop'] and not nviol):
                incon.append('%s: time budget exhausted after %d paths' % (h['name'], s['paths']))
            if s['inconclusive'] and not any(x['kind'] == 'inconclusive' for x in r['recs']):
                incon.append('%s: a path ended abnormally' % h['name'])
            reached = set(x['label'] for x in r['recs'] if x['kind'] == 'reach')
            if not nviol:
                for l in h.get('reach', ['end']):
                    if l not in reached:
                        incon.append('%s: vacuous, "%s" never reached' % (h['name'], l))
                if s['asserts'] == 0:
                    incon.append('%s: vacuous, no assertion evaluated' % h['name'])
                if s['witnesses'] == 0 and not h.get('no_witness'):
                    incon.append('%s: no reachability witness' % h['name'])
        # a witness that the native build does not follow means the encoding is wrong
        if wit_bad and not viol:
            incon += ['translator validation: ' + w for w in wit_bad[:5]]
        write_evidence(pid, prop, tier, seed, results, wit_ok, wit_bad, viol, known_hits, incon, unconfirmed, tb, time.time() - t0)
        for k, dst in known_hits[:20]:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        for n, f, dst, body in viol[:5]:
            print('  %s: %s' % (n, f))
            for l in body.splitlines()[:40]:
                if verbose:
                    print('    ' + l)
        if viol:
            print('VIOLATION property=%s replay=%s' % (pid, viol[0][2]))
            return 1
        if unconfirmed:
            print('INCONCLUSIVE property=%s: counterexample did not reproduce natively' % pid)
            for u in unconfirmed[:5]:
                print('  ' + u)
            return 2
        if incon:
            print('INCONCLUSIVE property=%s' % pid)
            for i in sorted(set(incon))[:12]:
                print('  ' + i)
            return 2
        tot = lambda k: sum((r['summary'] or {}).get(k, 0) for r in results)
        print('OK property=%s tier=%s paths=%d asserts=%d queries=%d solver=%.1fs witnesses=%d build=%.0fs wall=%.0fs' % (
            pid, tier, tot('paths'), tot('asserts'), tot('queries'), tot('solver_s'), wit_ok, tb, time.time() - t0))
        return 0
    except BuildError as e:
        print('BUILD-ERROR property=%s\n%s' % (pid, e))
        return 2
    finally:
        if keep:
            print('kept', wd)
        else:
            shutil.rmtree(wd, ignore_errors=True)


def write_evidence(pid, prop, tier, seed, results, wit_ok, wit_bad, viol, known_hits, incon, unconfirmed, tb, wall):
    tot = lambda k: sum((r['summary'] or {}).get(k, 0) for r in results)
    funcs = sorted(set(f for r in results for f in r['funcs']))
    repof = [f for f in funcs if '/src/' in f.split('|')[1]]
    try:
        dem = sh(['c++filt'], input='\n'.join(f.split('|')[0] for f in repof)).stdout.split('\n') if repof else []
    except Exception:
        dem = []
    per = []
    for r in results:
        s = dict(r['summary'] or {})
        s.pop('kind', None)
        per.append(dict(harness=r['name'], params=r['params'], **s))
    samples = []
    for r in results:
        for x in r['recs']:
            if x['kind'] in ('witness', 'violation') and len(samples) < 6:
                try:
                    with open(x['file']) as f:
                        samples.append(dict(harness=r['name'], kind=x['kind'], case=[l.rstrip() for l in f if l.split(' ')[0] in ('var', 'choice', 'label')][:60]))
                except OSError:
                    pass
    notes = sorted(set(x['text'] for r in results for x in r['recs'] if x['kind'] == 'note'))
    assumes = sorted(set('%s (%s)' % (x['what'], x['loc']) for r in results for x in r['recs'] if x['kind'] == 'assume'))
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking',
              coverage=dict(
                  states=tot('paths') + tot('pruned'), transitions=tot('branches'), traces_validated_against_impl=wit_ok, samples=samples,
                  explanation='states = symbolic end states (completed plus assumption-pruned paths of the real code, each standing for all values of its path condition); transitions = branch decisions put to the solver; traces_validated = path witnesses replayed on the un-instrumented build with all observed values equal',
                  exhaustive=not incon and not viol,
                  assertions_checked=tot('asserts'),
                  discharged=dict(by_normal_form_identity=tot('a_identity'), by_smt_solver=tot('a_solver'), by_interval=tot('a_interval'), concrete=tot('a_concrete')),
                  queries=dict(total=tot('queries'), sat=tot('q_sat'), unsat=tot('q_unsat'), unknown=tot('q_unknown'), solver_seconds=round(tot('solver_s'), 2)),
                  harnesses=per, functions_encoded=len(repof), functions=sorted(set(d for d in dem if d))[:400],
                  bounds=prop.get('bounds', []), runtime_bounds=notes, outside=prop.get('outside', []),
                  inconclusive=incon[:20], unconfirmed=unconfirmed[:5], witness_mismatches=wit_bad[:5], build_s=round(tb, 1),
                  known_findings_hit=[k['what'] for k, _ in known_hits]),
              assumptions=registry.COMMON_ASSUMPTIONS + prop.get('assumptions', []) + ['recorded on this run: ' + a for a in assumes],
              wall_s=round(wall, 2), violations=len(viol))
    ensure_dir(os.path.join(VERIF, 'evidence'))
    p = os.path.join(VERIF, 'evidence', pid + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(p + '.tmp', p)


if __name__ == '__main__':
    sys.exit(main())
