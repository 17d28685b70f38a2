"""
The check of one property.

usage: check.py PROPERTY        (VERIF_TIER quick or thorough, VERIF_SEED)

Starts the shards, which record calls of the real code and have TLC validate
them; puts together what they found; compares it with the known findings.
Exit 0: nothing found. Exit 1: VIOLATION. Exit 2: the check itself broke.
"""
import collections, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHARDS = 8
PARTS = 4      # of the histories


def known_findings():
    out = []
    try:
        with open(os.path.join(HERE, 'known_findings.json')) as f:
            out = json.load(f)['findings']
    except FileNotFoundError:
        pass
    return out


def is_known(found, finding):
    """Is what was found one of the listed inputs?"""
    return all(found.get(k) == v or found['op'].get(k) == v for k, v in finding['match'].items())


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    from . import checks, histories
    t0 = time.time()
    clauses = checks.CLAUSES[prop]
    out = tempfile.mkdtemp(prefix='check')
    try:
        procs = []

        def start(name, module, *args, hashseed=0):
            env = dict(os.environ, PYTHONHASHSEED=str(hashseed % 4294967296))
            log = open(os.path.join(out, 'log-' + name), 'w')
            procs.append((name, subprocess.Popen([sys.executable, '-m', 'harness.' + module] + [str(a) for a in args],
                                                 cwd=HERE, env=env, stdout=log, stderr=subprocess.STDOUT), log))

        for j in range(SHARDS):
            start('result-%d' % j, 'worker', prop, tier, seed, j, SHARDS, out, hashseed=seed * SHARDS + j)
        for j in range(min(PARTS, len(histories.USES.get(prop, [])))):
            start('history-%d' % j, 'histories', prop, tier, seed, j, PARTS, out, hashseed=seed * SHARDS + j)
        start('theorems', 'models', prop, tier, out)
        total, found, samples = collections.Counter(), [], []
        outcomes, families, broken = collections.Counter(), collections.Counter(), []
        model = dict(states=0, transitions=0, violations=[], about=[])
        for name, p, log in procs:
            rc = p.wait()
            log.close()
            f = os.path.join(out, name + '.json')
            if rc or not os.path.exists(f):
                broken.append(name)
                continue
            with open(f) as h:
                r = json.load(h)
            if name == 'theorems':
                model['states'] += r['states']
                model['transitions'] += r['transitions']
                model['about'].append('Theorems.tla, invariant %s, worlds %s: %d distinct states, %s' % (
                    prop, ', '.join(r['worlds']), r['states'], 'complete' if r['rc'] == 0 else 'not complete (%s)' % r['rc']))
                if r['violated']:
                    model['violations'].append(('theorems', r['text']))
                elif r['rc'] != 0:
                    sys.stderr.write('Theorems: %s\n' % r['text'][-1500:])
                continue
            for k, v in r['total'].items():
                if isinstance(v, int):
                    total[k] += v
            outcomes.update(r['total']['outcomes'])
            families.update(r['total']['families'])
            for x in r['found']:
                x['hashseed'] = (seed * SHARDS + int(name.split('-')[1])) % 4294967296
                found.append(x)
            samples += r['samples'][:1]
            if 'model' in r['total']:
                model['transitions'] += r['total']['model'][0]
                model['states'] += r['total']['model'][1]
                if r['total']['text']:
                    model['violations'].append(('histories', r['total']['text']))
        if histories.USES.get(prop):
            model['about'].append('Histories.tla, repertoires %s: every history of up to %d calls, replayed' % (', '.join(histories.USES[prop]), 3 if tier == 'quick' else 4))
        if broken:
            for j in broken:
                with open(os.path.join(out, 'log-' + j)) as h:
                    sys.stderr.write('%s: %s\n' % (j, h.read()[-3000:]))
    finally:
        for name, p, log in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(out, ignore_errors=True)

    mine = [x for x in found if set(x['clauses']) & clauses]
    mine.sort(key=lambda x: x['size'])
    findings = known_findings()
    hit, new = {}, []
    for x in mine:
        for f in findings:
            if f['property'] == prop and is_known(x, f):
                hit[f['what']] = f
                break
        else:
            new.append(x)
    for what in hit:
        print('KNOWN-FINDING: property=%s %s' % (prop, what))

    wall = time.time() - t0
    violations = len(new) + len(model['violations'])
    evidence = dict(
        property=prop, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=total['states'] + model['states'], transitions=total['transitions'] + model['transitions'],
            traces_validated_against_impl=total['programs'] - total['unvalidated'],
            calls_validated_against_impl=total['calls'], worlds=total['worlds'], calls_skipped=total['skipped'],
            calls_left_unspecified=total['unspecified'], programs_not_validated=total['unvalidated'], programs_left_by_the_time_limit=total['left'],
            thread_schedules=total['schedules'], outcomes=dict(outcomes), families=dict(families), clauses=sorted(clauses),
            model_states=model['states'], model_transitions=model['transitions'], model=model['about'],
            samples=samples[:3]),
        assumptions=['what Python itself does with scalars (==, hash, str(), int(x), Path(x), date.fromisoformat ...) is taken from Python',
                     'forward references, options and handlers are used as documented (DESIGN.md lists what is not claimed)'],
        wall_s=round(wall, 2), violations=violations)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)

    if new:
        os.makedirs(os.path.join(HERE, 'out'), exist_ok=True)
        replay = os.path.join(HERE, 'out', '%s-%s-%d.json' % (prop, tier, seed))
        with open(replay, 'w') as f:
            json.dump(dict(property=prop, found=new[:50]), f, indent=1)
        kinds = collections.Counter(','.join(sorted(set(x['clauses']) & clauses)) for x in new)
        for k, n in kinds.most_common(8):
            x = [y for y in new if ','.join(sorted(set(y['clauses']) & clauses)) == k][0]
            print('  %d calls break %s, e.g. %s' % (n, k, json.dumps(x['op'])[:300]))
        print('  python -m harness.replay %s  shows the first one' % replay)
        print('VIOLATION property=%s replay=%s' % (prop, replay))
    for name, text in model['violations']:
        os.makedirs(os.path.join(HERE, 'out'), exist_ok=True)
        f = os.path.join(HERE, 'out', '%s-%s.txt' % (prop, name))
        with open(f, 'w') as h:
            h.write(text)
        print('VIOLATION property=%s replay=%s' % (prop, f))
    print('%s %s seed %d: %d calls in %d traces validated, %d states, %.0f s' % (prop, tier, seed, total['calls'], total['programs'], total['states'] + model['states'], wall))
    if violations:
        return 1
    if broken or not total['calls']:
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
