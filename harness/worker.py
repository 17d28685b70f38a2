"""
One shard of a check: records programs against the real code, lets TLC
validate the recorded calls against the specification, and reports.

usage: worker.py PROPERTY TIER SEED SHARD SHARDS OUTDIR [BUDGET]
"""
import json, os, random, re, resource, subprocess, sys, tempfile, time, shutil, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SPEC = os.path.join(HERE, 'spec')


def unlimited():
    resource.setrlimit(resource.RLIMIT_DATA, (resource.getrlimit(resource.RLIMIT_DATA)[1],) * 2)


def tlc(module, env, timeout=800, workers=1, heap='2g', extra=()):
    meta = tempfile.mkdtemp(prefix='tlc')
    e = dict(os.environ)
    e.update(env)
    e.pop('JAVA_TOOL_OPTIONS', None)
    gc = '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC'
    cmd = ['java', gc] + (['-XX:TieredStopAtLevel=1'] if workers == 1 else []) + [
        '-Xss64m', '-Xmx' + heap, '-Djava.io.tmpdir=' + meta, '-cp', JARS, 'tlc2.TLC', '-workers', str(workers), '-noGenerateSpecTE',
        '-metadir', meta, '-config', module + '.cfg'] + list(extra) + [module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, preexec_fn=unlimited, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as x:
        return 'timeout', (x.stdout or b'').decode('utf-8', 'replace')
    finally:
        shutil.rmtree(meta, ignore_errors=True)


FAIL = re.compile(r'"FAIL (\d+) (\d+) \{(.*)\}"$')
ANY = re.compile(r'"ANY (\d+) (\d+)"$')
KIND = re.compile(r'"KIND (\d+) (\d+) (.*)"$')
STATES = re.compile(r'(\d+) states generated, (\d+) distinct states found')


class Batch:
    def __init__(self):
        self.worlds, self.programs, self.info = [], [], []

    def record(self, source, programs, label):
        from . import runner
        r = runner.Recorder(source)
        for p in programs:
            try:
                r.run(p, label)
            except Exception:
                r.skipped += len(p['ops'])
                r.crashed = getattr(r, 'crashed', 0) + 1
                sys.stderr.write('program not recorded: %s\n' % traceback.format_exc())
        w, ps = r.finish()
        self.worlds.append(w)
        for (p, refs, meta, prog), q in zip(r.programs, ps):
            q['w'] = len(self.worlds)
            self.programs.append(q)
            self.info.append((source, prog, refs, meta))
        return r


class Unvalidated(Exception):
    pass


def once(batch, part, outdir, tag, timeout):
    """Validates the programs number part of the batch"""
    f = os.path.join(outdir, 'trace-%s.json' % tag)
    programs = [batch.programs[j] for j in part]
    with open(f, 'w') as h:
        json.dump(dict(worlds=batch.worlds, programs=programs), h)
    rc, out = tlc('Trace', dict(TRACE_FILE=f, TRACE_EXPLAIN='0'), timeout=timeout)
    fails, anys = [], 0
    for line in out.split('\n'):
        m = FAIL.match(line)
        if m:
            fails.append((part[int(m.group(1)) - 1], int(m.group(2)), sorted(re.findall(r'\\"([a-z0-9]+)\\"', m.group(3)))))
        elif ANY.match(line):
            anys += 1
    m = STATES.search(out)
    want = sum(len(p['ev']) + 1 for p in programs)
    if rc != 0 or not m or int(m.group(2)) != want:
        at = re.findall(r'"AT (\d+) \d+"', out)
        out = re.sub(r'"AT \d+ \d+"\n', '', out)
        raise Unvalidated('TLC did not validate everything (rc %s, %s of %s states): %s' % (rc, m and m.group(2), want, out[-2000:]),
                          part[int(at[-1]) - 1] if at else None)
    if not os.environ.get('VERIF_KEEP'):
        os.unlink(f)
    return fails, dict(states=want, transitions=want - len(programs), unspecified=anys)


def validate(batch, outdir, tag, deadline):
    """
    [(program, event, clauses)], counts

    Programs that TLC cannot deal with (too deep, too slow) are singled out
    and counted.
    """
    fails, total = [], dict(states=0, transitions=0, unspecified=0, unvalidated=0)
    todo = list(range(len(batch.programs)))
    n = 0
    while todo:
        n += 1
        try:
            fails, c = once(batch, todo, outdir, '%s-%d' % (tag, n), max(20, min(60 if n == 1 else 30, deadline - time.time())))
        except Unvalidated as e:
            bad = e.args[1] if n < 4 and time.time() < deadline else None
            total['unvalidated'] += 1 if bad is not None else len(todo)
            sys.stderr.write('unvalidated %s %s\n' % (bad, str(e.args[0])[:2000]))
            todo = [j for j in todo if j != bad] if bad is not None else []
            continue
        for k in c:
            total[k] += c[k]
        break
    return fails, total


def main(argv):
    prop, tier, seed, shard, shards, outdir = argv[0], argv[1], int(argv[2]), int(argv[3]), int(argv[4]), argv[5]
    from . import checks, gen
    # whatever the code under test does, it must not take all the memory
    resource.setrlimit(resource.RLIMIT_DATA, (3 << 30, resource.getrlimit(resource.RLIMIT_DATA)[1]))
    plan = checks.plan(prop, tier)
    total = dict(programs=0, unvalidated=0, calls=0, worlds=0, skipped=0, states=0, transitions=0, unspecified=0, outcomes={}, families={}, schedules=0, crashed=0)
    found, samples = [], []
    t0 = time.time()
    limit = plan.get('limit', 300)
    work = []
    for name, n, f in plan['families']:
        work += [(name, f, j) for j in range(n)]
    # the same work whatever the number of shards
    mine = work[shard::shards]
    random.Random(5).shuffle(mine)
    size = plan.get('batch', 40)
    k = 0
    while mine and time.time() - t0 < limit:
        part, mine = mine[:size], mine[size:]
        b = Batch()
        for name, f, j in part:
            for again in range(10):
                rng = random.Random('%s/%s/%s/%s/%s' % (prop, seed, name, j, again))
                rng.nth = j + 7 * seed      # so that a family can go through a list
                try:
                    src, progs = f(rng)
                    break
                except (RecursionError, gen.Retry):
                    pass
            r = b.record(src, progs, '%s:%d' % (name, j))
            total['skipped'] += r.skipped
            total['schedules'] += getattr(r, 'schedules', 0)
            total['crashed'] += getattr(r, 'crashed', 0)
            total['families'][name] = total['families'].get(name, 0) + 1
            if time.time() - t0 > limit:
                break
        fails, c = validate(b, outdir, '%s-%d-%d' % (prop, shard, k), t0 + limit * 1.5)
        k += 1
        tally(total, b, c)
        found += findings(b, fails)
        if b.info and len(samples) < 2:
            src, prog, refs, meta = b.info[0]
            samples.append(dict(label=meta, world=src[-600:], ops=prog['ops'][:3], options=[c['kw'] for c in prog.get('loaders', []) + prog.get('dumpers', [])]))
        found = trim(found)
    total['left'] = len(mine)
    with open(os.path.join(outdir, 'result-%d.json' % shard), 'w') as h:
        json.dump(dict(total=total, found=found, samples=samples, wall=time.time() - t0), h)


def tally(total, b, c):
    """Counts what was validated."""
    for key in ('states', 'transitions', 'unspecified', 'unvalidated'):
        total[key] += c[key]
    total['worlds'] += len(b.worlds)
    total['programs'] += len(b.programs)
    for p in b.programs:
        total['calls'] += len(p['ev'])
        for e in p['ev']:
            o = e.get('o')
            key = e['op'] + ':' + (o['st'] if o else '-')
            total['outcomes'][key] = total['outcomes'].get(key, 0) + 1


def findings(b, fails):
    """What the failures of a batch were."""
    found = []
    for p, i, clauses in fails:
        src, prog, refs, meta = b.info[p]
        ev = b.programs[p]['ev'][i - 1]
        op = refs[i - 1]
        found.append(dict(clauses=clauses, label=meta, world=src, program=dict(prog, ops=prog['ops'][:op + 1]), op=prog['ops'][op],
                          observed={x: y for x, y in (ev.get('o') or ev).items() if x in ('st', 'cls', 'm', 'fl', 'preds', 'r')}))
        found[-1]['size'] = len(src) + 20 * op + len(json.dumps(prog['ops'][op]))
    return found


def trim(found):
    found.sort(key=lambda x: x['size'])
    seen, out = {}, []
    for f in found:
        k = ','.join(f['clauses'])
        seen[k] = seen.get(k, 0) + 1
        if seen[k] <= 40:
            out.append(f)
    return out


if __name__ == '__main__':
    sys.path.insert(0, HERE)
    __package__ = 'harness'
    import harness
    main(sys.argv[1:])
