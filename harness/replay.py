"""
Runs one recorded violation again, showing what the code did and what the
specification expected.

usage: replay.py FILE [number]
"""
import json, os, re, sys, tempfile


def main(argv):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, here)
    try:
        import attr, typedload
    except ImportError:
        repo = os.environ.get('VERIF_REPO', '/repo')
        os.environ['PYTHONPATH'] = repo
        os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python', '-m', 'harness.replay'] + argv)
    from harness import runner, worker
    with open(argv[0]) as f:
        data = json.load(f)
    found = data['found'][int(argv[1]) if len(argv) > 1 else 0] if 'found' in data else data
    r = runner.Recorder(found['world'])
    r.run(found['program'], 'replay')
    w, ps = r.finish()
    ps[0]['w'] = 1
    p, refs, meta, prog = r.programs[0]
    if '-w' in argv:
        print(found['world'])
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'trace.json')
        with open(f, 'w') as h:
            json.dump(dict(worlds=[w], programs=ps), h)
        rc, out = worker.tlc('Trace', dict(TRACE_FILE=f, TRACE_EXPLAIN='1'))
    out = out.replace('\\"', '"')
    if rc:
        print(out[-3000:])
    W = r.w
    fails = {int(a): b for a, b in re.findall(r'"FAIL 1 (\d+) (\{.*\})"', out)}
    expect = {int(a): b for a, b in re.findall(r'"EXPECT 1 (\d+) (.*)"\n', out)}

    def show(s):
        s = re.sub(r'\b(n|n2|v) \|-> (\d+)', lambda m: '%s |-> %s`%.300r`' % (m.group(1), m.group(2), W.obj[int(m.group(2)) - 1]) if int(m.group(2)) and int(m.group(2)) <= len(W.obj) else m.group(0), s)
        s = re.sub(r'\bty \|-> (\d+)', lambda m: 'ty |-> `%r`' % (W.tobj[int(m.group(1)) - 1],) if int(m.group(1)) else m.group(0), s)
        return s
    status = 0
    for j, e in enumerate(p['ev'], 1):
        if '-a' not in argv and j not in fails and j != len(p['ev']):
            continue
        print('call %d: %s' % (j, prog['ops'][refs[j - 1]]))
        o = e.get('o', e)
        if o.get('st') == 'ok':
            print('  got      %r' % (W.obj[o['r'] - 1],), o['fl'])
        else:
            print('  got     ', {k: v for k, v in o.items() if k in ('st', 'cls', 'm', 'fl', 'preds', 'args', 'path')}, o.get('v') and 'v=%.200r' % (W.obj[o['v'] - 1],), 'ty=%r' % (W.tobj[o['ty'] - 1] if o.get('ty') else None,))
        print('  expected', show(expect.get(j, '')))
        if j in fails:
            status = 1
            print('  BROKEN', fails[j])
    return status


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
