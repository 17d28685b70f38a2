"""
Histories generated from the specification.

Each repertoire below is a set of calls on a few loaders and dumpers. TLC
explores every sequence of up to DEPTH of them (spec/Histories.tla), checks
the specification on the way, and prints the sequences; here they are replayed
against the real code, and what it did is validated (spec/Trace.tla).

usage: histories.py PROPERTY TIER PART PARTS OUTDIR
"""
import json, os, random, re, resource, sys, time
from . import models

CALLS = '''
@dataclass
class In:
    x: int = 0
class Two(NamedTuple):
    kind: Literal['p']
    v: int = 5
class Thr(NamedTuple):
    kind: Literal['q']
    v: In
@dataclass
class Num:
    kind: Literal[1]
    w: int
@dataclass
class Boo:
    kind: Literal[True]
    w: str
@dataclass
class Man:
    a: int = field(metadata={'name': 'b', 'alt': 'x'})
    b: str = field(default='d', metadata={'name': 'c'})
    l: List[int] = field(default_factory=list)
@attr.s
class MAt:
    a = attr.ib(type=int, metadata={'name': 'b', 'alt': 'x'})
    b = attr.ib(type=str, default='d', metadata={'name': 'c'})
    l = attr.ib(type=List[int], factory=list)
class TD0(TypedDict):
    a: int
class TD(TD0, total=False):
    b: List[str]
class Col(Enum):
    RED = 1
    BLUE = "b"
class Pt(Enum):
    a: Tuple[int, int]
    HERE = (1, 2)
    L = [1]
class IE(IntEnum):
    ONE = 1
class Sub(In):
    pass
class Sub(In):
    pass
class Qu(NamedTuple):
    kind: Literal['q', 'p']
    v: List[int] = []
@dataclass
class An:
    kind: Literal['p', 'r']
    v: Any = 0
NI = NewType('NI', int)
NN = NewType('NN', NI)
'''


def ld(v, t, l=0):
    return dict(op='load', l=l, v=v, t=t)


def dp(v, l=0):
    return dict(op='dump', l=l, v=v)


REPERTOIRES = dict(
    frefs=dict(source=models.RECURSION, loaders=[dict(kw={}), dict(kw={'failonextra': 'True'})], ops=[
        ld('{"v": 1, "next": {"v": 2, "next": {"v": 3}}}', 'N'), ld('{"v": 1, "next": {"v": 2, "next": {"v": "z"}}}', 'Optional[N]'), ld('{"kids": [{}, {"kids": [{"v": "x"}]}]}', 'T'),
        ld('{"kids": [{"kids": [5]}]}', 'Union[N, T]'), ld('{"m": {"a": {"m": {"b": {}}}}}', 'R'), ld('{"n": 1}', 'R'), ld('{"d": {"d": {"t": {"kids": [{}]}}}}', 'D'), ld('{"l": {"v": 1, "next": {"v": 1}}, "r": {"kids": [{}]}}', 'Pair'),
        ld('{"v": 1, "next": {"v": 2, "z": 1}}', 'N', 1), ld('[{"v": 1, "next": {"v": 3}}]', 'List[NewN]', 1), ld('{"l": {"v": 1}, "r": 5}', 'Pair', 1)]),
    nofrefs=dict(source=models.RECURSION, loaders=[dict(kw={'frefs': 'None'}), dict(kw={'frefs': '{"Unknown": int, "N": T}'}), dict(kw={'frefs': '{}'})], ops=[
        ld('{"v": 1}', 'N'), ld('{"v": 1, "next": {"v": 2}}', 'N'), ld('{"kids": [{}]}', 'T'), ld('{"v": 1, "next": {"kids": []}}', 'N', 1), ld('{"n": 1}', 'R', 1), ld('{"m": {"a": {"n": "3"}}}', 'R', 1), ld('{"kids": [{}]}', 'T', 1),
        ld('{"n": 1}', 'R', 2), ld('{"m": {"a": {}}}', 'Optional[R]', 2), ld('{"v": 1, "next": {"v": 2}}', 'N', 2)]),
    types=dict(source=CALLS, loaders=[dict(kw={})], ops=[
        ld('1', 'Literal[1]'), ld('True', 'Literal[True]'), ld('"1"', 'Union[int, str]'), ld('1.5', 'Union[str, int]'), ld('["1", 2]', 'List[int]'), ld('["", 1]', 'List[bool]'), ld('["1"]', 'Tuple[int]'), ld('["1", "x"]', 'Tuple[int, ...]'), ld('{"1": "2"}', 'Dict[str, int]'), ld('{"1": "2"}', 'Dict[int, str]'),
        ld('"1"', 'NN'), ld('[1, "1"]', 'Set[int]'), ld('[1, "1"]', 'FrozenSet[str]')]),
    samehash=dict(source=CALLS, loaders=[dict(kw={})], ops=[
        ld('1', 'Literal[1, 2]'), ld('2', 'Literal[2, 1]'), ld('True', 'Literal[True, 2]'), ld('False', 'Literal[0]'), ld('0', 'Literal[False]'), ld('None', 'Optional[int]'), ld('"x"', 'Union[int, None]'), ld('"3"', 'int | None'), ld('[1]', 'Union[List[int], List[str]]'), ld('["a"]', 'Union[List[str], List[int]]'),
        ld('{"kind": 1, "w": "3"}', 'Union[Num, Boo]'), ld('{"kind": True, "w": 3}', 'Union[Boo, Num]')]),
    tagged=dict(source=CALLS, loaders=[dict(kw={}), dict(kw={'uniondebugconflict': 'True'})], ops=[
        ld('{"kind": "p", "v": "7"}', 'Union[Two, Thr]'), ld('{"kind": "q", "v": {"x": 1}}', 'Union[Two, Thr]'), ld('{"kind": "q", "v": {"x": "u"}}', 'Union[Two, Thr]'), ld('{"kind": "r"}', 'Union[Thr, Two]'), ld('{}', 'Union[Two, Thr]'), ld('5', 'Union[Two, Thr]'), ld('{"kind": "p"}', 'Union[Two, Thr, In]'),
        ld('{"kind": "p", "v": 2}', 'Two'), ld('{"kind": "p"}', 'Union[Two, In]', 1), ld('{"kind": "p"}', 'Union[Two, Thr]', 1), ld('[{"kind": "p"}, {"kind": "q", "v": {}}]', 'List[Union[Two, Thr]]')]),
    overlap=dict(source=CALLS, loaders=[dict(kw={}), dict(kw={'uniondebugconflict': 'True'})], ops=[
        ld('{"kind": "p", "v": [1]}', 'Union[Qu, An]'), ld('{"kind": "p", "v": 5}', 'Union[Qu, An]'), ld('{"kind": "q", "v": ["2"]}', 'Union[Qu, An]'), ld('{"kind": "r"}', 'Union[Qu, An]'), ld('{"kind": "p", "v": [1]}', 'Union[An, Qu]'), ld('{"kind": "p", "v": 5}', 'Union[An, Qu]'),
        ld('{"kind": "q", "v": 1}', 'Union[Qu, An]'), ld('{"kind": "p"}', 'Union[Qu, Two]'), ld('{"kind": "p", "v": 7}', 'Union[Qu, Two]'), ld('{"kind": "p", "v": 5}', 'Union[Qu, An]', 1), ld('{"kind": "q"}', 'Union[Qu, An]', 1)]),
    objects=dict(source=CALLS, loaders=[dict(kw={}), dict(kw={'mangle_key': '"alt"'}), dict(kw={'failonextra': 'True', 'basiccast': 'False'})], ops=[
        ld('{"b": "1", "c": "k", "l": [1]}', 'Man'), ld('{"b": 1}', 'Man'), ld('{"a": 1}', 'Man'), ld('{"x": 1, "b": "w"}', 'Man', 1), ld('{"b": 1, "c": "k", "q": 1}', 'Man', 2), ld('{"b": 1, "l": ["1"]}', 'MAt', 2), ld('{"b": 1}', 'MAt'), ld('{"x": 1, "b": "w"}', 'MAt', 1),
        ld('{"a": 1, "b": ["x"]}', 'TD'), ld('{"b": []}', 'TD'), ld('{"a": 1, "z": 1}', 'TD', 2)]),
    options=dict(source=CALLS, loaders=[dict(kw={}, via='mod'), dict(kw={'basiccast': 'False'}, via='mod'), dict(kw={'strconstructed': '{Path, Tag}'}, via='mod'), dict(kw={'basictypes': '{int, bool, float, str, type(None), bytes}', 'failonextra': 'True'}, via='mod')], ops=[
        ld('"1"', 'int'), ld('"1"', 'int', 1), ld('"#1"', 'Tag'), ld('"#1"', 'Tag', 2), ld('"/x"', 'Path', 2), ld('"1.2.3.4"', 'IPv4Address'), ld('"1.2.3.4"', 'IPv4Address', 2), ld('b"x"', 'bytes'), ld('b"x"', 'bytes', 3), ld('{"x": 1, "y": 1}', 'In'), ld('{"x": 1, "y": 1}', 'In', 3), ld('{"x": "1"}', 'In', 1)]),
    handlers=dict(source=CALLS, loaders=[dict(kw={}, handlers=[dict(how='insert', m=['In'], act='wrap', n='"w"'), dict(how='insert', m=['NI'], act='recur', n='List[int]'), dict(how='append', m=['complex'], act='const', n='7'), dict(how='insert', m=['bytes'], act='reject')]), dict(kw={})], ops=[
        ld('{"x": "1"}', 'In'), ld('{"x": "1"}', 'In', 1), ld('[{"x": 3}]', 'List[In]'), ld('{"kind": "q", "v": {"x": 1}}', 'Union[Two, Thr]'), ld('[1, "2"]', 'NI'), ld('["1", [2]]', 'List[NI]', 0), ld('"4"', 'NN', 1), ld('[1, 2]', 'List[complex]'), ld('1', 'complex', 1), ld('b"x"', 'Optional[bytes]'), ld('[[3], ["q"]]', 'Tuple[NI, NI]')]),
    enums=dict(source=CALLS, loaders=[dict(kw={})], ops=[
        ld('1', 'Col'), ld('"RED"', 'Col'), ld('"b"', 'Col'), ld('[1, 2]', 'Pt'), ld('(1, 2)', 'Pt'), ld('[1]', 'Pt'), ld('[1, 2, 3]', 'Pt'), ld('1', 'IE'), ld('True', 'IE'), ld('"1"', 'IE'), ld('[1, "b"]', 'List[Col]'), ld('1', 'Union[Col, int]'), ld('Col.RED', 'Col')]),
    dumps=dict(source=CALLS, dumpers=[dict(kw={}), dict(kw={'hidedefault': 'False', 'isodates': 'True'})], ops=[
        dp('1'), dp('True'), dp('[1.0, 1, True, None]'), dp('IE.ONE'), dp('Col.RED'), dp('{Col.BLUE: Path("/1")}'), dp('In(0)'), dp('In(0)', 1), dp('Sub(4)'), dp('Man(1)', 1), dp('Man(1, "e", [2])'), dp('[date(2020, 1, 2)]', 1), dp('date(2020, 1, 2)'), dp('object()')]),
    dumpers=dict(source=CALLS, dumpers=[dict(kw={}), dict(kw={}, handlers=[dict(how='insert', m=['In'], act='wrap', n='"w"'), dict(how='insert', m=['Tag'], act='recur', n='[1, (2,)]')]), dict(kw={'mangle_key': '"alt"'})], ops=[
        dp('In(3)'), dp('In(3)', 1), dp('[In(3), Sub(4)]', 1), dp('Sub(4)', 1), dp('Man(2)'), dp('Man(2)', 2), dp('MAt(2, "d", [1])'), dp('MAt(2, "d", [1])', 2), dp('Tag("#x")', 1), dp('Tag("#x")'), dp('Thr("q", In(1))', 1), dp('frozenset([1])')]),
    both=dict(source=CALLS, loaders=[dict(kw={})], dumpers=[dict(kw={})], ops=[
        ld('{"b": 1, "l": [1]}', 'Man'), dp('Man(1)'), ld('{"b": 1}', 'Man'), dp('Man(1, l=[3])'), ld('{"kind": "p"}', 'Two'), dp('Two("p")'), dp('[Two("p", 6), In()]'), ld('{"a": 1, "b": "xy"}', 'TD'), dp('{"a": 1, "b": ["x"]}'), ld('[2020, 1, 2]', 'datetime.date'), dp('date(2020, 1, 2)')]),
    pep=dict(source=models.PEP, loaders=[dict(kw={'pep563': 'True'}), dict(kw={})], ops=[
        ld('{"a": "1"}', 'NTs'), ld('{"a": 1, "b": {"a": 2, "b": ["y"]}}', 'DCs'), ld('{"a": 1, "c": 2}', 'DCs'), ld('{"a": 1, "b": {"k": "q"}}', 'TDs'), ld('{"a": 1, "b": {}}', 'TD'), ld('{"a": 1}', 'DC', 1), ld('{"a": "x"}', 'NT', 1), ld('{"a": 1, "b": ["x"]}', 'NTs', 0), ld('[{"a": 1, "b": {"k": "3"}}]', 'List[TDs]')]),
)

ALL = sorted(REPERTOIRES)
USES = dict(C13=ALL, C19=ALL, C15=['frefs', 'objects', 'dumps', 'dumpers', 'both', 'enums', 'tagged', 'overlap'], C14=['frefs', 'nofrefs', 'pep'], C16=['handlers', 'dumpers'],
            C26=['options', 'nofrefs', 'objects', 'dumps', 'dumpers', 'handlers', 'tagged', 'overlap'], C11=['tagged', 'overlap', 'samehash', 'types'], C25=['tagged', 'frefs'], C12=['tagged', 'samehash'], C08=['objects', 'dumpers', 'both'],
            C21=['pep'], C18=['types', 'samehash', 'handlers'], C23=['enums', 'dumps'], C17=['objects', 'tagged', 'overlap'], C09=['objects', 'options', 'frefs'], C10=['objects', 'options'],
            C07=['dumps', 'dumpers', 'both'], C06=['dumps', 'dumpers'], C22=['options', 'dumps'])

HIST = re.compile(r'"HIST (\d+) <<([0-9, ]*)>>"')


def repertoire(r, runner):
    """The data of Histories.tla"""
    rec = runner.Recorder(r['source'])
    W = rec.w
    for op in r['ops']:
        if op['op'] == 'load':
            W.type(rec.ev(op['t']))
    ev = [dict(op=op['op'], l=op['l'] + 1, v=W.node(rec.ev(op['v']), True), t=W.type(rec.ev(op['t'])) if op['op'] == 'load' else 0) for op in r['ops']]
    ls = [rec.loader(c)['o'] for c in r.get('loaders', [])]
    ds = [rec.dumper(c)['o'] for c in r.get('dumpers', [])]
    for l in ls + ds:
        for k in ('h',):
            l[k] = list(l[k])
    return rec.w.finish(), dict(ld=ls, dd=ds, ev=ev)


def explore(names, depth, out, tag, timeout, runner, worker):
    """TLC's histories: [(name, [call numbers])], states, violation or None"""
    worlds, programs = [], []
    for n in names:
        w, p = repertoire(REPERTOIRES[n], runner)
        worlds.append(w)
        programs.append(dict(p, w=len(worlds), depth=depth))
    f = os.path.join(out, 'hist-%s.json' % tag)
    with open(f, 'w') as h:
        json.dump(dict(worlds=worlds, programs=programs), h)
    rc, text = worker.tlc('Histories', dict(MODEL_FILE=f), timeout=timeout, workers=1)
    hs = [(names[int(a) - 1], [int(x) - 1 for x in b.split(',')]) for a, b in HIST.findall(text)]
    m = worker.STATES.search(text)
    bad = 'is violated' in text
    return rc, text, hs, (int(m.group(1)), int(m.group(2))) if m else (0, 0), bad


def program(r, history, fresh):
    """The calls; fresh: and the last one compared with that of a new loader"""
    ops, ls, ds = [r['ops'][c] for c in history], r.get('loaders', []), r.get('dumpers', [])
    if fresh and len(ops) > 1:
        o = ops[-1]
        if o['op'] == 'load':
            ls = ls + [ls[o['l']]]
        else:
            ds = ds + [ds[o['l']]]
        ops = ops + [dict(o, l=len(ls if o['op'] == 'load' else ds) - 1), dict(op='same', a=len(ops) - 1, b=len(ops), cl='history')]
    return dict(loaders=ls, dumpers=ds, ops=ops)


def main(argv):
    prop, tier, seed, part, parts, outdir = argv[0], argv[1], int(argv[2]), int(argv[3]), int(argv[4]), argv[5]
    t0 = time.time()
    limit = 100 if tier == 'quick' else 600
    names = USES[prop][part::parts]
    total = dict(programs=0, unvalidated=0, calls=0, worlds=0, skipped=0, states=0, transitions=0, unspecified=0, outcomes={}, families={}, schedules=0, crashed=0, left=0, model=[0, 0], text='')
    found = []
    if names:
        from . import runner, worker
        resource.setrlimit(resource.RLIMIT_DATA, (3 << 30, resource.getrlimit(resource.RLIMIT_DATA)[1]))
        try:
            rc, text, hs, states, bad = explore(names, 3 if tier == 'quick' else 4, outdir, '%s-%d' % (prop, part), 60 if tier == 'quick' else 300, runner, worker)
        except Exception as e:
            # the code under test does not even let the loaders be made: the other families tell
            sys.stderr.write('%r\n' % e)
            rc, text, hs, states, bad = 0, '', [], (0, 0), False
        total['model'] = list(states)
        if bad:
            total['text'] = text[-4000:]
        random.Random(seed).shuffle(hs)
        size, k = 250, 0
        while hs and time.time() - t0 < limit:
            now, hs = hs[:4 * size], hs[4 * size:]
            b = worker.Batch()
            for n in names:
                mine = [h for x, h in now if x == n]
                r = REPERTOIRES[n]
                for j in range(0, len(mine), size):
                    progs = [program(r, h, prop == 'C13' and n not in ('frefs', 'nofrefs', 'pep')) for h in mine[j:j + size]]
                    rr = b.record(r['source'], progs, 'history:' + n)
                    total['skipped'] += rr.skipped
                    total['crashed'] += getattr(rr, 'crashed', 0)
                    total['families']['history:' + n] = total['families'].get('history:' + n, 0) + len(progs)
            fails, c = worker.validate(b, outdir, 'h%s-%d-%d' % (prop, part, k), t0 + limit * 1.5)
            k += 1
            worker.tally(total, b, c)
            found = worker.trim(found + worker.findings(b, fails))
        total['left'] = len(hs)
    with open(os.path.join(outdir, 'history-%d.json' % part), 'w') as h:
        json.dump(dict(total=total, found=found, samples=[], wall=time.time() - t0), h)


if __name__ == '__main__':
    main(sys.argv[1:])
