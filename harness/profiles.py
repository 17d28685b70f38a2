"""
What each check runs: for a property, an endless supply of (world source,
programs) made from a random generator, in a fixed proportion of families.

A family is a function rng -> (source, [program]).  Programs are described in
runner.py.  Families know nothing about what the outcome has to be.
"""
import itertools, random

from . import encode, gen, runner
from .gen import BASIC, DATES, ODD, OPT, PATS, SCALARS, STRC, UNHASH, T, scalar


def world(rng, **opt):
    """A random world whose source works"""
    for _ in range(50):
        g = gen.Gen(random.Random(rng.random()), **opt)
        try:
            m = runner.load_world(g.source)
            w = encode.World(m)
            for c in list(vars(m).values()):
                if isinstance(c, type) and c.__module__ == 'w':
                    w.type(c)       # calls the factories of the defaults too
            if w.unresolved and g.o['pep']:
                continue
        except Exception:
            continue
        g.r = rng
        return g
    raise RuntimeError('no world')


# ---------------------------------------------------------------- options
BT = ['{int, bool, float, str, type(None), bytes}', '{str}', '{int, str, type(None)}', '{int, bool, float, str, type(None), Decimal}',
      '{int, bool, float, str, type(None), MyStr}', '{int, float, complex, bytes}', 'set()', '{int, bool, float, str}']
SC = ['{Path, Tag}', '{Path, UUID, Tag, Decimal, IPv4Address}', 'set()', '{Decimal}', '{Tag, bytes, Path}']


def loader_cfg(rng, g, p=1.0, via=None, **force):
    kw = {}

    def ch(x):
        return rng.random() < x * p
    if ch(.3):
        kw['basiccast'] = 'False'
    elif ch(.1):
        kw['basiccast'] = 'True'
    if ch(.3):
        kw['failonextra'] = 'True'
    if ch(.12):
        kw['dictequivalence'] = 'False'
    if ch(.1):
        kw['uniondebugconflict'] = 'True'
    if ch(.3):
        kw['mangle_key'] = rng.choice(['"alt"', '"name2"', '"nope"', '"name"'])
    if g.o['pep'] and rng.random() < .9 or ch(.05):
        kw['pep563'] = 'True'
    if ch(.08):
        kw['raiseconditionerrors'] = 'False'
    if ch(.06):
        kw['frefs'] = 'None'
    elif ch(.08) and g.classes:
        kw['frefs'] = '{%r: %s}' % (rng.choice(g.classes).name, rng.choice(g.classes).name)
    if ch(.12):
        kw['basictypes'] = rng.choice(BT)
    if ch(.12):
        kw['strconstructed'] = rng.choice(SC)
    if ch(.05):
        kw['unknown_option'] = '5'
    for k, v in force.items():
        if v is None:
            kw.pop(k, None)
        else:
            kw[k] = v
    return dict(kw=kw, via=via or rng.choice(['ctor', 'ctor', 'ctor', 'attr', 'inplace', 'mod']))


def dumper_cfg(rng, g, p=1.0, via=None, **force):
    kw = {}

    def ch(x):
        return rng.random() < x * p
    if ch(.4):
        kw['hidedefault'] = 'False'
    if ch(.5):
        kw['isodates'] = 'True'
    if ch(.3):
        kw['mangle_key'] = rng.choice(['"alt"', '"name2"', '"nope"', '"name"'])
    if ch(.08):
        kw['raiseconditionerrors'] = 'False'
    if ch(.1):
        kw['basictypes'] = rng.choice(BT[:1] + BT[3:5])
    if ch(.1):
        kw['strconstructed'] = '{Path, pathlib.PosixPath, Tag, Decimal, UUID}'
    if ch(.05):
        kw['unknown_option'] = '5'
    for k, v in force.items():
        if v is None:
            kw.pop(k, None)
        else:
            kw[k] = v
    return dict(kw=kw, via=via or rng.choice(['ctor', 'ctor', 'attr', 'inplace', 'mod']))


def mk_of(cfg):
    return eval(cfg['kw'].get('mangle_key', '"name"'))


# ---------------------------------------------------------- random programs
def a_type(rng, g, depth=3):
    x = rng.random()
    if x < .5 and g.classes:
        c = rng.choice(g.classes)
        t = T('cls', c.name, x=c)
        y = rng.random()
        if y < .12:
            t = g.mk('list', [t])
        elif y < .18:
            t = g.mk('dict', [scalar('str'), t])
        elif y < .24:
            t = g.mk('union', [t, scalar('None')])
        elif y < .3:
            t = g.mk('vtuple', [t])
        return t
    if x < .56 and g.new:
        return rng.choice(g.new)
    return g.type(depth)


def a_value(rng, g, t, q, mk):
    x = rng.random()
    if x < q:
        return g.data(t, 3, 1.0, mk)
    if x < q + (1 - q) * .75:
        return g.data(t, 3, rng.choice([.97, .9, .8]), mk)
    if x < q + (1 - q) * .85:
        u = g.type(2)
        return g.data(u, 2, 1.0, mk)
    return rng.choice(ODD)


def loads(rng, g, n=10, q=.45, nl=(1, 2), types=None, cfgs=None, depth=3, again=.1, **force):
    """A program of loads on shared loaders"""
    cfgs = cfgs or [loader_cfg(rng, g, **force) for _ in range(rng.randint(*nl))]
    ops = []
    pool = types or [a_type(rng, g, depth) for _ in range(max(2, n // 3))]
    for _ in range(n):
        l = rng.randrange(len(cfgs))
        t = rng.choice(pool) if rng.random() < .8 or types else a_type(rng, g, depth)
        if ops and rng.random() < again:
            j = rng.randrange(len(ops))
            if 'GEN' not in ops[j]['v']:
                o = dict(ops[j])
                o['l'] = rng.randrange(len(cfgs)) if rng.random() < .3 else o['l']
                if 'again' not in o and 'deque(' not in o['v']:
                    o['again'] = j
                ops.append(o)
                continue
        ops.append(dict(op='load', l=l, t=t.e, v=a_value(rng, g, t, q, mk_of(cfgs[l]))))
    return dict(loaders=cfgs, ops=ops)


def fam_random(rng, q=.45, n=10, progs=4, types=None, force=None, cfg=None, depth=3, nl=(1, 2), **opt):
    g = world(rng, **opt)
    return g.source, [loads(rng, g, n, q, nl=nl, depth=depth, types=types(rng, g) if types else None,
                            cfgs=cfg(rng, g) if cfg else None, **(force or {})) for _ in range(progs)]


def dumps(rng, g, n=10, nd=(1, 2), bad=.08, **force):
    cfgs = [dumper_cfg(rng, g, **force) for _ in range(rng.randint(*nd))]
    ops = []
    for _ in range(n):
        t = a_type(rng, g)
        v = g.typed(t)
        if v is None:
            continue
        x = rng.random()
        if x < bad:
            b = rng.choice(['Opaque()', 'Decimal("1")', 'b"x"', '1j', 'range(3)', 'MappingProxyType({"a": 1})', 'deque([1])', 'A', 'int', 'MyStr("a")', 'MyInt(1)',
                            'Namespace(a=1)', '...', 'UserDict({"a": 1})', 'object', 'bytearray(b"a")'])
            v = rng.choice(['[%s, %s]' % (v, b), '{"k": %s, "b": (%s,)}' % (v, b), '[[%s]]' % b, b, '(%s, {"x": [%s]})' % (v, b)])
        elif x < bad + .1:
            v = rng.choice(['[%s]', '(%s,)', '{"k": %s}', '{5: [%s]}', '[[%s], None]', '{None: %s}', 'MyList([%s])', 'OrderedDict([("a", %s)])']) % v
        ops.append(dict(op='dump', l=rng.randrange(len(cfgs)), v=v))
        if rng.random() < .1:
            ops.append(dict(op='dump', l=rng.randrange(len(cfgs)), again=len(ops) - 1, v=v))
    return dict(dumpers=cfgs, ops=ops)


def fam_dump(rng, n=10, progs=4, bad=.08, force=None, **opt):
    g = world(rng, trip=True, **opt)
    return g.source, [dumps(rng, g, n, bad=bad, **(force or {})) for _ in range(progs)]


def fam_trip(rng, n=8, progs=4, **opt):
    strict = rng.random() < .3
    if opt.get('pep'):
        opt['kinds'] = ['nt', 'dc', 'td']       # attrs does not evaluate them
    g = world(rng, **dict(dict(trip=True, strict=strict, dup=0), **opt))    # references to names go with unique names
    out = []
    for _ in range(progs):
        mk = rng.choice([None, None, '"alt"', '"nope"', '"name2"'])
        lkw = dict(mangle_key=mk, basiccast=rng.choice([None, 'False']), failonextra='True' if strict else None,
                   pep563='True' if g.o['pep'] else None, frefs=None, basictypes=None, strconstructed=None, uniondebugconflict=None)
        ds = [dumper_cfg(rng, g, mangle_key=mk, basictypes=None, strconstructed=None) for _ in range(2)]
        ls = [loader_cfg(rng, g, **lkw) for _ in range(2)]
        ops = []
        for _ in range(n):
            t = a_type(rng, g)
            v = g.typed(t)
            if v is None:
                continue
            ops.append(dict(op='trip', d=rng.randrange(2), l=rng.randrange(2), t=t.e, v=v, json=rng.random() < .2 and 'bytes' not in t.e))
        out.append(dict(loaders=ls, dumpers=ds, ops=ops))
    return g.source, out


# ------------------------------------------------------------------- sweeps
SWEEP_ENUMS = '''
class IE(IntEnum):
    P = 1
    Q = 2
class SE(str, Enum):
    S = "s"
    a = "b"
class E0(Enum):
    A = 1
    B = "b"
    b = "c"
    N = None
class E1(Enum):
    v: Tuple[int, int]
    A = (1, 2)
    B = (3, 4)
class E2(Enum):
    A = [1, 2]
    B = "x"
class E3(Enum):
    A = "0"
    B = "1"
    C = "2"
    D = "3"
    E = "4"
    F = "5"
    G = "6"
    H = "7"
    I = "8"
    J = "9"
class E4(IntEnum):
    A = 0
    B = 1
    C = 2
    D = 3
    E = 4
    F = 5
    G = 6
    H = 7
    I = 8
    J = 9
    K = 10
class E5(Enum):
    y: datetime.date
    z: Path
    A = date(2020, 1, 2)
    B = Path("/x")
class E6(Enum):
    A = 1.5
    B = True
    C = b"a"
class NT0(NamedTuple):
    a: int
    b: str = "d"
@dataclass
class DC0:
    a: int
    b: str = "d"
@dataclass(frozen=True)
class DC1:
    tag: Literal["x"]
    v: List[int] = field(default_factory=list, metadata={"name": "V"})
@attr.s
class AT0:
    a = attr.ib(type=int)
    b = attr.ib(type=str, default="d", metadata={"name": "B", "alt": "BB"})
class TD0(TypedDict, total=False):
    a: int
    b: str
class TD1(TypedDict):
    a: int
    b: NotRequired[str]
@attr.s(frozen=True)
class FA:
    factory = attr.ib(type=int, default=3)
class FN(NamedTuple):
    default: int = 0
    factory: Optional[str] = "f"
N0 = NewType("N0", int)
N1 = NewType("N1", List[N0])
'''
ENUM_ATOMS = ['E0.A', 'E0.N', 'E1.A', '"A"', '"B"', '"b"', '"c"', '[3, 4]', '["1", "2"]', '(1, "2")', '[1, 2]', 'E4.K', '10', '11', '"9"', '2.0', 'True', '"/x"', '[2020, 1, 2]', 'Path("/x")', '"E0.A"',
              '("1", 2, 3)', '[1]', 'E3.J', 'E5.A', 'MyStr("b")', '1.5', 'b"a"', '{"v": 1}']
OBJ_ATOMS = ['{"a": 1}', '{"a": "1"}', '{"a": 1, "b": 2}', '{"a": "q", "b": "x"}', '{"b": "x"}', '{"a": 1, "c": 2}', '{"a": 1, 5: 2}', '{"a": 1, None: 2, ("t",): 1}', 'Namespace(a=1, b="x")',
             'Namespace(a=1, z=1)', 'Namespace(b="x")', 'NT0(1)', 'DC0(1)', 'AT0(1)', '(1, "x")', '[1, "x"]', '{"tag": "x", "V": [1]}', '{"tag": "x", "v": [1]}', '{"tag": "y"}', '{"tag": ["x"]}', '{"tag": MyStr("x"), "V": ["q"]}',
             '{"a": 1, "B": "m"}', '{"a": 1, "BB": "m"}', 'OrderedDict([("b", "x"), ("a", 1)])', 'MappingProxyType({"a": 1})', 'UserDict({"a": True})', '{"a": True}', '{"a": MyInt(1)}', '{"a": None}', '{"a": 1.5, "b": None}']
SWEEP_TYPES = (
    [(n, v[0] + v[1] + v[2]) for n, v in SCALARS.items()]
    + [('re.Pattern', SCALARS['Pattern'][0] + SCALARS['Pattern'][2])]
    + [(n, OPT[n][0] + OPT[n][1] + OPT[n][2]) for n in ('bytes', 'Decimal', 'Tag', 'complex', 'Opaque', 'MyStr')]
    + [('E%d' % j, ENUM_ATOMS) for j in range(7)] + [('IE', ENUM_ATOMS), ('SE', ENUM_ATOMS)]
    + [(n, OBJ_ATOMS) for n in ('NT0', 'DC0', 'DC1', 'AT0', 'TD0', 'TD1', 'FA', 'FN')]
    + [('N0', SCALARS['int'][0] + SCALARS['int'][2]), ('N1', ['[1]', '["1"]', '["x"]', '[True]', '5'])]
    + [(t, ['1', '"a"', 'True', '"1"', 'None', '2.0', '[1]', 'IE.P', 'SE.S', 'b"a"', 'MyStr("a")', '-0.0', '0', '1j', '"-1"', '"A"', '" a"', '"a b"', '-1', '-1.0', '"-20"', '""', '"ab"', '"none"', '"None"', '"True"', '[]', '{}', '{"a": 1}', '"0"', '("a",)']) for t in (
        'Literal[1]', 'Literal["a", "1"]', 'Literal[-1, "a b", -20, ""]', 'Literal[True, 2]', 'Literal[None]', 'Literal[0, "a", b"a", IE.Q]', 'Literal[SE.S, 1]')]
    + [('Any', ['[1]', '{"a": [1]}', 'Opaque()', 'None', 'MyInt(1)'])]
    + [(t, ['None', '1', '"1"', '"x"', '1.5', 'True', '[1]', '["1"]', '["x"]', '{"a": 1}', '{"a": "x"}', '"1.2.3.4"', '"2020-01-02"', 'MyStr("1")', 'IE.P', 'b"1"']) for t in (
        'Optional[int]', 'Optional[str]', 'Union[int, str]', 'Union[str, int]', 'int | None', 'Union[int, str, None]', 'Union[float, bool]', 'Union[List[int], int]', 'Union[NT0, int]',
        'Union[str, Path]', 'Union[Path, int]', 'Union[IPv4Address, datetime.date, None]', 'Union[DC0, NT0, AT0]', 'Union[Literal["x"], int, DC1]', 'Union[List[str], List[int]]', 'Optional[List[Optional[int]]]',
        'Union[E0, E4, None]', 'Union[Dict[str, int], NT0, List[str]]', 'Union[int, float, str, bool, None]', 'Union[Tuple[int, int], Tuple[int, ...], str]', 'Union[Any, int]', 'Union[Opaque, int]')]
    + [(t, ['[]', '[1, 2]', '["1", 2]', '["x"]', '[1, "x"]', '(1, 2)', '"12"', '"1x"', 'b"12"', '{}', '{1: 2}', '{"1": 2}', 'range(2)', 'deque([1, 2])', 'None', '5', '[[1]]', '[(1, "a")]', '[[1, "a", 3]]',
            '[True, 2]', 'MyList([1, 2])', '{1: 2}.keys()', 'GEN([1, "2"])', 'GEN([1, "x"])', 'set([1])', 'NT0(1, "2")', 'Namespace(a=1)', '[[]]', '[None]', '[1, [2]]', '{"a": 1, "b": "x"}', '{"a": None}', '{1.5: 1}',
            'UserDict({"1": 1})', 'MappingProxyType({1: "1"})', '[1, 2, 3]', '[1]', '["a", 1]', '[{"a": 1}]', '{"a": {"a": 1}}', '{"a": [1]}', '{(1, 2): 3}', '{"1": 1, 1: 2}', '[1, 1, "1"]', '[1, True, 1.0]',
            'dict(enumerate([3, 1, 2])).values()', 'dict(enumerate(["b", 10, "a", 9])).values()', '{"z": 1, "y": 2, "x": 3}.keys()', '{9, 5, 1}', 'frozenset(["q", "a"])', 'deque(["b", "a", 2])', '{5: 6, 3: 4}.items()']) for t in (
        'List[int]', 'list[int]', 'List[str]', 'Set[int]', 'set[str]', 'FrozenSet[int]', 'Tuple[int, ...]', 'tuple[str, ...]', 'Tuple[int, int]', 'Tuple[int, str]', 'tuple[()]', 'Tuple[int]', 'Tuple[int, str, float]',
        'Dict[str, int]', 'dict[int, int]', 'Dict[int, str]', 'Dict[str, NT0]', 'List[List[int]]', 'List[Tuple[int, str]]', 'Dict[str, List[int]]', 'List[Set[int]]', 'Set[Tuple[int, ...]]', 'List[NT0]', 'Dict[str, Any]',
        'Dict[Tuple[int, int], int]', 'List[Optional[int]]', 'List[Union[int, str]]', 'Dict[Optional[int], int]', 'Set[List[int]]', 'Dict[List[int], int]', 'Set[Any]', 'Dict[Any, int]', 'List[Any]', 'Tuple[List[int], Dict[str, int]]',
        'List[Dict[str, int]]', 'Set[FrozenSet[int]]', 'List[Opaque]', 'Dict[Opaque, int]', 'Dict[int, Opaque]', 'Tuple[int, Opaque]', 'Tuple[Opaque, ...]')]
)
BASIC_UNIONS = [(t, ['None', '1', '"1"', '"x"', '1.5', 'True', '1.0', '"1.5"', '0', '""', '-1', '10**30', 'MyStr("1")', 'MyInt(1)', 'IE.P', 'SE.S', '"None"', '"True"', 'False', '0.0', '-0.0', 'float("inf")', '[1]', '{}', 'b"1"', 'Decimal("1")']) for t in (
    'Optional[int]', 'Optional[float]', 'Optional[str]', 'Optional[bool]', 'Union[int, float]', 'Union[float, int]', 'Union[float, str]', 'Union[str, float]', 'Union[bool, int]', 'Union[int, bool]', 'Union[bool, float]', 'Union[bool, str]', 'Union[str, bool]',
    'Union[int, str]', 'Union[int, float, None]', 'Union[float, str, None]', 'Union[bool, float, None]', 'Union[float, bool, int]', 'Union[str, int, None]', 'float | None', 'bool | float', 'Union[float, List[float]]', 'Union[int, List[str], None]', 'Union[N0, float]', 'Union[N0, None]', 'Union[Literal[1], float]')]
POS = [
    ('%T', '%V'),
    ('List[%T]', '[%V]'),
    ('list[%T]', '[%G, %V]'),
    ('Tuple[%T, ...]', '(%G, %V, %G)'),
    ('Tuple[int, %T]', '[1, %V]'),
    ('Tuple[%T, %T, int]', '(%V, %G, 1)'),
    ('Dict[str, %T]', '{"k": %G, "a": %V}'),
    ('Dict[%T, int]', '{%V: 1}'),
    ('Set[%T]', '[%V]'),
    ('FrozenSet[%T]', '(%G, %V)'),
    ('Optional[%T]', '%V'),
    ('List[Optional[%T]]', '[None, %V]'),
    ('Union[%T, Dict[int, int]]', '%V'),
    ('PN', '{"x": %V}'),
    ('PD', '{"y": 1, "x": %V}'),
    ('PA', '{"x": %V, "w": 1}'),
    ('PT', '{"x": %V}'),
    ('PW', '%V'),
    ('PR', '{"n": {"n": None, "x": [%V]}, "x": [%G]}'),
    ('PM', '{"X": %V, "y": 1}'),
    ('PU', '{"x": %V}'),
    ('List[Dict[str, %T]]', '[{}, {"q": %V}]'),
    ('Dict[str, Tuple[%T, ...]]', '{"a": [%G], "b": [%G, %V]}'),
    ('Tuple[Set[%T], List[%T]]', '([%G], [%V])'),
    ('List[PN]', '[{"x": %G}, {"x": %V}]'),
    ('Optional[PD]', '{"x": %V}'),
    ('PN', 'Namespace(x=%V)'),
    ('Dict[str, %T]', 'Namespace(x=%V)'),
    ('PD', 'Namespace(x=%V, y=2)'),
    ('PM', 'Namespace(X=%V, y=2)'),
    ('Dict[str, %T]', 'MappingProxyType({"a": %V})'),
    ('List[%T]', 'deque([%V])'),
    ('List[%T]', 'GEN([%G, %V])'),
    ('List[List[List[%T]]]', '[[], [[], [%G, %V]]]'),
    ('List[%T]', '[%G]*300 + [%V] + [%G]*3'),
    ('Tuple[%T, ...]', '[%G]*257 + [%V]'),
    ('Dict[str, %T]', '{**{str(i): %G for i in range(40)}, "last": %V}'),
]
POS_SRC = '''
class PN(NamedTuple):
    x: %T
@dataclass
class PD:
    x: %T
    y: int = 0
@attr.s
class PA:
    x = attr.ib(type=%T)
    w = attr.ib(type=int, default=0)
class PT(TypedDict):
    x: %T
    q: NotRequired[int]
PW = NewType("PW", %T)
class PR(NamedTuple):
    x: List[%T]
    n: Optional['PR'] = None
@dataclass
class PM:
    x: %T = field(metadata={"name": "X"})
    y: int = 0
@attr.define
class PU:
    x: Union[%T, None, Dict[int, int]]
'''
SWEEP_OPTS = [{}, {'basiccast': 'False'}, {'failonextra': 'True'}, {'basiccast': 'False', 'failonextra': 'True'}, {'dictequivalence': 'False'}, {'uniondebugconflict': 'True'},
              {'strconstructed': '{Path, Tag, Decimal}', 'basictypes': '{int, bool, float, str, type(None), bytes, complex}'}, {'basictypes': '{str, int}'},
              {'basictypes': '{int, bool, float, str, type(None), MyStr}', 'basiccast': 'False'}]


def sweep(rng, types=None, pos=None, opts=None, odd=.5, density=.25, names=None):
    """One type, in every position, with many values and several options.  The same loader goes on."""
    table = [x for x in SWEEP_TYPES if names is None or names(x[0])] if types is None else types
    name, atoms = table[rng.nth % len(table)]
    opt = rng.choice(opts or SWEEP_OPTS)
    if name in ('Decimal', 'Tag', 'bytes', 'complex') and rng.random() < .7:
        opt = SWEEP_OPTS[6]
    good = atoms[0]
    src = SWEEP_ENUMS + POS_SRC.replace('%T', name)
    progs = []
    vals = list(dict.fromkeys(atoms + [o for o in ODD if rng.random() < odd]))
    for t, v in (pos or POS):
        ops = []
        for a in vals:
            if rng.random() > density:
                continue
            if 'GEN' in a and ('Optional' in t or 'Union' in t or t == 'PU' or 'Union' in name or 'Optional' in name or name == 'Any'):
                continue
            if 'nan' in a and ('Set' in t or 'Dict[%T' in t):
                continue
            if 'GEN' in a and ('*' in v or '{%V' in v):
                continue
            ops.append(dict(op='load', l=0, t=t.replace('%T', name), v=v.replace('%V', a).replace('%G', good)))
        if ops:
            progs.append(ops)
    # mix the positions on the same loader
    rng.shuffle(progs)
    out = []
    while progs:
        k = rng.choice([1, 2, 3])
        ops = [o for p in progs[:k] for o in p]
        progs = progs[k:]
        if rng.random() < .5:
            rng.shuffle(ops)
        out.append(dict(loaders=[dict(kw=opt, via=rng.choice(['ctor', 'attr', 'ctor', 'mod']))], ops=ops))
    return src, out


DPOS = [('%s',), ('[%s]',), ('(%s, 1)',), ('{"k": %s}',), ('{%s: 1}',), ('set([%s])',), ('frozenset([%s])',), ('PN(%s)',), ('PD(%s)',), ('PA(%s)',), ('{"x": %s}',), ('PR([%s], PR([%s], None))',), ('PM(%s)',), ('PU(%s)',),
        ('[[], [%s, None]]',), ('HN(%s)',), ('HN(0, %s)',), ('HA(%s)',), ('HA(0, %s)',), ('HF(%s)',), ('HF(y=%s)',), ('HD(%s)',), ('HD(y=%s)',), ('[HN(), HA(), HF(), HD()]',), ('MyList([%s])',), ('MyDict(a=%s)',), ('PL([%s])',), ('PL([%s], (%s,))',), ('PT((%s, %s, [%s]))',), ('PT((%s, %s, 1), (1, 2, %s), (1, %s), (%s,))',), ('PT((%s, %s, date(2020, 1, 1)), v={1: (1, 2, %s, %s)})',), ('[%s]*300',)]


HIDE_SRC = '''
class HN(NamedTuple):
    x: %T = %V
    y: %T = %V
@attr.s
class HA:
    x = attr.ib(type=%T, default=%V)
    y = attr.ib(type=%T, default=%V, metadata={"name": "Y"})
@attr.define
class HF:
    x: %T = attr.field(factory=lambda: %V)
    y: %T = attr.field(default=Factory(FROM("x"), takes_self=True))
@dataclass
class HD:
    x: %T = field(default_factory=lambda: %V)
    y: %T = field(default_factory=lambda: %V, metadata={"name": "Y"})
'''


def dsweep(rng, density=.5, names=None, trip=True):
    """Dump of one kind of value in every position"""
    table = [(n, v[1]) for n, v in list(SCALARS.items()) + [(k, OPT[k]) for k in ('bytes', 'Decimal', 'Tag', 'complex', 'Opaque', 'MyStr')]]
    table += [('E%d' % j, ['E%d.A' % j, 'E%d.B' % j]) for j in range(7)] + [('IE', ['IE.P']), ('SE', ['SE.S', 'SE.a'])]
    table += [('NT0', ['NT0(1)', 'NT0(1, "x")']), ('DC0', ['DC0(1)', 'DC0(2, "d")', 'DC0(0, "x")']), ('DC1', ['DC1("x")', 'DC1("x", [1])']), ('AT0', ['AT0(1)', 'AT0(1, "x")']),
              ('FA', ['FA(1)', 'FA()', 'FA(3)']), ('FN', ['FN()', 'FN(1, None)']), ('TD0', ['{}', '{"a": 1}']), ('List[int]', ['[]', '[1, 2]']), ('Dict[str, int]', ['{}', '{"a": 1}']), ('Tuple[int, str]', ['(1, "a")']), ('FrozenSet[int]', ['frozenset([1])']),
              ('Optional[int]', ['None', '1']), ('Any', ['1', 'Opaque()', '[Opaque()]', 'date(2020, 1, 1)']),
              ('MyDate', ['MyDate(2020, 1, 2)']), ('MyDateTime', ['MyDateTime(2020, 1, 2, 3, 4, 5, 6)', 'MyDateTime(2020, 1, 2, tzinfo=timezone.utc)']), ('MyTime', ['MyTime(1, 2)']), ('MyDelta', ['MyDelta(1, 2, 3)', 'MyDelta(days=-1)'])]
    table = [x for x in table if names is None or names(x[0])]
    name, vals = table[rng.nth % len(table)]
    src = SWEEP_ENUMS + POS_SRC.replace('%T', name) + '@dataclass\nclass PL:\n    x: List[%s]\n    y: Tuple[%s, ...] = ()\n    z: List[%s] = field(default_factory=list)\n' % (name, name, name)
    src += '@dataclass\nclass PT:\n    x: Tuple[%T, %T, Any]\n    y: tuple[int, int, %T] = ()\n    z: Tuple[int, %T] = ()\n    w: Tuple[%T] = ()\n    v: Dict[int, Tuple[int, int, %T, %T]] = field(default_factory=dict)\n'.replace('%T', name)
    # one of the values, or what is equal to it, is the default
    src += HIDE_SRC.replace('%T', name).replace('%V', rng.choice(vals))
    progs = []
    for _ in range(3):
        cfgs = [dict(kw=rng.choice([{}, {'hidedefault': 'False'}, {'isodates': 'True'}, {'hidedefault': 'False', 'isodates': 'True'}, {'basictypes': '{int, bool, float, str, type(None), bytes, Decimal}'},
                                    {'strconstructed': '{Path, pathlib.PosixPath, Tag, Decimal}'}]), via=rng.choice(['ctor', 'attr', 'mod']))]
        ops = [dict(op='dump', l=0, v=p[0].replace('%s', v)) for p in DPOS for v in vals if rng.random() < density]
        rng.shuffle(ops)
        progs.append(dict(dumpers=cfgs, ops=ops))
    return src, progs


# ------------------------------------------------------- subsets of the keys
KEY_TYPES = [('int', ['1', '"2"', '0'], '0'), ('Optional[int]', ['None', '3'], 'None'), ('str', ['"a"', '1', '""'], '""'), ('List[int]', ['[]', '["1"]'], None), ('Any', ['None', '[1]'], 'None'), ('Union[int, str, None]', ['None', '"q"'], 'None'),
             ('bool', ['False', '1'], 'False'), ('Tuple[int, ...]', ['[]', '[1, 2]'], '()'), ('None', ['None'], 'None'), ('float', ['0', '1.5'], '0.0'), ('Dict[str, int]', ['{}'], None), ('Literal[0, "l"]', ['0', '"l"'], '0'), ('int | None', ['None', '5'], 'None')]


def fam_subsets(rng, kinds=('nt', 'dc', 'attrs', 'td', 'td'), dump=False, most=40, mangle=.3):
    """Classes that extend each other, given every subset of their keys"""
    src, progs, shapes = [], [], []
    for k in range(2):
        kind = rng.choice(kinds)
        fields, done, prev = {}, False, None        # name -> (data name, values); a field had a default
        for level in range(rng.choice([1, 1, 2, 3]) if kind != 'nt' else 1):
            name = 'K%d%d' % (k, level)
            names = rng.sample(['a', 'b', 'c', 'd', 'e', 'keys', 'name', 'get', 'x1'], rng.randint(1, 3))
            if kind == 'attrs' or kind == 'nt':
                names = [n for n in names if n not in ('get',)] or ['f']
            names = [n for n in names if n not in fields] if rng.random() < .8 or kind == 'td' else names
            total = rng.random() < .5
            kwonly = kind in ('dc', 'attrs') and rng.random() < .3
            if kind == 'nt':
                src.append('class %s(NamedTuple):' % name)
            elif kind == 'td':
                src.append('class %s(%s%s):' % (name, prev or 'TypedDict', '' if total else ', total=False'))
            elif kind == 'dc':
                src.append('@dataclass%s\nclass %s%s:' % ('(kw_only=True)' if kwonly else '', name, '(%s)' % prev if prev else ''))
            else:
                src.append('@attr.s%s\nclass %s%s:' % ('(kw_only=True)' if kwonly else '', name, '(%s)' % prev if prev else ''))
            for n in names:
                t, vals, d = rng.choice(KEY_TYPES)
                has = (done and not kwonly) or rng.random() < .45
                data = n
                if kind == 'td':
                    nr = rng.random()
                    src.append('    %s: %s' % (n, 'NotRequired[%s]' % t if nr < .3 else t))
                elif kind == 'nt':
                    has = has and (d is not None or done)
                    src.append('    %s: %s%s' % (n, t, ' = %s' % (d or 'None') if has else ''))
                else:
                    args = []
                    if rng.random() < mangle:
                        data = n + '_x'
                        args.append('metadata={"name": %r}' % data)
                    if has:
                        args.append('default=%s' % d if d is not None else ('default_factory=%s' if kind == 'dc' else 'factory=%s') % t.split('[')[0].lower())
                    if kind == 'dc':
                        src.append('    %s: %s = field(%s)' % (n, t, ', '.join(args)))
                    else:
                        src.append('    %s = attr.ib(%s)' % (n, ', '.join(['type=%s' % t if t != 'None' else 'type=type(None)'] + args)))
                done = done or has and not kwonly
                fields[n] = (data, vals, d)
            if not names:
                src.append('    pass')
            prev = name
            shapes.append((name, kind, dict(fields)))
    src = '\n'.join(src) + '\n'
    if not works(src):
        raise gen.Retry()
    for name, kind, fields in shapes:
        ops = []
        keys = list(fields)
        masks = list(range(2 ** len(keys)))
        if len(masks) > most:
            masks = rng.sample(masks, most)
        for m in masks:
            on = [x for j, x in enumerate(keys) if m >> j & 1]
            rng.shuffle(on)
            items = [(fields[x][0] if rng.random() < .95 else x, rng.choice(fields[x][1])) for x in on]
            if rng.random() < .08:
                items.append(('zz', '1'))
            v = '{%s}' % ', '.join('%r: %s' % i for i in items)
            t = rng.choice([name] * 4 + ['List[%s]' % name, 'Dict[str, %s]' % name, 'Optional[%s]' % name, 'Union[%s, int]' % name])
            v = {'L': '[%s]', 'D': '{"k": %s}'}.get(t[0] if '[' in t else '', '%s') % v
            ops.append(dict(op='load', l=rng.randrange(2), t=t, v=v))
        progs.append(dict(loaders=[dict(kw={}), dict(kw=rng.choice([{'failonextra': 'True'}, {'basiccast': 'False'}, {'pep563': 'True'}, {}]), via=rng.choice(['ctor', 'mod', 'attr']))], ops=ops))
    return src, progs


# ---------------------------------------------------------------- focused
def only(rng, g, kinds):
    """Types having one of these kinds at the root or one level below"""
    def ok(t):
        return t.k in kinds or any(i.k in kinds for i in t.a)
    out = []
    for _ in range(200):
        t = a_type(rng, g)
        if ok(t):
            out.append(t)
        if len(out) >= 6:
            break
    return out or [a_type(rng, g)]


def wrap(rng, g, t, deep=True):
    """t in some position"""
    x = rng.random()
    if x < .35:
        return t
    if x < .5:
        return g.mk('list', [t])
    if x < .6:
        return g.mk('dict', [scalar('str'), t])
    if x < .7:
        return g.mk('vtuple', [t])
    if x < .8:
        return g.mk('tuple', [scalar('int'), t])
    if x < .9:
        return g.mk('union', [t, scalar('None')]) if not g.noneish(t) else t
    return wrap(rng, g, wrap(rng, g, t, False), False) if deep else t


def newtypes(rng, g):
    """New types, of scalars and of the rest"""
    if not g.new:
        raise gen.Retry()
    return [wrap(rng, g, rng.choice(g.new)) for _ in range(4)] + g.new


def fam_union(rng, n=12, progs=4, q=.5, **kw):
    """Unions, tagged ones too"""
    opt = dict(tagged=.6, union=.4, nclasses=(1, 3), any=.03)
    force = kw.pop('force', {})
    opt.update(kw)
    g = world(rng, **opt)
    out = []
    for _ in range(progs):
        pool = [wrap(rng, g, g.union(2)) for _ in range(4)] + only(rng, g, {'union'})[:2]
        if g.groups:
            grp = rng.choice(g.groups)
            a = [T('cls', c.name, x=c) for c in grp]
            pool.append(wrap(rng, g, g.mk('union', a)))
            pool.append(g.mk('union', list(reversed(a))))
        out.append(loads(rng, g, n, q, types=pool, **force))
    return g.source, out


def fam_pairs(rng, option, values=('True', 'False'), n=10, progs=4, q=.6, same=None, types=None, force=None, **opt):
    """The same loads with and without an option"""
    g = world(rng, **opt)
    out = []
    for _ in range(progs):
        c = loader_cfg(rng, g, .5, **(force or {}))
        cfgs = []
        for v in values:
            k = dict(c['kw'])
            k.pop(option, None)
            if v is not None:
                k[option] = v
            cfgs.append(dict(kw=k, via=rng.choice(['ctor', 'attr', 'mod'])))
        ops = []
        pool = types(rng, g) if types else [a_type(rng, g) for _ in range(4)]
        for _ in range(n):
            t = rng.choice(pool)
            v = a_value(rng, g, t, q, mk_of(cfgs[0]))
            for l in range(len(cfgs)):
                ops.append(dict(op='load', l=l, t=t.e, v=v))
        out.append(dict(loaders=cfgs, ops=ops))
    return g.source, out


def fam_history(rng, n=16, progs=3, q=.4, fresh=5, **opt):
    """Long histories on one loader, then the same loads on fresh ones"""
    fref = rng.random() < .3
    g = world(rng, **dict(dict(fref=.3 if fref else 0, union=.3, tagged=.2, alike=.6, dup=.3), **opt))
    out = []
    for _ in range(progs):
        c = loader_cfg(rng, g, .6, via='ctor')
        cfgs = [c] + ([loader_cfg(rng, g, .6, via=rng.choice(['ctor', 'attr']))] if rng.random() < .4 else [])
        base = [a_type(rng, g) for _ in range(3)]
        pool = list(base)
        for t in base:
            pool.append(wrap(rng, g, t))
            if t.k == 'union':
                pool.append(g.mk('union', t.a[::-1]))
            if t.a:
                pool.append(rng.choice(t.a))
        p = loads(rng, g, n, q, cfgs=cfgs, types=[t for t in pool if t.k != 'fref'], again=.2)
        ops = p['ops']
        if rng.random() < .3:
            k = rng.randrange(1, len(ops))
            ops.insert(k, dict(op='spam', of=rng.sample(range(k), min(k, rng.choice([1, 1, 2, 5]))), n=rng.choice([3, 10, 20, 65, 101, 129, 257, 1025])))
            for o in ops[k:]:
                if 'again' in o and o['again'] >= k:
                    o['again'] += 1
        for j in rng.sample(range(len(ops)), min(fresh, len(ops))):
            o = ops[j]
            if o['op'] == 'spam' or 'GEN' in o['v']:
                continue
            cfgs.append(cfgs[o['l']])
            ops.append(dict(op='load', l=len(cfgs) - 1, t=o['t'], v=o['v']))
            if not fref and 'again' not in o and ' at 0x' not in o['v'] and 'Opaque' not in o['v']:
                ops.append(dict(op='same', a=j, b=len(ops) - 1, cl='history'))
            if rng.random() < .5:
                ops.append(dict(op='load', l=o['l'], t=o['t'], v=o['v']))
        out.append(dict(loaders=cfgs, ops=ops))
    return g.source, out


MUTATIONS = ['v.append(%s)', 'v.append(v[0])', 'v.pop()', 'v.clear()', 'v.insert(0, %s)', 'v.reverse()', 'v.__setitem__(0, %s)', 'v.update(a=%s)', 'v.pop(next(iter(v)))', 'v.__setitem__(next(iter(v)), %s)', 'next(iter(v.values())).append(%s)',
             'v[0].clear()', 'v[0].append(%s)', 'next(iter(v.values())).clear()', 'v.add(%s)', 'next(iter(v.values())).update(a=%s)', 'list(v.values())[-1].pop()']


def mutated(rng, ops, k):
    """Inserts calls with values that changed after an earlier call"""
    done = 0
    for j, o in list(enumerate(ops)):
        if done == k:
            break
        if 'other' in o:
            # gets the fields of another object of the same class
            b = o.pop('other')
            ops.append(dict(o, again=j, mut='setattrs(v, %s)' % b))
        elif o['op'] in ('load', 'dump') and 'again' not in o and 'GEN' not in o['v'] and o['v'][0] in '[{MOND':
            m = rng.choice(MUTATIONS)
            if '%s' in m:
                m = m % rng.choice(ODD if rng.random() < .3 else ['1', '"a"', 'None', '[1]', '{"a": 1}', '"x"', 'True', '2.5'])
            ops.append(dict(o, again=j, mut=m))
            done += 1


def fam_changes(rng, n=14, progs=3, q=.8, **opt):
    """Values that change between the calls, and values and types that do not stay"""
    g = world(rng, **dict(dict(union=.2, tagged=.1, alike=.4), **opt))
    out = []
    for _ in range(progs):
        ops = loads(rng, g, n, q, cfgs=[dict(kw={}, via='ctor')])['ops']
        mutated(rng, ops, 5)
        flat = [j for j, o in enumerate(ops) if 'again' not in o]
        if flat:
            ops.append(dict(op='churn', of=rng.sample(flat, min(len(flat), rng.choice([3, 6, 10]))), n=rng.choice([12, 30])))
        out.append(dict(loaders=[loader_cfg(rng, g, .4, via=rng.choice(['ctor', 'attr']))], ops=ops))
        p = dumps(rng, g, n, nd=(1, 1), bad=.1)
        ops = [dict(op='dump', l=0, v=o['v']) for o in p['ops']]
        rng.shuffle(ops)
        for c in g.classes:
            if c.kind in ('dc', 'attrs') and not c.frozen:
                t = T('cls', c.name, x=c)
                a, b = g.typed(t), g.typed(t)
                if a is not None and b is not None:
                    ops.insert(0, dict(op='dump', l=0, v=a, other=b))
        mutated(rng, ops, 6)
        for o in ops:
            o.pop('other', None)
        flat = [j for j, o in enumerate(ops) if 'again' not in o]
        if flat:
            ops.append(dict(op='churn', of=rng.sample(flat, min(len(flat), rng.choice([3, 6, 10]))), n=rng.choice([12, 30])))
        p['ops'] = ops
        out.append(p)
    return g.source, out


def fam_dhistory(rng, n=14, progs=3, **opt):
    g = world(rng, **dict(dict(trip=True, alike=.7, dup=.3, defaults=.6), **opt))
    out = []
    for _ in range(progs):
        p = dumps(rng, g, n, nd=(1, 1), bad=.15)
        ops = p['ops']
        if not ops:
            continue
        rng.shuffle(ops)
        ops = [dict(op='dump', l=0, v=o['v']) for o in ops]
        if rng.random() < .3 and len(ops) > 1:
            k = rng.randrange(1, len(ops))
            ops.insert(k, dict(op='spam', of=rng.sample(range(k), min(k, rng.choice([1, 2, 5]))), n=rng.choice([3, 10, 65, 129, 257])))
        for j in rng.sample(range(len(ops)), min(5, len(ops))):
            if ops[j]['op'] == 'spam':
                continue
            p['dumpers'].append(p['dumpers'][0])
            ops.append(dict(op='dump', l=len(p['dumpers']) - 1, v=ops[j]['v']))
            ops.append(dict(op='same', a=j, b=len(ops) - 1, cl='history'))
        p['ops'] = ops
        out.append(p)
    return g.source, out


def deep_value(rng, g, c, mk, bad=.5):
    """A value of a class that contains itself, many levels deep"""
    fs = [f for f in c.f if f.init and f.t.q and "'%s'" % c.name in f.t.e]
    if not fs or c.guard:
        return None
    f = rng.choice(fs)

    def hole(t):
        if t.k == 'fref':
            return 'x'
        for j, i in enumerate(t.a):
            h = hole(i)
            if h:
                return {'union': '%s', 'list': '[%s]', 'vtuple': '(%s,)', 'set': '[%s]', 'dict': '{"k": %s}'}.get(t.k, '[%s]') % h
        return None
    h = hole(f.t)
    key = mk if c.kind in ('dc', 'attrs') else ''

    def base(q):
        for _ in range(20):
            v = g.obj(c, 0, q, mk)
            if v.startswith('{') and 'GEN' not in v and v.count('Namespace') == 0:
                return v
        return '{}'
    n = rng.choice([5, 11, 12, 20, 33, 40, 66, 101])
    if 'Union' in f.t.e or 'Optional' in f.t.e:
        n = min(n, 20)
    if any(x.kind == 'self' for x in c.f):
        n = min(n, 7)
    return 'NEST(%d, lambda x: {**%s, %r: %s}, %s)' % (n, base(1.0), f.data(key), h, base(rng.choice([.3, 1.0])) if rng.random() < .8 else rng.choice(ODD))


def fam_fref(rng, n=14, progs=4, q=.7, **opt):
    """Recursive classes in every position, with names supplied by the user or not"""
    g = world(rng, **dict(dict(fref=.6, nclasses=(1, 3), union=.15, special=.15, later=.3, newtype=.4, inherit=.1, strange=.05, guard=0), **opt))
    out = []
    cls = [T('cls', c.name, x=c) for c in g.classes]
    for _ in range(progs):
        cfgs = []
        for _ in range(rng.randint(1, 2)):
            fr = rng.choice([None, None, None, '{}', 'None', 'user', 'other'])
            if fr == 'user':
                c = rng.choice(g.classes).name
                fr = '{%r: %s}' % (c, c)
            elif fr == 'other':
                fr = '{%r: %s}' % (rng.choice('ABCDGH'), rng.choice([rng.choice(g.classes).name, 'int', 'List[int]', 'Optional[str]']))
            cfgs.append(loader_cfg(rng, g, .4, frefs=fr))
        pool = list(cls) + [wrap(rng, g, rng.choice(cls)) for _ in range(4)] + [x for x in g.new]
        if rng.random() < .5:
            x = rng.choice(g.classes).name
            x = rng.choice([x, x, x, '_' + x, 'w.' + x, x.lower(), x + x, x + '_', x + "'", ' ' + x, '__main__.' + x, 'int', 'N0', 'E0', 'IE', 'Path', 'list', 'Optional', 'A' + x, '_'])
            f = T('fref', 'ForwardRef(%r)' % x, x=x) if x.isidentifier() else None
            if f is None:
                try:
                    runner.load_world("x = ForwardRef(%r)" % x)
                    f = T('fref', 'ForwardRef(%r)' % x, x=x)
                except Exception:
                    f = T('fref', "ForwardRef('_')", x='_')
            pool += [f, wrap(rng, g, f)]
        p = loads(rng, g, n, q, cfgs=cfgs, types=pool, again=.15)
        if rng.random() < .4:
            # a name that becomes known later
            l, t = rng.randrange(len(cfgs)), rng.choice(cls)
            f = "ForwardRef('%s')" % t.e
            first = []
            for e in ([f], [f, t.e, f], [f, t.e, 'List[%s]' % f], ['List[%s]' % f, t.e, f], [t.e, f], [f, 'List[%s]' % t.e, f])[rng.randrange(6)]:
                v = a_value(rng, g, t, .9, mk_of(cfgs[l]))
                first.append(dict(op='load', l=l, t=e, v='[%s]' % v if e.startswith('List') else v))
            for o in p['ops']:
                if 'again' in o:
                    o['again'] += len(first)
            p['ops'][:0] = first
        if rng.random() < .5:
            l = rng.randrange(len(cfgs))
            t = rng.choice(cls)
            v = deep_value(rng, g, t.x, mk_of(cfgs[l]))
            if v:
                p['ops'].append(dict(op='load', l=l, t=rng.choice([t.e, t.e, 'List[%s]' % t.e]), v=v))
                if p['ops'][-1]['t'] != t.e:
                    p['ops'][-1]['v'] = '[%s]' % v
                if rng.random() < .5:
                    p['ops'].append(dict(op='load', l=l, t=t.e, v=a_value(rng, g, t, q, mk_of(cfgs[l]))))
        out.append(p)
    return g.source, out


def conv_ok(e):
    return "'" not in e


def known_type(g, e):
    """The type with this expression, so that values for it can be made"""
    if e in SCALARS or e in OPT or e == 'MyStr':
        return scalar(e)
    if e == 'type(None)':
        return T('s', e, x='None')
    c = g.names.get(e)
    if c:
        return T('cls', e, x=c)
    i, s = scalar('int'), scalar('str')
    d = {'List[int]': ('list', [i]), 'Optional[int]': ('union', [i, scalar('None')]), 'Dict[str, int]': ('dict', [s, i]), 'Tuple[int, ...]': ('vtuple', [i]), 'Union[int, str]': ('union', [i, s]),
         'Set[int]': ('set', [i]), 'Tuple[int, int]': ('tuple', [i, i]), 'Any': ('any', []), 'Literal["a"]': ('lit', [])}
    if e in d:
        return T(d[e][0], e, d[e][1], x=['"a"'])
    for n in g.new:
        if n.e == e:
            return n
    return T('s', e, x='int')


def with_fields(rng, g, types, n):
    """Classes of every kind with fields of these types: (source, types)"""
    src, out = '', []
    k = rng.choice(['nt', 'dc', 'attrs', 'td'])
    names = 'abcdefgh'[:len(types)]
    c = gen.C(k, 'HC%d' % n)
    c.style = rng.choice(['s', 'define', 'auto'])
    c.f = [gen.F(x, t) for x, t in zip(names, types)]
    for f in c.f:
        if rng.random() < .3 and k != 'td':
            v = g.typed(f.t, 1, fresh=True)
            if v is not None:
                f.kind, f.dflt = ('val', v) if g.immutable(f.t) or k == 'nt' else ('fac', 'lambda: %s' % v)
    if k in ('nt', 'dc', 'attrs'):
        c.f.sort(key=lambda f: f.kind is not None)
    for key in ('name', 'alt'):
        if rng.random() < .3 and k in ('dc', 'attrs'):
            for f in c.f:
                f.mn[key] = f.name.upper()
    g.src = []
    g.emit(c, None, c.f)
    return '\n'.join(g.src) + '\n', T('cls', c.name, x=c)


def a_handler(rng, g, dumper=False):
    n = None
    if dumper:
        m = rng.sample(['str', 'int', 'bool', 'list', 'dict', 'tuple', 'float', 'type(None)', 'PosixPath', 'date', 'Opaque', 'IE', 'MyInt', 'MyList', 'UUID', 'timedelta'] + [c.name for c in g.classes if c.kind != 'td'] * 2, rng.choice([1, 1, 2]))
        act = rng.choice(['wrap', 'const', 'reject', 'side', 'wrap2', 'each', 'recur'])
        n = {'wrap': '"H"', 'wrap2': '"H"', 'const': rng.choice(['"H"', '5', 'None', '["H"]']), 'side': '"S"', 'recur': rng.choice(['[1.5]', '{"q": 2.5}', 'Decimal("1")', '(1.5,)']), 'each': '0', 'reject': '0'}[act]
        if act == 'each':
            m = [rng.choice(['list', 'tuple', 'MyList'])]
            if m == ['list']:
                m = ['tuple']
        h = dict(m=m, act=act, n=n)
    else:
        types = {t.e: t for t in (a_type(rng, g, 2) for _ in range(5)) if conv_ok(t.e)}
        pool = list(types)
        pool += rng.sample(['int', 'str', 'float', 'bool'], 2) + rng.sample(['int', 'str', 'float', 'bool', 'None', 'type(None)', 'Any', 'List[int]', 'Path', 'datetime.date', 'Optional[int]', 'Dict[str, int]', 'Tuple[int, ...]', 'Union[int, str]', 'Opaque', 'Decimal', 'IE', 'Set[int]',
                            'Pattern', 'Tuple[int, int]', 'Literal["a"]', 'bytes', 'MyStr', 'timedelta'] + [c.name for c in g.classes] * 2 + [x.e for x in g.new] * 4 + ["ForwardRef('A')"], 4)
        act = rng.choice(['wrap', 'const', 'reject', 'recur', 'each', 'side', 'wrap', 'const'])
        m = rng.sample(pool, rng.choice([1, 1, 2, 3]))
        leafs = ['int', 'str', 'List[float]', 'Tuple[str, ...]', 'float', 'Optional[bool]', 'UUID']
        n = {'wrap': '"H"', 'const': rng.choice(['"H"', '5', 'None', '(1, 2)']), 'side': '"S"', 'reject': '0', 'recur': rng.choice(leafs), 'each': rng.choice(leafs)}[act]
        if act in ('recur', 'each'):
            # must not reach itself
            m = [x for x in m if x not in ('int', 'str', 'float', 'bool', 'None', 'type(None)', 'UUID') + tuple(leafs) and 'Union' not in x and 'Optional' not in x and '|' not in x] or ['Opaque']
        if act == 'side':
            m = [x for x in m if x not in ('int', 'str', 'List[int]', 'list[int]', 'Dict[str, int]', 'dict[str, int]', 'Tuple[int, int]', 'tuple[int, int]')] or ['Opaque']
        for x in m:
            types.setdefault(x, known_type(g, x))
        h = dict(m=m, act=act, n=n, T=types)
    h['how'] = rng.choice(['insert', 'insert', 'append', 'index'])
    if h['how'] == 'index':
        h['m'] = h['m'][:1]
    if rng.random() < .2:
        pool = ['int', 'str', 'Path', 'List[int]', 'Opaque', 'float'] if not dumper else ['int', 'str', 'list', 'Opaque']
        h['x'] = rng.sample(pool, rng.choice([1, 2]))
        h['exc'] = rng.choice(['RuntimeError', 'RuntimeError', 'TypeError', 'AttributeError', 'KeyError', 'ValueError', 'IndexError', 'NameError', 'AssertionError', 'OSError', 'ArithmeticError', 'UnicodeError', 'LookupError'])
    return h


def fam_handlers(rng, n=12, progs=4, q=.7, **opt):
    g = world(rng, **dict(dict(bad=.05, guard=.05, any=.08), **opt))
    out, extra = [], []
    for _ in range(progs):
        cfgs = []
        for _ in range(rng.randint(1, 2)):
            c = loader_cfg(rng, g, .4)
            hs = [a_handler(rng, g) for _ in range(rng.choice([1, 1, 2, 3]))]
            for j, h in enumerate(hs):
                # handlers that go on loading come alone
                if h['act'] in ('recur', 'each'):
                    hs = [h]
                    break
            for h in hs:
                if h['how'] == 'index' and (h['m'][0] in ('Opaque', 'Decimal', 'bytes', 'MyStr', 'complex') or 'x' in h or len(hs) > 1 or 'basictypes' in c['kw'] or 'strconstructed' in c['kw']):
                    h['how'] = 'insert'
            c['handlers'] = hs
            cfgs.append(c)
        pool = [a_type(rng, g) for _ in range(3)]
        for c in cfgs:
            for h in c['handlers']:
                ts = [h['T'][m] for m in h['m'] if m != "ForwardRef('A')"]
                if ts:
                    more, t = with_fields(rng, g, ts + [scalar('int')] * rng.choice([0, 1]), len(extra))
                    extra.append(more)
                    pool += [t, wrap(rng, g, t)]
                for m in h['m']:
                    t = h['T'][m]
                    if rng.random() < .5 and m != "ForwardRef('A')" and t.k != 'fref':
                        # the same type under another name
                        name = 'NH%d' % len(extra)
                        extra.append('%s = NewType(%r, %s)\n' % (name, name, m))
                        u = T('new', name, [t])
                        pool += [u, wrap(rng, g, u)]
                        if rng.random() < .4:
                            extra.append('%sN = NewType(%r, %s)\n' % (name, name + 'N', name))
                            pool.append(T('new', name + 'N', [u]))
                    pool += [wrap(rng, g, t) for _ in range(2)]
                    if rng.random() < .5 and m not in ("ForwardRef('A')",):
                        pool.append(rng.choice([g.mk('set', [t]), g.mk('dict', [t, scalar('int')]), g.mk('frozenset', [t]), g.mk('tuple', [t, t])]))
            for h in c['handlers']:
                h.pop('T', None)
        out.append(loads(rng, g, n, q, cfgs=cfgs, types=pool, again=.1))
    return works(g.source + ''.join(extra)), out


def works(source):
    try:
        w = encode.World(runner.load_world(source))
        for c in list(vars(w.module).values()):
            if isinstance(c, type) and c.__module__ == 'w':
                w.type(c)
    except Exception:
        raise gen.Retry()
    return source


def fam_dhandlers(rng, n=10, progs=4, **opt):
    g = world(rng, trip=True, **opt)
    out, extra = [], []
    for _ in range(progs):
        p = dumps(rng, g, n, bad=.2)
        for c in p['dumpers']:
            hs = [a_handler(rng, g, True) for _ in range(rng.choice([1, 1, 2]))]
            for h in hs:
                if h['how'] == 'index':
                    s = {'str': '"a"', 'int': '1', 'bool': 'True', 'list': '[]', 'dict': '{}', 'tuple': '()', 'float': '1.5', 'type(None)': 'None', 'PosixPath': 'Path("a")', 'date': 'date(1,1,1)', 'IE': 'IE.P',
                         'UUID': 'UUID(int=1)', 'timedelta': 'timedelta(1)'}.get(h['m'][0])
                    if s is None or 'x' in h or 'basictypes' in c['kw'] or 'strconstructed' in c['kw']:
                        h['how'] = 'insert'
                    else:
                        h['sample'] = s
                if h['act'] in ('recur', 'each', 'side') and len(hs) > 1:
                    h['act'], h['n'] = 'const', '"H"'
                # what the handler itself dumps must not come back to it
                if h['act'] == 'side':
                    h['m'] = [x for x in h['m'] if x not in ('list', 'dict', 'tuple', 'int', 'str')] or ['Opaque']
                if h['act'] == 'recur':
                    h['m'] = [x for x in h['m'] if x not in ('list', 'dict', 'tuple', 'float', 'str')] or ['Opaque']
            c['handlers'] = hs
        for j, c in enumerate(p['dumpers']):
            # dataclasses with containers of what the handlers deal with
            ts = [DTYPES[m] for h in c['handlers'] for m in h['m'] + h.get('x', []) if m in DTYPES] + [rng.choice(list(DTYPES.values())) for _ in range(rng.choice([0, 1, 2]))]
            rng.shuffle(ts)
            ts = [g.mk(k, [t], spell='Optional') if k == 'union' else g.mk(k, [t, t]) if k == 'tuple' else g.mk('dict', [scalar('str'), t]) if k == 'dict' else g.mk(k, [t]) if k else t
                  for t, k in zip(ts, (rng.choice(['list', 'list', 'vtuple', 'set', 'frozenset', 'tuple', 'dict', 'union', '']) for _ in ts))][:5]
            if ts:
                more, t = with_fields(rng, g, ts, len(extra))
                extra.append(more)
                for _ in range(2):
                    v = g.typed(t)
                    if v is not None:
                        p['ops'].insert(rng.randint(0, len(p['ops'])), dict(op='dump', l=j, v=v))
        fix_again(p['ops'])
        out.append(p)
    return works(g.source + ''.join(extra)), out


DTYPES = dict(str=scalar('str'), int=scalar('int'), bool=scalar('bool'), float=scalar('float'), PosixPath=scalar('Path'), date=scalar('datetime.date'), UUID=scalar('UUID'), timedelta=scalar('timedelta'))
DTYPES['type(None)'] = scalar('None')


def fix_again(ops):
    for o in ops:
        o.pop('again', None)


def fam_options(rng, n=8, progs=3, q=.5, **opt):
    """The same options given in three ways, with other objects in between"""
    g = world(rng, **opt)
    out = []
    for _ in range(progs):
        c = loader_cfg(rng, g, 1.3)
        c['kw'].pop('frefs', None) if rng.random() < .7 else None
        cfgs = [dict(kw=c['kw'], via=v) for v in ('ctor', 'attr', 'mod')]
        cfgs += [loader_cfg(rng, g, 1.2) for _ in range(2)]
        if rng.random() < .5:
            # a loader whose options are altered in place
            k = dict(cfgs[4]['kw'])
            k.setdefault(rng.choice(['basictypes']), rng.choice(BT))
            k.setdefault('strconstructed', rng.choice(SC))
            cfgs[4] = dict(kw=k, via='inplace')
        if rng.random() < .3 and cfgs[3]['via'] != 'mod':
            h = a_handler(rng, g)
            h.pop('T')
            if h['how'] == 'index':
                h['how'] = 'insert'
            cfgs[3] = dict(cfgs[3], handlers=[h])
        d = dumper_cfg(rng, g, 1.3)
        dcfgs = [dict(kw=d['kw'], via=v) for v in ('ctor', 'attr', 'mod')] + [dumper_cfg(rng, g, 1.2)]
        if rng.random() < .5:
            dcfgs[3] = dict(kw=dict(dcfgs[3]['kw'], basictypes=rng.choice(BT[:1] + BT[3:5]), strconstructed='{Path, pathlib.PosixPath, Tag, Decimal, UUID}'), via='inplace')
        fref = any("'" in t for t in [c.name for c in g.classes]) or g.o['fref'] > 0
        ops = []
        pool = [a_type(rng, g) for _ in range(4)]
        for _ in range(n):
            t = rng.choice(pool)
            v = a_value(rng, g, t, q, mk_of(c))
            if 'GEN' in v:
                continue
            k = len(ops)
            order = [0, 1, 2]
            rng.shuffle(order)
            for l in order:
                if rng.random() < .4:
                    ops.append(dict(op='load', l=3 + rng.randrange(2), t=t.e, v=v))
                ops.append(dict(op='load', l=l, t=t.e, v=v))
            mine = [j for j in range(k, len(ops)) if ops[j]['l'] < 3]
            if not fref and 'Opaque' not in v:
                ops.append(dict(op='same', a=mine[0], b=mine[1], cl='options'))
                ops.append(dict(op='same', a=mine[0], b=mine[2], cl='options'))
            if rng.random() < .5:
                x = g.typed(t)
                if x is not None:
                    for l in order:
                        ops.append(dict(op='dump', l=l, v=x))
                        if rng.random() < .3:
                            ops.append(dict(op='dump', l=3, v=x))
        out.append(dict(loaders=cfgs, dumpers=dcfgs, ops=ops))
    return g.source, out


def fam_share(rng, n=12, progs=4, q=.75, **opt):
    """Objects with factories, loaded and dumped repeatedly"""
    g = world(rng, **dict(dict(defaults=.7, any=.03, strange=.15), **opt))
    out = []
    for _ in range(progs):
        cfgs = [loader_cfg(rng, g, .6) for _ in range(2)]
        ds = [dumper_cfg(rng, g, .6) for _ in range(2)]
        p = loads(rng, g, n, q, cfgs=cfgs, again=.25)
        ops = []
        for o in p['ops']:
            ops.append(dict(o))
        for _ in range(n // 3):
            t = a_type(rng, g)
            v = g.typed(t)
            if v is not None:
                ops.append(dict(op='dump', l=rng.randrange(2), v=v))
                if rng.random() < .4:
                    ops.append(dict(op='dump', l=rng.randrange(2), v=v, again=len(ops) - 1))
        out.append(dict(loaders=cfgs, dumpers=ds, ops=ops))
    return g.source, out


NONTYPES = ['5', '"int"', '"List[int]"', 'None', '...', '[]', '[int]', '{}', '{"a": int}', '()', '(int,)', 'object()', 'len', 'lambda x: x', 'Opaque()', '1.5', 'typing', 'b"x"', 'True', 'IE.P', 'NotImplemented', 'Opaque', 'object', 'type',
            'complex', 'bytes', 'Exception', 'range(3)', 'set()', '{int}', 'frozenset([int])', 'deque([1])', 'Namespace(a=1)', 'MyStr("int")', 'date(2020, 1, 1)', 'date', 'datetime.datetime', 'datetime.time', 'timedelta', 're.Pattern',
            'Pattern[str]', 'Pattern[bytes]', 'Decimal', 'Path', 'MappingProxyType({})', 'UserDict()', 'float("nan")', '1j', 'Ellipsis', 'typing.Callable', 'typing.Callable[[int], int]', 'Iterable[int]', 'Sequence[int]', 'typing.Type[int]',
            'TypeVar("TV")', 'ClassVar[int]', 'typing.Final[int]', 'Annotated[int, "x"]', 'typing.Generic', 'collections.namedtuple("Q", "a b")', 'collections.OrderedDict', 'typing.Deque[int]', 'deque', 'defaultdict', 'typing.NoReturn',
            'Enum', 'IntEnum', 'NamedTuple', 'TypedDict', 'typing.Protocol', 'Union', 'Optional', 'Literal', 'NotRequired', 'Any', 'List', 'Dict', 'Set', 'FrozenSet', 'Tuple', 'list', 'dict', 'set', 'frozenset', 'tuple', 'str', 'int',
            'type(None)', 'ForwardRef("A")', 'ForwardRef("List[int]")', 'typing.Mapping[str, int]', 'UserDict', 'weird_class', 'MyStr', 'MyList', 'MyDict', 'OrderedDict', 'slice(1)', 'Namespace', 'typing.DefaultDict[str, int]', 'typing.OrderedDict[str, int]', 'typing.Counter[str]', 'typing.ChainMap[str, int]', 'collections.OrderedDict[str, int]', 'collections.defaultdict[str, int]', 'deque[int]', 'collections.Counter[str]',
            'typing.AbstractSet[int]', 'typing.MutableSet[int]', 'typing.Collection[int]', 'typing.Iterator[int]', 'typing.MutableSequence[int]', 'typing.MutableMapping[str, int]', 'collections.abc.Set[int]', 'collections.abc.Mapping[str, int]',
            'collections.abc.Sequence[int]', 'typing.DefaultDict', 'typing.OrderedDict', 'collections.Counter', 'typing.Container[int]', 'typing.KeysView[int]', 'type[int]', 'typing.Type', 're.Match', 'typing.Match[str]', 'bytearray', 'memoryview',
            'MyDate', 'MyTime', 'MyDelta', 'typing.Text', 'typing.AnyStr', 'typing.Hashable', 'typing.Sized', 'typing.Generator[int, None, None]', 'Odd0', 'Odd1', 'Odd2', 'Odd3', 'Odd4', 'Odd0()', 'Odd1()', 'Odd2()', 'Odd3()', 'Odd4()']


def fam_pred(rng, n=40, progs=3, **opt):
    g = world(rng, **dict(dict(union=.3, literal=.3, enum=.3, newtype=.8, bad=.03, nclasses=(2, 4)), **opt))
    out = []
    for _ in range(progs):
        ops = []
        for _ in range(n):
            x = rng.random()
            t = a_type(rng, g, rng.choice([1, 2, 3]))
            e = t.e
            if x < .2:
                e = rng.choice(NONTYPES)
                if rng.random() < .3:
                    e = rng.choice(['Optional[%s]', 'List[%s]', 'Union[%s, int]', 'NotRequired[%s]', 'Tuple[%s, ...]', 'Dict[%s, int]', 'Union[%s, None, str]']) % rng.choice(['int', 'Any', 'type(None)', 'Opaque', 'str', '"A"', 'Literal[None]', 'Literal[1]'])
            elif x < .3:
                e = 'NotRequired[%s]' % e
            elif x < .36:
                e = 'Optional[%s]' % e
            elif x < .42:
                e = rng.choice(['Literal[1, "a", None]', 'Literal["x"]', 'Literal[True, 1]', 'Literal[IE.P]', 'Literal[b"a"]', 'Literal[Literal[1, 2], 3]', 'Union[Literal[1], None]', 'Union[None]', 'Union[int]', 'int | None', 'None | int | str',
                                'Optional[Union[int, str]]', 'Union[int, Union[str, None]]', 'Optional[None]', 'List[int] | None', 'Optional[Any]', 'Union[None, Literal[None]]', 'Optional[Optional[int]]', 'list[int] | dict[str, int]', 'Pattern[str] | None'])
            elif x < .5:
                e = rng.choice(g.classes).name
            if e == 'weird_class' or 'TypeVar' in e or 'Annotated' in e or 'namedtuple' in e or 'typing.Protocol' in e or 'lambda' in e or 'object()' in e:
                continue
            ops.append(dict(op='pred', t=e))
        out.append(dict(ops=ops))
    return g.source, out


def fam_threads(rng, progs=4, n=3, **opt):
    """Calls of several threads on the same objects"""
    fref = opt.pop('fref', .2) if rng.random() < opt.pop('often', .4) else 0
    g = world(rng, **dict(dict(nclasses=(1, 3), nfields=(1, 3), union=.3, tagged=.2, deep=1, fref=fref), **opt))
    out = []
    for _ in range(progs):
        cfgs = [loader_cfg(rng, g, .5, via='ctor', frefs=None)]
        ds = [dumper_cfg(rng, g, .5, via='ctor')]
        if rng.random() < .25:
            h = a_handler(rng, g)
            h.pop('T')
            if h['how'] == 'index':
                h['how'] = 'insert'
            cfgs[0]['handlers'] = [h]
        ops = []
        for _ in range(n):
            jobs = []
            pool = [a_type(rng, g, 2) for _ in range(2)]
            for _ in range(rng.choice([2, 2, 3])):
                t = rng.choice(pool)
                if rng.random() < .7:
                    v = a_value(rng, g, t, .6, mk_of(cfgs[0]))
                    jobs.append(dict(op='load', l=0, t=t.e, v=v))
                else:
                    v = g.typed(t)
                    if v is not None:
                        jobs.append(dict(op='dump', l=0, v=v))
            if len(jobs) > 1:
                warm = None
                if rng.random() < .3:
                    warm = rng.randrange(len(jobs))
                ops.append(dict(op='threads', jobs=jobs, seed=rng.randrange(1 << 30), warm=warm, alone=not fref and not any('Opaque' in x['v'] or ' at 0x' in x['v'] for x in jobs)))
        out.append(dict(loaders=cfgs, dumpers=ds, ops=ops))
    return g.source, out
