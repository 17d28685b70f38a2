"""
The specification itself, checked by TLC: the properties hold for every type,
value and combination of options of the worlds below (spec/Theorems.tla), and
for every history of a loader (spec/LoaderMachine.tla).

A world: Python source of classes, types, values; the values are completed
with their wrappings (in a list, a dictionary, as Namespace ...) and with the
dumps of the typed values, as the documentation describes them.
"""
import dataclasses, datetime, enum, json, os, pathlib, random, re, sys, tempfile, shutil
import attr

OBJECTS = '''
class Col(Enum):
    RED = 1
    BLUE = "b"
class Pt(Enum):
    a: Tuple[int, int]
    HERE = (1, 2)
    THERE = (3, 4)
@dataclass
class In:
    x: int = 0
class ANT(NamedTuple):
    a: int
    b: List[str] = []
    c: Optional[In] = None
@dataclass
class ADC:
    a: int
    b: List[str] = field(default_factory=list)
    c: Optional[In] = None
@attr.s
class AAT:
    a = attr.ib(type=int)
    b = attr.ib(type=List[str], factory=list)
    c = attr.ib(type=Optional[In], default=None)
class ATD0(TypedDict):
    a: int
class ATD(ATD0, total=False):
    b: List[str]
    c: Optional[In]
@dataclass
class Man:
    a: int = field(metadata={'name': 'b', 'alt': 'x'})
    b: str = field(default='d', metadata={'name': 'c'})
    c: float = field(default=1.5, metadata={'name': 'cc'})
    d: int = field(default=3, init=False)
@attr.s
class MAt:
    a = attr.ib(type=int, metadata={'name': 'b', 'alt': 'x'})
    b = attr.ib(type=str, default='d', metadata={'name': 'c'})
    c = attr.ib(type=float, default=1.5, metadata={'name': 'cc'})
    e = attr.ib(type=float, default=Factory(FROM('c'), takes_self=True))
class Two(NamedTuple):
    kind: Literal['p']
    v: int
class Thr(NamedTuple):
    kind: Literal['q']
    v: int
'''

RECURSION = '''
class Col(Enum):
    RED = 1
class N(NamedTuple):
    v: int
    next: Optional['N'] = None
@dataclass
class T:
    kids: List['T'] = field(default_factory=list)
    v: Optional[str] = None
@attr.s
class R:
    m = attr.ib(type=Dict[str, 'R'], factory=dict)
    n = attr.ib(type=Optional['Unknown'], default=None)
class D(TypedDict, total=False):
    d: 'D'
    t: T
NewN = NewType('NewN', N)
@dataclass
class Pair:
    l: N
    r: 'T'
'''

PEP = '''
class E1(Enum):
    A = 1
class NT(NamedTuple):
    a: int
    b: List[str] = []
class NTs(NamedTuple):
    a: 'int'
    b: 'List[str]' = []
@dataclass
class DC:
    a: int
    b: Optional[NT] = None
    c: E1 = E1.A
@dataclass
class DCs:
    a: 'int'
    b: 'Optional[NT]' = None
    c: 'E1' = E1.A
class TD(TypedDict):
    a: int
    b: Dict[str, int]
class TDs(TypedDict):
    a: 'int'
    b: 'Dict[str, int]'
'''

WORLDS = dict(
    scalars=dict(
        source='class Col(Enum):\n    RED = 1\n    BLUE = "b"\n    NO = None\nclass Pt(Enum):\n    a: Tuple[int, int]\n    HERE = (1, 2)\n    THERE = (3, 4)\n    WORD = "w"\nNI = NewType("NI", int)\n',
        types=['int', 'float', 'str', 'bool', 'None', 'bytes', 'Any', 'Col', 'Pt', 'NI', 'Literal[1, "a", None]', 'Path', 'IPv4Address', 'datetime.date', 'timedelta', 'Pattern[str]',
               'List[int]', 'List[Any]', 'Set[int]', 'FrozenSet[str]', 'Tuple[int, ...]', 'Tuple[int]', 'Tuple[int, str]', 'Tuple[()]', 'Dict[str, int]', 'Dict[int, Col]', 'Dict[str, Any]',
               'Optional[int]', 'Union[int, str]', 'Union[str, Col]', 'Union[List[int], int]', 'Union[datetime.date, str]', 'Optional[Col]', 'Union[Literal[1], bool]',
               'List[List[int]]', 'List[Optional[int]]', 'Dict[str, List[int]]', 'List[Tuple[int, str]]', 'List[Col]', 'List[NI]', 'Optional[Path]', 'Set[Tuple[int, ...]]', 'List[Union[int, List[str]]]', 'Union[Set[int], List[str], None]', 'Set[List[int]]', 'complex', 'List[complex]', 'Dict[complex, int]', 'Tuple[int, complex]', 'Union[int, complex]'],
        vals=['1', 'None', '"1"', '"a"', 'True', '1.0', '1.5', 'b"a"', '[]', '{}', '()', '""', '"b"', 'Col.RED', 'Pt.HERE', '(1, 2)', '[3, 4]', '"w"', '"RED"', '"2020-01-02"', '[2020, 1, 2]', 'date(2020, 1, 2)', '"1.2.3.4"', '"x("',
              '[1, "2"]', '[1, "x"]', '{"a": 1}', '{"a": "x", "b": 2}', '{1: 1, "1": 2}', '[[1], ["2"]]', '[[1], 5]', '[1, None]', 'Namespace(a=1)', 'Namespace()', 'range(3)', 'frozenset([1])', '[1, 2, 3]', '[(1, "a")]', '{"a": [1, "y"]}', '[1, 1, "1"]', 'Opaque()', '"ab"', '{1: "b"}', '[[1, 2], [1, 2]]', '1j', '{"a": None}'],
        wrap=True),
    objects=dict(
        source=OBJECTS,
        types=['In', 'ANT', 'ADC', 'AAT', 'ATD', 'Man', 'MAt', 'List[ADC]', 'Dict[str, ANT]', 'Optional[In]', 'Union[Two, Thr]', 'Union[ADC, In]', 'Union[In, int]', 'Union[ADC, In, str, None]', 'List[Union[Two, Thr]]', 'Tuple[In]', 'Tuple[In, ...]', 'int', 'Two', 'List[In]', 'Dict[str, In]', 'Optional[Man]', 'List[str]'],
        twins=[['ANT', 'ADC', 'AAT', 'ATD']],
        vals=['1', 'None', '[]', '{}', '{"a": 1}', '{"a": "1", "b": []}', '{"a": 1, "b": ["x", 2]}', '{"a": 1, "c": {"x": "5"}}', '{"a": 1, "c": {"x": "y"}}', '{"a": 1, "c": {"z": 1}}', '{"a": "q"}', '{"a": 1, "d": 2}', '{"b": []}', '{"x": 1}', '{"x": "u"}', '{"x": 1, "y": 2}',
              '{"b": 1}', '{"b": 1, "a": 5}', '{"b": "7", "c": "k"}', '{"b": 7, "c": "k", "d": 1}', '{"x": 7, "b": "w"}', '{"x": 7, "b": "w", "c": 2}', '{"b": 1, "c": "x", "e": 2}', '{"b": 1, "cc": "2.5"}', '{"b": 1, "c": "x", "cc": 2, "a": 1}', '{"kind": "p", "v": 1}', '{"kind": "q", "v": "1"}', '{"kind": "r", "v": 1}', '{"kind": "p", "v": "z"}', '{"kind": "p"}', 'In(3)', 'Two("p", 1)', '"s"', 'UserDict({"x": 2})', '{"a": 1, "b": "xy"}', '{"a": 1, "b": None}', '{"a": 1, "b": {"k": 1}}', '{"a": 1, "c": 4}'],
        objs=[('In(0)', 'In'), ('In(5)', 'In'), ('ANT(1)', 'ANT'), ('ANT(1, ["x"], In(2))', 'ANT'), ('ADC(1)', 'ADC'), ('ADC(2, ["a", ""], In(0))', 'ADC'), ('AAT(1, [], In(4))', 'AAT'), ('Man(1)', 'Man'), ('Man(1, "z", 2.5)', 'Man'), ('MAt(1)', 'MAt'), ('MAt(2, "d", 0.5)', 'MAt'), ('MAt(2, "q", 1.5, 1.5)', 'MAt'), ('MAt(2, "q", 1.5, 2.5)', 'MAt'),
              ('[ADC(1), ADC(2, ["b"])]', 'List[ADC]'), ('{"k": ANT(1, c=In(1))}', 'Dict[str, ANT]'), ('Two("p", 5)', 'Union[Two, Thr]'), ('Thr("q", 6)', 'Union[Two, Thr]'), ('[Two("p", 1), Thr("q", 2)]', 'List[Union[Two, Thr]]'), ('(In(1), In(0))', 'Tuple[In, ...]'), ('None', 'Optional[In]')],
        wrap=True),
    special=dict(
        source='class Col(Enum):\n    RED = 1\n    BLUE = "b"\nclass Pt(Enum):\n    a: Tuple[int, int]\n    HERE = (1, 2)\n    THERE = (3, 4)\n@dataclass\nclass S:\n    d: datetime.date = date(2020, 1, 2)\n    p: Path = Path("/x")\n    c: Col = Col.RED\n',
        types=['Path', 'Col', 'Pt', 'datetime.date', 'S', 'timedelta'], vals=['1'],
        objs=[('Path("/a b")', 'Path'), ('Path("/x")', 'Path'), ('IPv4Address("1.2.3.4")', 'IPv4Address'), ('IPv6Network("2001:db8::/126")', 'IPv6Network'), ('UUID(int=5)', 'UUID'), ('date(2020, 2, 29)', 'datetime.date'), ('time(1, 2, 3, 4)', 'datetime.time'), ('time()', 'datetime.time'), ('datetime.datetime(2020, 1, 2, 3, 4, 5, 6)', 'datetime.datetime'), ('datetime.datetime(1, 1, 1)', 'datetime.datetime'),
              ('timedelta(1, 2, 3)', 'timedelta'), ('timedelta(-1)', 'timedelta'), ('re.compile("a+")', 'Pattern[str]'), ('re.compile(b"a+")', 'Pattern[bytes]'), ('Col.RED', 'Col'), ('Col.BLUE', 'Col'), ('Pt.THERE', 'Pt'), ('[Pt.HERE, Col.RED]', 'List[Union[Pt, Col]]'), ('{Col.RED: Path("/y")}', 'Dict[Col, Path]'), ('S()', 'S'), ('S(date(2021, 1, 1), Path("/x"), Col.BLUE)', 'S'), ('frozenset([date(2020, 1, 1)])', 'FrozenSet[datetime.date]'), ('(1, "a", None)', 'Tuple[int, str, None]'), ('{"a": [1.5, True]}', 'Dict[str, List[Union[float, bool]]]')]),
    recursion=dict(
        source=RECURSION,
        types=['N', 'T', 'R', 'D', 'NewN', 'Pair', 'List[N]', 'Dict[str, T]', 'Optional[N]', 'Union[N, T]', 'Tuple[N, T]', 'int', 'Col', 'List[int]'],
        vals=['1', 'None', '{}', '{"v": 1}', '{"v": 1, "next": None}', '{"v": 1, "next": {"v": 2}}', '{"v": 1, "next": {"v": 2, "next": {"v": "x"}}}', '{"v": 1, "next": {"v": 2, "next": {"v": "3", "next": {"v": 4}}}}', '{"v": 1, "next": 5}', '{"kids": []}', '{"kids": [{}, {"kids": [{"v": "x"}]}]}', '{"kids": [{}, {"kids": [5]}]}', '{"kids": [{}, {"kids": [{"kids": 3}]}], "v": 4}',
              '{"m": {"a": {"m": {"b": {}}}}}', '{"m": {"a": {"m": {"b": 1}}}}', '{"n": 1}', '{"n": None}', '{"d": {}}', '{"d": {"d": {"t": {"kids": [{}]}}}}', '{"d": {"d": {"t": {"kids": [1]}}}}', '[{"v": 1}, {"v": "q"}]', '[{"v": 1, "next": {"v": 3}}]', '{"k": {"kids": [{}]}}', '[{"v": 1}, {"kids": [{}]}]', '{"l": {"v": 1, "next": {"v": 1}}, "r": {"kids": [{}]}}', '{"l": {"v": 1}, "r": 5}'],
        objs=[('N(1)', 'N'), ('N(1, N(2, N(3)))', 'N'), ('T([T(), T([T()], "x")])', 'T'), ('R({"a": R({"b": R()})})', 'R'), ('[N(1, N(0))]', 'List[N]'), ('{"x": T([T()])}', 'Dict[str, T]')],
        wrap=True),
    pep=dict(
        source=PEP,
        types=['NT', 'NTs', 'DC', 'DCs', 'TD', 'TDs'], twins=[['NT', 'NTs'], ['DC', 'DCs'], ['TD', 'TDs']],
        vals=['1', '{}', '{"a": 1}', '{"a": "1"}', '{"a": "x"}', '{"a": 1, "b": ["x"]}', '{"a": 1, "b": [1]}', '{"a": 1, "b": {"a": 2}}', '{"a": 1, "b": {"a": "x"}}', '{"a": 1, "b": {"a": 2, "b": ["y"]}}', '{"a": 1, "c": 1}', '{"a": 1, "c": 2}', '{"a": 1, "b": {"k": 1}}', '{"a": 1, "b": {"k": "q"}}', '{"a": 1, "z": 1}', 'Namespace(a=1)', '{"a": 1, "b": None}']),
)

WORLDS['few'] = dict(WORLDS['scalars'], types=WORLDS['scalars']['types'][:22] + WORLDS['scalars']['types'][28:34], vals=WORLDS['scalars']['vals'][:30], wrap=False)
QUICK = dict(C18=['few', 'objects'])
USES = dict(C05=['objects', 'special', 'recursion'], C06=['objects', 'special', 'recursion'], C07=['objects', 'special', 'recursion'], C22=['special'],
            C08=['objects'], C14=['recursion'], C21=['pep'], C17=['objects'], C23=['scalars'], C20=['scalars', 'objects', 'recursion', 'pep'])


def plain(v, hd, iso, mk):
    """The dump of v that the documentation describes"""
    def d(x):
        return plain(x, hd, iso, mk)
    if isinstance(v, enum.Enum):
        return d(v.value)
    if v is None or type(v) in (int, float, str, bool, bytes):
        return v
    if isinstance(v, tuple) and hasattr(v, '_fields'):
        return {f: d(getattr(v, f)) for f in v._fields if not (hd and f in v._field_defaults and v._field_defaults[f] == getattr(v, f))}
    if isinstance(v, (list, tuple, set, frozenset)):
        return [d(x) for x in v]
    if isinstance(v, dict):
        return {d(k): d(x) for k, x in v.items()}
    if dataclasses.is_dataclass(v) or attr.has(type(v)):
        out = {}
        for f in dataclasses.fields(v) if dataclasses.is_dataclass(v) else attr.fields(type(v)):
            x = getattr(v, f.name)
            if dataclasses.is_dataclass(v):
                has, dflt = True, f.default
                if f.default_factory is not dataclasses.MISSING:
                    dflt = f.default_factory()
                has = dflt is not dataclasses.MISSING
            else:
                dflt, has = f.default, f.default is not attr.NOTHING
                if isinstance(dflt, attr.Factory):
                    dflt = dflt.factory(v) if dflt.takes_self else dflt.factory()
            if not (hd and has and x == dflt):
                out[f.metadata.get(mk, f.name)] = d(x)
        return out
    if isinstance(v, datetime.timedelta):
        return v.total_seconds()
    if isinstance(v, re.Pattern):
        return v.pattern
    if isinstance(v, (datetime.date, datetime.time)):
        if iso:
            return v.isoformat()
        from . import encode
        return encode.datelist(v)
    return str(v)


BASIC = ['int', 'bool', 'float', 'str', 'NoneType']
STRC = ['pathlib.Path', 'pathlib.PosixPath', 'ipaddress.IPv4Address', 'ipaddress.IPv6Address', 'ipaddress.IPv4Network', 'ipaddress.IPv6Network', 'ipaddress.IPv4Interface',
        'ipaddress.IPv6Interface', 'uuid.UUID']


def wrappings(e):
    out = ['[%s]' % e, '{"k": %s}' % e]
    if e.startswith('{"'):
        out += ['Namespace(**%s)' % e, '[Namespace(**%s)]' % e]
    return out


def build(name, extra=None):
    from . import encode, runner
    d = WORLDS[name]
    m = runner.load_world(d['source'])
    w = encode.World(m)
    ev = lambda e: eval(e, m.__dict__)
    types = [w.type(ev(e)) for e in d['types']]
    vals = [ev(e) for e in d['vals']]
    if d.get('wrap'):
        for e in d['vals']:
            for x in wrappings(e):
                try:
                    vals.append(ev(x))
                except TypeError:
                    pass
    objs = []
    for e, t in d.get('objs', []):
        v = ev(e)
        objs.append([w.node(v, True), w.type(ev(t))])
        for hd in (True, False):
            for iso in (True, False):
                for mk in ('name', 'alt'):
                    vals.append(plain(v, hd, iso, mk))
    nodes = []
    for v in vals:
        n = w.node(v, True)
        if n not in nodes:
            nodes.append(n)
    twins = [[w.type(ev(e)) for e in s] for s in d.get('twins', [])]
    out = w.finish()
    return dict(out, vals=nodes, types=types, objs=objs, twins=twins)


def worlds_of(prop, tier):
    return (QUICK.get(prop) if tier == 'quick' else None) or USES.get(prop, ['scalars', 'objects', 'recursion'])


def theorems(prop, tier, out, worlds=None):
    """TLC on Theorems.tla: exit code, output, (states generated, distinct)"""
    from . import worker
    names = worlds or worlds_of(prop, tier)
    f = os.path.join(out, 'model-%s.json' % prop)
    with open(f, 'w') as h:
        json.dump(dict(worlds=[build(n) for n in names], bt=BASIC, sc=STRC), h)
    rc, text = worker.tlc('Theorems', dict(MODEL_FILE=f, MODEL_PROP=prop), timeout=90 if tier == 'quick' else 600, workers=2, heap='3g')
    m = worker.STATES.findall(text)
    return rc, text, (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def main(argv):
    """models.py PROPERTY TIER OUTDIR : writes theorems.json there"""
    prop, tier, out = argv
    try:
        rc, text, states = theorems(prop, tier, out)
    except Exception as e:
        # what the worlds need from the code under test (nothing but loading classes) failed
        rc, text, states = 'crash', repr(e), (0, 0)
    with open(os.path.join(out, 'theorems.json'), 'w') as h:
        json.dump(dict(rc=rc, violated=' is violated' in text, text=text[-6000:], states=states[1], transitions=states[0],
                       worlds=worlds_of(prop, tier)), h)


if __name__ == '__main__':
    main(sys.argv[1:])
