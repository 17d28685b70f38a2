"""
Random worlds (Python source with class definitions), types over them, and
values, all as source text.  Nothing here knows what typedload should do with
them: that is what the specification says.
"""
import random

# ------------------------------------------------------------------- scalars
# name -> (text forms that load, conforming values, near misses)
SCALARS = {
    'int': (['0', '1', '-7', '12345678901234567890', '"7"', '"-3"', '2.0', '7.9', 'True'], ['0', '1', '2', '-5', '300', '2**70'],
            ['"x"', '""', '"1.5"', 'None', '[]', '{}', 'float("inf")', '1e400', '"1_0"', '" 5 "', 'b"7"', '1j', 'MyInt(4)', 'IE.P']),
    'float': (['0.0', '1.5', '3', '"2.5"', '"1e3"', '"inf"', 'True', '-0.0'], ['0.0', '1.5', '-2.25', '1e300', 'float("inf")'],
              ['"x"', '""', 'None', '[1.0]', '10**400', '"1,5"', 'b"1.5"', 'Decimal("1.5")', '1j']),
    'str': (['"a"', '""', '"longer text"', '5', 'None', 'True'], ['"a"', '""', '"b c"', '"1"', '"é"', '"x.y"', '"name"'],
            ['5', '1.5', 'None', 'b"a"', '["a"]', 'MyStr("a")', 'Path("a")', 'SE.S', '("a",)']),
    'bool': (['True', 'False', '0', '1', '"x"', '""'], ['True', 'False'], ['0', '1', '"no"', 'None', '[]', '2', '0.0']),
    'None': (['None'], ['None'], ['0', '""', 'False', '"None"', '[]', '{}']),
    'bytes': (['b"a"', 'b""', '[1,2]', '3'], ['b"a"', 'b""', 'b"xyz"'], ['"a"', '-1', 'None', '[300]', '1.5', 'bytearray(b"a")']),
    'Path': (['"/tmp/x"', '"a/b"', '""', '"."', 'Path("q")'], ['Path("/tmp/x")', 'Path("a/../b")', 'Path(".")'], ['5', 'None', 'b"x"', '["a"]', '1.5']),
    'IPv4Address': (['"1.2.3.4"', '"255.255.255.255"', '16909060', 'b"\\x01\\x02\\x03\\x04"'], ['IPv4Address("10.0.0.1")', 'IPv4Address("0.0.0.0")'],
                    ['"1.2.3"', '"1.2.3.256"', '"1.2.3.4/24"', '"01.2.3.4"', '-1', 'None', '"::1"', '2**32', '[1]']),
    'IPv6Address': (['"::1"', '"2001:db8::1"', '1'], ['IPv6Address("::1")', 'IPv6Address("2001:db8::5")'], ['"1.2.3.4"', '":::"', 'None', '-1', '[]']),
    'IPv4Network': (['"10.0.0.0/8"', '"1.2.3.4"', '"1.2.3.4/32"'], ['IPv4Network("10.0.0.0/30")', 'IPv4Network("1.2.3.4")'], ['"10.0.0.1/8"', '"10.0.0.0/33"', 'None', '"x"', '[]']),
    'IPv6Network': (['"2001:db8::/32"', '"::"'], ['IPv6Network("2001:db8::/126")'], ['"2001:db8::1/32"', 'None', '"::/129"']),
    'IPv4Interface': (['"10.0.0.1/8"', '"1.2.3.4"'], ['IPv4Interface("10.0.0.1/8")'], ['"10.0.0.1/40"', '"x"', 'None']),
    'IPv6Interface': (['"2001:db8::1/32"'], ['IPv6Interface("2001:db8::1/32")'], ['"x/3"', 'None', '"1.2.3.4"']),
    'UUID': (['"12345678-1234-5678-1234-567812345678"', '"{12345678123456781234567812345678}"'], ['UUID(int=5)', 'UUID("12345678-1234-5678-1234-567812345678")'],
             ['"1234"', '""', 'None', '5', '"zz345678-1234-5678-1234-567812345678"', 'b"x"']),
    'datetime.date': (['"2020-02-29"', '[2020,2,29]', '(1999,12,31)', '"20200229"', 'range(1,4)'], ['date(2020,2,29)', 'date(1,1,1)', 'date(9999,12,31)'],
             ['"2020-02-30"', '[2020,2,30]', '[2020]', '[2020,1,1,1]', '"x"', '5', 'None', '[10**30,1,1]', '["2020",1,1]', '""', '{}', 'date(2020,1,1)', '"2020-01-01T00:00:00"']),
    'datetime.time': (['"10:20:30"', '[10,20]', '[]', '"10:20"', '"10:20:30.000005"'], ['time(10,20,30)', 'time(0)', 'time(23,59,59,999999)'],
             ['"25:00"', '[24]', '[1,2,3,4,5,6]', 'None', '5', '"x"', '[1.5]', '[10**30]']),
    'datetime.datetime': (['"2020-02-29T10:20:30"', '[2020,2,29]', '[2020,2,29,1,2,3,4]', '"2020-02-29"'], ['datetime.datetime(2020,2,29,10,20,30)', 'datetime.datetime(1,1,1)', 'datetime.datetime(2020,1,1,0,0,0,5)'],
                 ['"2020-13-01T00:00:00"', '[2020,2]', '[2020,2,30,1]', 'None', '5', '"x"', '[10**30,1,1]', '("a",1,1)']),
    'timedelta': (['0', '1', '1.5', '-3', '86400', 'True'], ['timedelta(0)', 'timedelta(1)', 'timedelta(seconds=1.5)', 'timedelta(days=-1)', 'timedelta(days=500,seconds=3)'],
                  ['"1"', 'None', '1e30', 'float("inf")', 'float("nan")', '10**30', '[]', '[1]', 'timedelta(1)']),
    'Pattern': (['"a+"', 'b"a+"', '""', 're.compile("x")'], ['re.compile("a+")', 're.compile("")', 're.compile("(?P<n>x)")'], ['"("', '5', 'None', '"*a"', '["a"]', '"a{99999999999999999999}"', '"[z-a]"', '"(?L)a"', 'b"(?u)a"', '"(" * 500']),
    'Pattern[str]': (['"a+"', '""', '"^$"'], ['re.compile("a+")', 're.compile("[0-9]{2}")'], ['b"a+"', '"("', '5', 'None', 'MyStr("a")', '["a"]', '"(?L)a"', '"(" * 500']),
    'Pattern[bytes]': (['b"a+"', 'b""'], ['re.compile(b"a+")'], ['"a+"', 'b"("', '5', 'None']),
}
BASIC = ['int', 'float', 'str', 'bool', 'None']
STRC = ['Path', 'IPv4Address', 'IPv6Address', 'IPv4Network', 'IPv6Network', 'IPv4Interface', 'IPv6Interface', 'UUID']
DATES = ['datetime.date', 'datetime.time', 'datetime.datetime', 'timedelta']
PATS = ['Pattern', 'Pattern[str]', 'Pattern[bytes]']
OPT = {  # only with options or handlers
    'Decimal': (['"1.5"', '"7"', '3', '1.5'], ['Decimal("1.5")', 'Decimal("0")'], ['"x"', 'None', '[1]', '{}']),
    'Tag': (['"#a"', '"#"', '"#long"'], ['Tag("#a")', 'Tag("#b")'], ['"a"', '""', '5', 'None', '[]']),
    'complex': (['1j', '1', '"1+2j"', '2.5'], ['1j', '2+3j'], ['"x"', 'None', '[]']),
    'bytes': SCALARS['bytes'],
    'Opaque': (['Opaque()', '1'], ['Opaque()', 'Opaque(3)'], ['None']),
    'MyStr': (['"a"', '5'], ['MyStr("a")'], ['None', '[]']),
    'MyInt': (['1', '"5"'], ['MyInt(3)'], ['"x"', 'None']),
    'Path': SCALARS['Path'],
}
SCALARS.pop('bytes')

ODD = ['None', '0', '1', '-1', 'True', 'False', '1.5', '"1"', '"x"', '""', '"é"', 'b"1"', 'b""', '[]', '[1]', '["x"]', '()', '(1,)', '(1, 2)', '{}',
       '{"a": 1}', '{1: 2}', '{(1, 2): 3}', '{None: None}', 'set()', '{1, 2}', 'frozenset({1})', 'range(3)', 'deque([1, 2])', 'MyStr("1")', 'MyInt(1)',
       'MyList([1, 2])', 'MyDict({"a": 1})', 'OrderedDict([("a", 1)])', 'MappingProxyType({"a": 1})', 'defaultdict(int, {"a": 1})', 'UserDict({"a": 1})',
       'ChainMap({"a": 1})', 'Namespace(a=1)', 'Namespace()', 'Opaque()', 'Decimal("1")', '1j', 'Path("/x")', 'date(2020, 1, 2)', 'UUID(int=1)', 'IE.P', 'SE.S',
       '10**30', 'float("inf")', '-0.0', '"2020-01-01"', '"1.2.3.4"', '[[1]]', '{"a": {"a": 1}}', '[None]', '[{}]', 'int', 'bytearray(b"a")', '...', '{"a": [1]}',
       '"None"', '"True"', '[1, "x"]', '[(1, 2)]', '[[1, 2], [3, 4]]', '[("a", 1)]', '{"a": None}', '"ab"', '{"a": 1}.keys()', '{"a": 1}.values()',
       'Namespace(a=Namespace(a=1))', 'Namespace(get=1)', 'Namespace(keys=1, items=2)', 'UserDict()', '"\\n"', '"a\\nb"', 'timedelta(1)', 're.compile("a")', 'object',
       '" a "', '" 1.2.3.4 "', '"2020-01-01 "', '" "', 'Namespace(get=len, a=1)', '{"a": None, "b": float("inf")}', '{None: float("inf")}', '[float("inf")]', '{"$x": 1}', '{"": 1}', '(1, 2, None)', '[None, None]', '{"a": ()}', '"[]"', '"0"', '"1.0"',
       '"\\u0661"', '{0: 0}', '{False: 1}', '[[], {}]', 'IE.Q', '{"a": IE.P}', '[SE.S]', 'MyStr("")', 'MyInt(0)', 'MyList()', 'MyDict()', 'deque()', 'range(0)', 'frozenset()', 'OrderedDict()', '1e16', '-1.0', '2**63', '"e"', '"0x1"', '"1e3"', '"nan"',
       'dict', 'Namespace', 'SimpleNamespace(keys=1)', 'SimpleNamespace(items=1, keys=2, get=3)', 'ODDNT(1, [2])', 'ODDDC("a", {})', 'ODDAT', '[dict]', '{"a": SimpleNamespace(keys=1)}', 'Namespace(items=[])']
UNHASH = ['[1]', '{"a": 1}', '{1}', 'bytearray(b"a")', 'MyList([1])', 'Namespace(a=1)', '[]', '{}']


def fuzz(r, name, typed=False):
    """A random value of a scalar type: a text form that loads, or a conforming one"""
    k = r.choice
    if name in ('int', 'MyInt'):
        n = k([r.randint(-300, 300), r.randint(-2 ** 40, 2 ** 40), 2 ** r.randint(1, 80), 0, 1])
        return ('MyInt(%d)' % n if name != 'int' else str(n)) if typed else k(['%d', '"%d"']) % n
    if name == 'float':
        x = k([r.uniform(-10, 10), r.randint(-99, 99) / 8, r.uniform(0, 1) * 10 ** r.randint(-30, 30), float(r.randint(-9, 9))])
        return repr(x) if typed else k(['%r', '"%r"']) % x
    if name in ('str', 'MyStr'):
        t = ''.join(k('abcxyz ABC019_.-/\\\n\t\u00e9\u4e2d\U0001f600\0"') for _ in range(k([0, 1, 2, 3, 8, 40, 300])))
        return 'MyStr(%r)' % t if typed and name != 'str' else repr(t)
    if name == 'bool':
        return k(['True', 'False'])
    if name == 'Path':
        t = '/'.join(k(['a', 'b c', '..', 'x.y', '', '\u00e9', '.hid', '~']) for _ in range(r.randint(1, 4)))
        return ('Path(%r)' if typed else '%r') % t
    if name in ('IPv4Address', 'IPv4Interface'):
        t = '.'.join(str(k([0, 1, 9, 10, 127, 255, r.randint(0, 255)])) for _ in range(4))
        t += '/%d' % r.randint(0, 32) if name == 'IPv4Interface' else ''
        return ('%s("%s")' % (name, t)) if typed else repr(t)
    if name == 'IPv4Network':
        n = r.randint(26 if typed else 8, 32)      # not too many addresses to iterate on
        t = '%s(((%d >> %d) << %d, %d))' % (name, r.randrange(1 << 32), 32 - n, 32 - n, n)
        return t if typed else 'str(%s)' % t
    if name in ('IPv6Address', 'IPv6Interface'):
        t = 'IPv6Address(%d)' % k([r.randrange(1 << 128), r.randrange(1 << 16), 0])
        t = t if name == 'IPv6Address' else 'IPv6Interface(str(%s) + "/%d")' % (t, r.randint(0, 128))
        return t if typed else 'str(%s)' % t
    if name == 'UUID':
        t = 'UUID(int=%d)' % r.randrange(1 << 128)
        return t if typed else k(['str(%s)', 'str(%s)', '%s.hex', '%s.urn', 'str(%s).upper()']) % t
    if name == 'timedelta':
        t = 'timedelta(%d, %d, %d)' % (r.randint(-400, 4000), r.randrange(86400), k([0, 0, r.randrange(10 ** 6), 1, 999999, 500]))
        return t if typed else k(['%s.total_seconds()' % t, str(r.randint(-10 ** 6, 10 ** 6)), repr(r.randint(-10 ** 6, 10 ** 6) / 64)])
    d = [r.randint(1, 9999), r.randint(1, 12), r.randint(1, 28)]
    h = [r.randrange(24), r.randrange(60), r.randrange(60), k([0, 1, 1000, 999999, r.randrange(10 ** 6)])] if r.random() < .8 else [k([0, 0, 23]), k([0, 0, 59]), k([0, 0, 59]), k([0, 1, 5, 1000, 999999])]
    if name == 'datetime.date':
        return 'date(%d, %d, %d)' % tuple(d) if typed else k(['date(%d, %d, %d).isoformat()', '[%d, %d, %d]', '(%d, %d, %d)']) % tuple(d)
    if name == 'datetime.time':
        h = h[:r.randint(1, 4)]
        t = 'time(%s)' % ', '.join(map(str, h))
        if typed and r.random() < .15:
            return 'time(%s, tzinfo=timezone(timedelta(minutes=%d)))' % (', '.join(map(str, h)), r.randint(-800, 800))
        return t if typed else k([t + '.isoformat()', str(h), 'time(%s, tzinfo=timezone(timedelta(minutes=%d))).isoformat()' % (', '.join(map(str, h)), r.randint(-800, 800))])
    if name == 'datetime.datetime':
        x = d + h[:r.randint(0, 4)]
        t = 'datetime.datetime(%s' % ', '.join(map(str, x))
        if typed and r.random() < .15:
            return t + ', tzinfo=%s)' % k(['timezone.utc', 'timezone(timedelta(minutes=%d))' % r.randint(-800, 800)])
        return t + ')' if typed else k([t + ').isoformat()', t + ').isoformat(" ")', str(x), t + ', tzinfo=timezone.utc).isoformat()', t + ', tzinfo=timezone(timedelta(minutes=%d))).isoformat()' % r.randint(-800, 800)])
    if name in ('Pattern', 'Pattern[str]', 'Pattern[bytes]'):
        t = ''.join(k(['a', '[0-9]', 'x*', '(?:y|z)', '\\.', '\\d+', '.', '^', '$', '(q)', '\u00e9', ' ']) for _ in range(r.randint(0, 5)))
        b = name == 'Pattern[bytes]'
        t = repr(t.encode('latin1') if b else t)
        return 're.compile(%s)' % t if typed else t
    if name == 'Decimal':
        t = '"%d.%d"' % (r.randint(-999, 999), r.randint(0, 9999))
        return 'Decimal(%s)' % t if typed else t
    return None


class T:
    __slots__ = ('k', 'e', 'a', 'x', 'q')

    def __init__(self, k, e, a=(), x=None, q=False):
        self.k, self.e, self.a, self.x = k, e, list(a), x
        self.q = q or any(i.q for i in self.a)      # has quotes inside

    def __repr__(self):
        return self.e


class F:
    """A field"""
    def __init__(self, name, t, dflt=None, kind=None, mn=None, init=True, rep=True, conv=None, notreq=False, cmp=True):
        self.name, self.t, self.dflt, self.kind = name, t, dflt, kind   # kind: None val fac self
        self.mn = mn or {}
        self.init, self.rep, self.conv, self.notreq, self.cmp = init, rep, conv, notreq, cmp

    @property
    def req(self):
        return self.kind is None and not self.notreq and self.init

    def data(self, mk):
        return self.mn.get(mk, self.name) if mk else self.name


class Retry(Exception):
    """What was generated does not work"""


class C:
    def __init__(self, kind, name):
        self.kind, self.name = kind, name
        self.f = []
        self.frozen = False
        self.total = True
        self.guard = None
        self.kwonly = self.slots = False
        self.style = 's'


def scalar(name):
    return T('s', name, x=name)


class Gen:
    """
    One world.  opt (all optional): kinds, leaves, mangle, fref, union, enum,
    literal, guard, strange (initless fields, converters, factories), trip
    (only what can be dumped and loaded back), pep (deferred annotations).
    """
    def __init__(self, rng, **opt):
        self.r = rng
        self.o = dict(kinds=['nt', 'dc', 'attrs', 'td'], leaves=None, mangle=0.3, fref=0.3, union=0.2, enum=0.15, literal=0.12, guard=0.1,
                      strange=0.25, trip=False, pep=False, nclasses=(1, 4), nfields=(0, 5), any=0.05, newtype=0.2, special=0.35, extra_leaves=[], bad=0.0,
                      deep=2, inherit=0.25, strict=False, tagged=0.05, ns=0.03, extra=0.08, dflt=0.15, later=0.1, twins=0.0, defaults=0.45, dup=0.08, alike=0.06, overlap=0.15, wide=0.03, many=0.04, drop=0.04, flat=0.0, rude=0.0, loaded=0.02)
        self.o.update(opt)
        self.src = []
        self.classes = []
        self.enums = []
        self.new = []
        self.groups = []        # unions of tagged classes
        self.names = {}
        self.leaves = list(self.o['leaves'] or (BASIC[:4] * 3 + ['None']))
        self.nogen = self.inwide = False
        self.current = None
        self.build()

    # ------------------------------------------------------------ the world
    def chance(self, p):
        return self.r.random() < p

    def build(self):
        r = self.r
        if self.o['pep']:
            self.src.append('from __future__ import annotations')
        self.src.append('class IE(IntEnum):\n    P = 1\n    Q = 2\nclass SE(str, Enum):\n    S = "s"\n    a = "b"')
        for _ in range(r.randint(1, 2) if self.chance(self.o['enum'] * 4) else 0):
            self.make_enum()
        for _ in range(r.randint(0, 2) if self.chance(self.o['newtype']) else 0):
            self.make_newtype()
        for _ in range(r.randint(*self.o['nclasses'])):
            if self.chance(self.o['tagged']):
                self.make_tagged()
            elif self.chance(self.o['twins']):
                self.make_twins()
            else:
                self.make_class()
            if self.classes and self.chance(self.o['alike']):
                self.make_alike()
            if self.chance(self.o['newtype'] / 2):
                self.make_newtype()
        if self.o['pep'] and self.chance(0.5):
            # classes may be referred to before they are defined
            for x in [x for x in self.src if '.__name__ = ' in x]:
                self.src.remove(x)
            head = [x for x in self.src if not x.startswith(('class', '@', 'N')) or x.startswith('class E') or x.startswith('class IE')]
            rest = [x for x in self.src if x not in head]
            r.shuffle(rest)
            self.src = head + rest
        self.source = '\n'.join(self.src) + '\n'

    def make_enum(self, kind=None):
        r = self.r
        n = 'E%d' % len(self.enums)
        kinds = ['int', 'str', 'mixed', 'big', 'istr', 'iint', 'swap', 'anntuple', 'annint', 'alias', 'float', 'none']
        if not self.o['trip']:
            kinds += ['annempty', 'annwrong', 'list', 'tuple', 'bytes', 'anndate', 'annlist', 'annmany', 'dict']
        k = kind or r.choice(kinds)
        base, body, vals = 'Enum', [], []
        if k == 'int':
            vals = r.sample(['0', '1', '2', '3', '-1', '10'], r.randint(1, 4))
        elif k == 'float':
            vals = ['1.5', '2.0', '-1.0']
        elif k == 'str':
            vals = r.sample(['"a"', '"b"', '"x"', '"1"', '""', '"a b"'], r.randint(1, 4))
        elif k == 'mixed':
            vals = r.sample(['1', '"1"', '2.5', '"a"', '0', '"True"'], r.randint(2, 4))
        elif k == 'big':
            m = r.choice([9, 10, 11, 12, 14])
            vals = [('"v%d"' % i) if r.random() < .7 else str(i) for i in range(m)]
        elif k == 'istr':
            base, vals = 'str, Enum', ['"a"', '"b"', '"1"']
        elif k == 'iint':
            base, vals = 'IntEnum', ['1', '2', '5']
        elif k == 'swap':
            vals = ['"M1"', '"M0"', '"M3"']
        elif k == 'list':
            vals = ['[1, 2]', '[3]', '"a"']
        elif k == 'dict':
            vals = ['{"a": 1}', '"a"']
        elif k == 'tuple':
            vals = ['(1, 2)', '(3, 4)', '5']
        elif k == 'none':
            vals = r.sample(['None', '1', '"a"', '""', '0'], 4)
            if 'None' not in vals:
                vals[0] = 'None'
        elif k == 'bytes':
            vals = ['b"a"', 'b"b"']
        elif k == 'alias':
            vals = ['1', '2', '1', '2', '"x"']
        elif k == 'anntuple':
            vals = ['(1, 2)', '(3, 4)']
            body = ['z: Tuple[int, int]']
        elif k == 'annint':
            vals = ['1', '2', '3']
            body = ['z: int']
        elif k == 'anndate':
            vals = ['date(2020, 1, 2)', 'Path("/a")']
            body = ['y: Path', 'z: datetime.date']
        elif k == 'annwrong':
            # no value is of the type
            vals = r.sample(['1', '2', '0', 'b"a"', '1.5', '(1, 2)', 'True', 'None'], 3)
            body = ['z: %s' % r.choice(['str', 'str', 'List[int]', 'Tuple[int, int]', 'Path', 'float', 'bool', 'Optional[str]', 'datetime.date'])] + r.choice([[], ['y: int'], ['y: str'], ['a: float']])
        elif k == 'annempty':
            vals, body = r.choice([(['Path("")', 'Path("a")'], ['z: Path']), (['0', '1'], ['z: int']), (['""', '"a"'], ['z: str']), (['None', '1'], ['z: Optional[int]']), (['""', '0'], ['z: str', 'y: int']), (['Path(".")', '(1,)'], ['y: Path', 'z: Tuple[int, ...]']),
                                   (['()', '(1,)'], ['z: Tuple[int, ...]']), (['0.0', '1.0'], ['z: float']), (['False', 'True'], ['z: bool'])])
        elif k == 'annlist':
            vals = ['[1, 2]', '[3]']
            body = ['z: List[int]']
        elif k == 'annmany':
            vals = ['(1, 2)', '(3, "a")', '7']
            body = ['x: Tuple[int, int]', 'y: Tuple[int, str]', 'z: int']
        names = ['M%d' % i for i in range(len(vals))]
        self.src.append('class %s(%s):\n' % (n, base) + '\n'.join('    ' + b for b in body + ['%s = %s' % p for p in zip(names, vals)]))
        if self.enums and self.chance(self.o['dup']):
            self.src.append('%s.__name__ = %s.__qualname__ = %r' % (n, n, self.enums[0]['name']))
        e = dict(name=n, kind=k, vals=vals, names=names)
        self.enums.append(e)
        return e

    def make_newtype(self):
        n = 'N%d' % len(self.new)
        t = self.leaf() if self.chance(.4) else self.type(1, nofref=True, nonew=self.chance(.5))
        self.src.append('%s = NewType("%s", %s)' % (n, 'N0' if self.chance(self.o['dup']) else n, t.e))
        self.new.append(T('new', n, [t]))

    # --------------------------------------------------------------- classes
    NAMES = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'name', 'type', 'value', 'keys', 'items', 'get', 'long_name', 'factory', 'default', 'x1', 'X', 'count', 'id', 'data']
    DATA = ['a', 'b', 'c', 'A', 'B', 'the-name', 'x y', '', 'name', '1', 'ü', '@type', 'get', 'items', 'e', 'f', '$ref', 'a.b', '[0]', 'x-', ' a', 'A B', '0']

    def fieldnames(self, kind, n, used):
        r = self.r
        base = self.NAMES[:6] if n <= 4 and self.chance(.6) else self.NAMES
        pool = [x for x in base if x not in used]
        if kind == 'attrs' and self.chance(.3):
            pool = [x for x in pool] + [x for x in ('_p', '_q') if x not in used]
        if kind == 'nt':
            pool = [x for x in pool if x not in ('count', 'index')] + (['count'] if self.chance(.1) and 'count' not in used else [])
        r.shuffle(pool)
        pool = pool[:n]
        if n and self.chance(.06) and 'factory' not in used | set(pool):
            pool[0] = 'factory'     # as that of attrs
        j = 0
        while len(pool) < n:
            pool.append('z%d' % j)
            j += 1
        return pool

    def make_class(self, kind=None, fields=None, plain=False):
        r = self.r
        kind = kind or r.choice(self.o['kinds'])
        c = C(kind, 'ABCDGHJKLMOPQR'[len(self.classes)])
        self.current = c
        base = None
        if fields is None and self.chance(self.o['inherit']):
            cand = [x for x in self.classes if x.kind == kind and kind != 'nt' and not x.guard and not self.selfish(x)]
            if cand:
                base = r.choice(cand)
        n = r.randint(*self.o['nfields'])
        if self.chance(.05) or self.chance(self.o['many'] / 2):
            n = r.choice([10, 12, 15, 17, 20, 26])
        inherited = list(base.f) if base else []
        c.frozen = base.frozen if base else (kind in ('dc', 'attrs') and self.chance(.3))
        c.kwonly = kind in ('dc', 'attrs') and self.chance(.25)
        c.slots = kind == 'dc' and not base and self.chance(.1)
        c.total = not (kind == 'td' and self.chance(.35)) or fields is not None
        c.style = r.choice(['s', 'define', 'auto']) if kind == 'attrs' else ''
        if base and getattr(base, 'slots', False):
            c.slots = True
        if base and kind == 'attrs' and base.style == 'define':
            c.style = 'define'     # attrs breaks frozen classes with a dict that inherit slots
        new = fields
        if new is None:
            new = []
            for name in self.fieldnames(kind, n, {f.name for f in inherited}):
                new.append(self.make_field(c, name) if n < 10 or self.chance(.1) else F(name, self.leaf()))
        hasdflt = any(f.kind for f in inherited)
        if kind in ('nt', 'dc', 'attrs') and not c.kwonly:
            new.sort(key=lambda f: f.kind is not None)
            if hasdflt:
                for f in new:
                    if f.kind is None and f.init:
                        self.give_default(c, f)
        c.f = inherited + new
        if kind == 'nt':
            pass
        if kind in ('dc', 'attrs') and self.chance(self.o['mangle'] * 1.5) and not plain:
            self.mangle(c, new)
        if kind in ('dc', 'attrs'):
            self.distinct(c, new)
        if kind in ('dc', 'attrs') and self.chance(self.o['guard']) and c.f and not self.o['trip'] and not plain:
            f = r.choice([f for f in c.f if f.t.k == 's' and f.t.x in ('int', 'str', 'bool', 'float') and f.init and f.kind in (None, 'val')] or [None])
            if f is not None and not f.conv:
                c.guard = (f.name, r.choice(SCALARS[f.t.x][1]), r.choice(['ValueError', 'TypeError', 'ValueError']))
        self.emit(c, base, new)
        if self.classes and self.chance(self.o['dup']) and not any(f.t.q for f in c.f):
            n = r.choice(self.classes).name
            self.src.append('%s.__name__ = %s.__qualname__ = %r' % (c.name, c.name, n))
        self.classes.append(c)
        self.names[c.name] = c
        if self.chance(.06) and len(self.classes) < 12 and not self.selfish(c):
            import copy
            s = copy.copy(c)
            s.name = 'ABCDGHJKLMOPQR'[len(self.classes)]
            self.src.append('class %s(%s):\n    pass' % (s.name, c.name))
            self.classes.append(s)
            self.names[s.name] = s
        self.current = None
        return c

    def make_tagged(self):
        """Classes told apart by a literal field"""
        r = self.r
        tag = r.choice(['tag', 'type', 'a', 'name'])
        pool = ['"a"', '"b"', '"c"', '1', '2', 'True', 'None', '""', '"1"', '0', 'False'] + ([] if self.o['trip'] else ['b"a"', 'IE.P', 'SE.S'])
        r.shuffle(pool)
        group, first = [], None
        m = r.choice([2, 2, 3, 4, 6])
        other = self.fieldnames('dc', 4, {tag, 'kind'})
        second = self.chance(.2)
        for j in range(m):
            if len(self.classes) >= 12:
                break
            vs = [pool.pop() for _ in range(r.choice([1, 1, 1, 2])) if pool]
            if self.chance(self.o['overlap']) and group:
                vs.append(r.choice(first))      # overlapping
            vs = list(dict.fromkeys(vs)) or ['"z"']
            first = first or vs
            kind = r.choice(self.o['kinds'])
            c = C(kind, 'ABCDGHJKLMOPQR'[len(self.classes)])
            c.style = 's'
            t = T('lit', 'Literal[%s]' % ', '.join(vs), x=vs)
            if self.chance(.1):
                t = self.mk('union', [t, scalar('None')], spell='Optional')
            f = F(tag, t)
            if kind == 'td' and self.chance(.1) and not self.o['pep']:
                f.notreq = f.wrapnr = True
            fields = [f]
            if second:
                v = r.choice(['"x"', '"y"'])
                fields.append(F('kind', T('lit', 'Literal[%s]' % v, x=[v])))
            for n in other[:r.randint(0, 3)]:
                fields.append(self.make_field(c, n))
            if kind in ('dc', 'attrs') and self.chance(.25) and not second:
                f.kind, f.dflt = 'val', vs[0]
            x = self.make_class(kind, fields)
            group.append(x)
        if len(group) > 1:
            self.groups.append(group)

    def make_twins(self):
        """The same fields in classes of every kind"""
        import copy
        r = self.r
        if len(self.classes) > 8:
            return
        names = self.fieldnames('nt', r.randint(1, 4), set())
        kinds = [k for k in ('nt', 'dc', 'attrs', 'td') if k in self.o['kinds']]
        c = C('nt', 'x')
        proto = []
        for n in names:
            f = F(n, self.type(self.o['deep']))
            if self.chance(self.o['defaults']):
                self.give_default(c, f)
            proto.append(f)
        for k in kinds:
            fields = [copy.copy(f) for f in proto]
            if k == 'td':
                for f in fields:
                    f.notreq = f.wrapnr = f.kind is not None
                    f.kind = f.dflt = None
            else:
                for f in fields:
                    if f.kind and not self.immutable(f.t) and k != 'nt':
                        f.kind, f.dflt = 'fac', 'lambda: %s' % f.dflt
            self.make_class(k, fields, plain=True)

    def make_alike(self):
        """A class with the field names of another one, that differs in the rest"""
        import copy
        r = self.r
        if len(self.classes) > 10:
            return
        c = r.choice(self.classes)
        fields = []
        for f in c.f:
            if f.t.q or f.conv or f.kind == 'self':
                return
            f = copy.copy(f)
            f.mn = {}
            if c.kind == 'td':
                if self.chance(.4):
                    f.notreq = f.wrapnr = not f.notreq and not self.o['pep']
                    if self.o['pep']:
                        f.notreq = False
                else:
                    f.wrapnr = f.notreq and not self.o['pep']
                    f.notreq = f.wrapnr
            else:
                if self.chance(.4):
                    f.t = self.type(1)
                    f.kind = f.dflt = None
                if self.chance(.5) or f.kind is None and not f.init:
                    f.kind = f.dflt = None
                    if self.chance(.5) or not f.init:
                        self.give_default(c, f, noself=True)
            fields.append(f)
        self.make_class(c.kind, fields)

    def make_field(self, c, name):
        r, kind = self.r, c.kind
        t = self.flat() if self.chance(self.o['flat']) else self.type(self.o['deep'], incls=c)
        f = F(name, t)
        if kind == 'td':
            f.notreq = not c.total or (self.chance(.25) and not self.o['pep'])
            f.wrapnr = f.notreq and c.total
            if f.notreq and self.chance(self.o['fref'] / 3):
                f.t = T('fref', "'%s'" % c.name, x=c.name, q=True)
            return f
        if kind == 'nt' and self.chance(self.o['fref'] / 4) and not self.o['trip']:
            f.t = T('fref', "'%s'" % c.name, x=c.name, q=True)
            f.kind, f.dflt = 'val', 'None'
            return f
        if self.chance(self.o['defaults']):
            self.give_default(c, f)
        if kind in ('dc', 'attrs') and self.chance(self.o['strange'] / 2) and not self.o['strict']:
            f.init = False
            if f.kind is None:
                self.give_default(c, f)
            if f.kind == 'self':
                self.give_default(c, f, noself=True)
        if kind == 'attrs' and self.chance(self.o['strange']):
            if not self.o['trip'] and self.chance(.3):
                f.rep = False
            if self.chance(.4):
                if self.o['trip'] or self.chance(.5):
                    f.conv = 'IDENT(%s)' % t.e
                elif t.k == 's' and t.x in ('int', 'str', 'float') and f.kind is None:
                    f.conv = 'CAST(%s, %s)' % (t.e, r.choice(['str', 'float', 'bool']))
                if f.conv and t.q:
                    f.conv = None
                if f.conv and not self.o['trip'] and self.chance(.3):
                    f.conv = r.choice(['PARTIAL(%s)', 'CALLER(%s)', 'attr.Converter(%s)']) % f.conv
                if f.conv and c.style != 's':
                    f.conv = None if 'CAST' in f.conv else f.conv
        if kind == 'dc' and self.chance(self.o['strange'] / 2):
            f.rep = False
        if self.chance(self.o['strange'] / 4) and kind in ('dc', 'attrs') and not self.o['trip']:
            f.cmp = False
        return f

    def give_default(self, c, f, noself=False):
        r = self.r
        if self.o['trip'] or self.chance(.75):
            v = self.typed(f.t, 1, fresh=True)
        else:
            v = r.choice(['None', '0', '""', '5', '"d"', '()'])
        imm = self.immutable(f.t) or v in ('None', '0', '""', '5', '"d"', '()')
        if v is None:
            v, imm = 'None', True
        if c.kind == 'nt':
            f.kind, f.dflt = 'val', v
            return
        if c.kind == 'attrs' and not noself and f.init and self.chance(.15) and not self.o['trip']:
            # same type as another field, of which it is a copy
            f.kind, f.dflt = 'selfcand', None
            return
        if imm and self.chance(.8):
            f.kind, f.dflt = 'val', v
        else:
            f.kind, f.dflt = 'fac', 'lambda: %s' % v
            if v == '[]' and self.chance(.6):
                f.dflt = 'list'
            elif v == '{}' and self.chance(.6):
                f.dflt = 'dict'

    def immutable(self, t):
        if t.k in ('s', 'enum', 'lit', 'any'):
            return True
        if t.k in ('tuple', 'vtuple', 'frozenset', 'union', 'new'):
            return all(self.immutable(i) for i in t.a)
        if t.k == 'cls' and not self.o['pep']:
            return (t.x.kind == 'nt' or t.x.frozen) and all(self.immutable(f.t) for f in t.x.f)
        return False

    def mangle(self, c, new):
        r = self.r
        fs = [f for f in new if self.chance(.7)]
        keys = r.choice([['name'], ['name', 'alt'], ['alt'], ['name', 'name2']])
        for key in keys:
            how = r.choice(['plain', 'swap', 'chain', 'plain'])
            if how == 'plain':
                pool = [d for d in self.DATA if d not in {f.name for f in c.f}]
                r.shuffle(pool)
                for f, d in zip(fs, pool):
                    f.mn[key] = f.name if self.chance(.12) else d
            elif how == 'swap' and len(fs) >= 2:
                names = [f.name for f in fs]
                for f, d in zip(fs, names[1:] + names[:1]):
                    f.mn[key] = d
            elif how == 'chain' and len(fs) >= 2:
                names = [f.name for f in fs]
                for f, d in zip(fs, names[1:] + ['new-name']):
                    f.mn[key] = d

    def distinct(self, c, new):
        """No two fields may end up reading the same name"""
        for key in ('name', 'alt', 'name2'):
            names = [f.data(key) for f in c.f]
            if len(set(names)) < len(names):
                for g in new:
                    g.mn.pop(key, None)
            seen = set()
            for f in list(c.f):
                if f.data(key) in seen:
                    c.f.remove(f)
                    new.remove(f)
                seen.add(f.data(key))

    def selfish(self, c):
        """Can its subclasses not be loaded by themselves? Names in the fields refer to it"""
        return self.o['trip'] and any(f.t.q for f in c.f)

    def ann(self, t):
        return t.e

    def emit(self, c, base, new):
        out = []
        k = c.kind
        for f in new:
            if f.kind == 'selfcand':
                cand = [g for g in c.f[:c.f.index(f)] if g.init and not g.conv and g.kind != 'self']
                if cand:
                    g = self.r.choice(cand)
                    f.kind, f.dflt, f.t, f.conv = 'self', g.name, g.t, None
                else:
                    f.kind, f.dflt = 'val', 'None'
        if k == 'nt':
            out.append('class %s(NamedTuple):' % c.name)
            for f in new:
                out.append('    %s: %s%s' % (f.name, f.t.e, '' if f.kind is None else ' = ' + f.dflt))
        elif k == 'td':
            out.append('class %s(%s%s):' % (c.name, base.name if base else 'TypedDict', '' if c.total else ', total=False'))
            for f in new:
                out.append('    %s: %s' % (f.name, 'NotRequired[%s]' % f.t.e if getattr(f, 'wrapnr', False) else f.t.e))
        elif k == 'dc':
            args = []
            if c.frozen:
                args.append('frozen=True')
            if c.kwonly:
                args.append('kw_only=True')
            if c.slots:
                args.append('slots=True')
            out.append('@dataclass%s' % ('(%s)' % ', '.join(args) if args else ''))
            out.append('class %s%s:' % (c.name, '(%s)' % base.name if base else ''))
            if c.guard:
                out.append('    _guard_ = (%r, %s, %s)' % c.guard)
                out.append('    __post_init__ = check_guard')
            if self.chance(.1):
                out.append('    CV: ClassVar[int] = 5')
            for f in new:
                a = []
                if f.kind == 'val':
                    a.append('default=' + f.dflt)
                if f.kind == 'fac':
                    a.append('default_factory=' + f.dflt)
                if f.mn:
                    a.append('metadata=%r' % (f.mn,))
                if not f.init:
                    a.append('init=False')
                if not f.rep:
                    a.append('repr=False')
                if not f.cmp:
                    a.append('compare=False')
                if len(a) == 1 and f.kind == 'val':
                    out.append('    %s: %s = %s' % (f.name, f.t.e, f.dflt))
                else:
                    out.append('    %s: %s%s' % (f.name, f.t.e, ' = field(%s)' % ', '.join(a) if a else ''))
        else:
            args = []
            if c.frozen:
                args.append('frozen=True')
            if c.kwonly:
                args.append('kw_only=True')
            style = c.style
            if style == 's':
                out.append('@attr.s%s' % ('(%s)' % ', '.join(args) if args else ''))
            elif style == 'auto':
                out.append('@attr.s(%s)' % ', '.join(['auto_attribs=True'] + args))
            else:
                out.append('@attr.define%s' % ('(%s)' % ', '.join(args) if args else ''))
            out.append('class %s%s:' % (c.name, '(%s)' % base.name if base else ''))
            if c.guard:
                out.append('    _guard_ = (%r, %s, %s)' % c.guard)
                out.append('    __attrs_post_init__ = check_guard')
            for f in new:
                a = []
                if style == 's':
                    a.append('type=' + f.t.e)
                if f.kind == 'val':
                    a.append('default=' + f.dflt)
                if f.kind == 'fac':
                    a.append('factory=' + f.dflt)
                if f.kind == 'self':
                    a.append('default=Factory(FROM(%r), takes_self=True)' % f.dflt)
                if f.mn:
                    a.append('metadata=%r' % (f.mn,))
                if not f.init:
                    a.append('init=False')
                if not f.rep:
                    a.append('repr=False')
                if not f.cmp:
                    a.append('eq=False')
                if f.conv:
                    a.append('converter=' + f.conv)
                if style == 's':
                    out.append('    %s = attr.ib(%s)' % (f.name, ', '.join(a)))
                else:
                    out.append('    %s: %s%s' % (f.name, f.t.e, ' = attr.ib(%s)' % ', '.join(a) if a else ''))
        if out[-1].startswith('class') or out[-1].startswith('@'):
            out.append('    pass')
        self.src.append('\n'.join(out))

    # ----------------------------------------------------------------- types
    def leaf(self, hashable=False, key=False):
        r, o = self.r, self.o
        x = r.random()
        if x < o['special']:
            pool = STRC + DATES + PATS + o['extra_leaves'] * 3
            if self.o['trip'] and key:
                pool = [p for p in pool if p not in DATES and p not in PATS]
            return scalar(r.choice(pool))
        x = r.random()
        if x < o['enum'] and self.enums:
            e = r.choice(self.enums)
            if not (key and (self.o['trip'] or hashable) and e['kind'] in ('list', 'dict', 'annlist', 'tuple', 'anntuple', 'annmany', 'annempty')):
                return T('enum', e['name'], x=e)
        if x < o['enum'] + o['literal']:
            return self.literal()
        if self.chance(o['any']) and not hashable and not key:
            return T('any', 'Any')
        if self.chance(o['bad']):
            return T('s', r.choice(['Opaque', 'Decimal', 'complex']), x='Opaque')
        return scalar(r.choice(self.leaves))

    def literal(self):
        r = self.r
        pool = ['1', '2', '0', '"a"', '"b"', '""', '"1"', 'True', 'False', 'None']
        if not self.o['trip']:
            pool += ['b"a"', 'IE.P', 'SE.S', '-1']
        if self.chance(self.o['many']):
            pool += [str(i) for i in range(3, 20)] + ['"l%d"' % i for i in range(20)]
            vs = r.sample(pool, r.choice([9, 10, 11, 12, 30]))
        else:
            vs = r.sample(pool, r.choice([1, 1, 2, 3, 5]))
        return T('lit', 'Literal[%s]' % ', '.join(vs), x=vs)

    def hashable(self, t):
        if t.k in ('s', 'lit'):
            return True
        if t.k == 'enum':
            return True
        if t.k in ('vtuple', 'tuple', 'frozenset', 'union', 'new'):
            return all(self.hashable(i) for i in t.a)
        if t.k == 'cls' and not self.o['pep']:
            return (t.x.kind == 'nt' or t.x.frozen) and all(self.hashable(f.t) for f in t.x.f)
        return False

    def type(self, d, hashable=False, incls=None, nofref=False, nonew=False, key=False, nounion=False):
        r, o = self.r, self.o
        if d <= 0 or self.chance(.22):
            if self.classes and self.chance(.4) and not key:
                t = self.clsref(hashable)
                if t:
                    return t
            return self.leaf(hashable, key)
        kw = dict(incls=incls, nofref=nofref, nonew=nonew)
        x = r.random()
        if incls is not None and not nofref and not hashable and not key and self.chance(o['fref']):
            return self.frefpos(incls, d)
        if self.new and not nonew and self.chance(.12):
            t = r.choice(self.new)
            if not (hashable or key) or self.hashable(t):
                if not key or all(i.k in ('s', 'lit') for i in t.a):
                    return t
        if key:
            return self.leaf(True, True)
        u = o['union']
        if x < u and not nounion:
            return self.union(d - 1, hashable, **kw)
        x = (x - u) / (1 - u)
        if hashable:
            if x < .25:
                return self.mk('vtuple', [self.type(d - 1, True, **kw)])
            if x < .5:
                return self.mk('tuple', [self.type(d - 1, True, **kw) for _ in range(r.choice([0, 1, 2, 2, 3]) if not self.chance(o['many']) else 11)])
            if x < .65:
                return self.mk('frozenset', [self.type(d - 1, True, **kw)])
            return self.leaf(True)
        if x < .22:
            return self.mk('list', [self.type(d - 1, **kw)])
        if x < .32:
            return self.mk('set', [self.type(d - 1, True, **kw)]) if self.chance(.93) or o['trip'] else self.mk('set', [self.type(d - 1, **kw)])
        if x < .38:
            return self.mk('frozenset', [self.type(d - 1, True, **kw)])
        if x < .48:
            return self.mk('vtuple', [self.type(d - 1, **kw)])
        if x < .62:
            if self.chance(o['many']):
                return self.mk('tuple', [self.type(0, **kw) for _ in range(r.choice([9, 10, 11, 12, 17]))])
            return self.mk('tuple', [self.type(d - 1, **kw) for _ in range(r.choice([0, 1, 2, 2, 3, 3, 5]))])
        if x < .8:
            k = self.type(1, True, key=True, **kw) if self.chance(.9) or o['trip'] else self.type(1, **kw)
            return self.mk('dict', [k, self.type(d - 1, **kw)])
        if self.classes:
            t = self.clsref(False)
            if t:
                return t
        return self.leaf()

    def clsref(self, hashable):
        c = [c for c in self.classes if not hashable or ((c.kind == 'nt' or c.frozen) and all(self.hashable(f.t) for f in c.f))]
        if not c:
            return None
        c = self.r.choice(c)
        if self.o['pep'] and self.chance(.3):
            return T('cls', '"%s"' % c.name, x=c, q=True) if False else T('cls', c.name, x=c)
        return T('cls', c.name, x=c)

    def frefpos(self, c, d):
        """A position that refers to the class being defined by name"""
        r = self.r
        name = c.name
        if self.chance(self.o['later']) and not self.o['trip']:
            name = r.choice('ABCDGH') if self.chance(.7) else r.choice([name + '_', '_' + name, 'w.' + name, name.lower(), name + name])
        f = T('fref', "'%s'" % name, x=name, q=True)
        x = r.random()
        if x < .35:
            return self.mk('union', [f, scalar('None')], spell='Optional')
        if x < .55:
            return self.mk('list', [f], spell='List')
        if x < .65:
            return self.mk('dict', [scalar('str'), f], spell='Dict')
        if x < .75:
            return self.mk('vtuple', [f], spell='Tuple')
        if x < .85:
            return self.mk('union', [f, self.leaf()], spell='Union')
        if x < .93:
            return self.mk('list', [self.mk('union', [f, scalar('None')], spell='Optional')], spell='List')
        return self.mk('dict', [scalar('str'), self.mk('list', [f], spell='List')], spell='Dict')

    def flat(self):
        """A container of basic values"""
        r = self.r
        b = scalar(r.choice(BASIC[:4]))
        k = r.choice(['list', 'set', 'frozenset', 'vtuple', 'tuple', 'dict', 'list', 'vtuple'])
        return self.mk(k, [scalar('str'), b] if k == 'dict' else [b] * r.randint(1, 3) if k == 'tuple' else [b])

    def mk(self, k, a, spell=None):
        r = self.r
        es = ', '.join(i.e for i in a)
        q = any(i.q for i in a)
        py = not q and spell is None and self.chance(.4)
        if k in ('list', 'set', 'dict'):
            n = {'list': 'List', 'set': 'Set', 'dict': 'Dict'}[k]
            return T(k, '%s[%s]' % (k if py else n, es), a)
        if k == 'frozenset':
            return T(k, '%s[%s]' % ('frozenset' if py else 'FrozenSet', es), a)
        if k == 'vtuple':
            return T(k, '%s[%s, ...]' % ('tuple' if py else 'Tuple', es), a)
        if k == 'tuple':
            return T(k, '%s[%s]' % ('tuple' if py else 'Tuple', es or '()'), a)
        if k == 'union':
            if spell == 'Optional' or (spell is None and len(a) == 2 and a[1].e == 'None' and self.chance(.6)):
                return T(k, 'Optional[%s]' % a[0].e, a)
            if py and any(i.k in ('list', 'dict', 'cls') or i.e in ('int', 'str', 'bool', 'float', 'Path') for i in a[:1]):
                return T(k, '(%s)' % ' | '.join(i.e for i in a), a)
            return T(k, 'Union[%s]' % es, a)
        raise ValueError(k)

    def union(self, d, hashable=False, **kw):
        r = self.r
        if self.o['trip']:
            x = r.random()
            if x < .6:
                t = self.type(d, hashable, nounion=True, **kw)
                return self.mk('union', [t, scalar('None')]) if not self.noneish(t) else t
            if x < .8 or not self.classes:
                return self.mk('union', [scalar(b) for b in r.sample(['int', 'str', 'float', 'bool', 'None'], r.randint(2, 4))])
            if hashable:
                return scalar('str')
            c = r.choice(self.classes)
            other = r.choice([[scalar('int')], [scalar('str'), scalar('None')], [self.mk('list', [scalar('int')])]])
            return self.mk('union', [T('cls', c.name, x=c)] + other)
        n = r.choice([2, 2, 2, 3, 3, 4, 5, 7]) if not self.chance(self.o['many'] * 1.5) else r.choice([9, 10, 11, 17])
        a = []
        if self.groups and not hashable and self.chance(.6):
            group = r.choice(self.groups)
            a = [T('cls', x.name, x=x) for x in group]
            r.shuffle(a)
            n = r.choice([0, 0, 0, 1, 2])
        for _ in range(n):
            if n > 8:
                a.append(r.choice([self.type(1, hashable, **kw), self.mk('tuple', [scalar(r.choice(['int', 'str', 'bool', 'float'])) for _ in range(r.randint(1, 4))]), self.leaf(hashable)]))
            elif self.chance(.3):
                a.append(scalar(r.choice(BASIC)))
            else:
                a.append(self.type(d, hashable, **kw))
        if self.chance(.3):
            a.append(scalar('None'))
        seen, b = set(), []
        for t in a:
            if t.e not in seen:
                seen.add(t.e)
                b.append(t)
        if len(b) == 1:
            return b[0]
        return self.mk('union', b)

    def noneish(self, t):
        if t.k == 'enum':
            return t.x['kind'] == 'none'
        if t.k == 'lit':
            return 'None' in t.x
        if t.k == 'new':
            return self.noneish(t.a[0])
        return t.e == 'None' or t.k in ('any', 'union')

    # ---------------------------------------------------------------- values
    def odd(self):
        if self.chance(self.o['rude']):
            return self.r.choice(['Rude()', 'Rude()', '[Rude()]', '(Rude(), Rude())', '{"a": Rude()}', '{0: Rude()}', 'Namespace(a=Rude())'])
        return self.r.choice(ODD)

    def data(self, t, d=3, q=1.0, mk='name', nan=False):
        """Something to load into t; q: how likely each part is right"""
        r = self.r
        if not self.chance(q):
            if t.k == 's' and self.chance(.7):
                tab = SCALARS.get(t.x) or OPT[t.x]
                v = r.choice(tab[2])
                return v
            if t.k == 'lit' and self.chance(.6):
                # what only looks like one of them
                v = r.choice(t.x)
                return r.choice(['str(%s)', 'MyStr(str(%s))', '[%s]', '(%s,)', '{%s: 1}', 'str(%s) + " "', '" " + str(%s)', 'str(%s).upper()', 'str(%s).lower()', 'str(%s).encode()', 'repr(%s)', 'str(%s)[:-1]', 'str(%s)[:1]', 'str(%s) * 2', 'Opaque(%s)', 'Namespace(a=%s)']) % v
            x = r.random()
            if x < .15:
                u = self.type(1)
                return self.data(u, 1, 1.0, mk)
            return self.odd()
        kw = dict(q=q, mk=mk)
        k = t.k
        if k in ('union', 'any', 'enum') and not self.nogen:
            # iterators are consumed by the first attempt
            self.nogen = True
            try:
                return self.data(t, d, 1.0 if q == 1.0 else q, mk)
            finally:
                self.nogen = False
        if k == 's':
            tab = SCALARS.get(t.x) or OPT[t.x]
            if self.chance(.3):
                v = fuzz(r, t.x, t.x in BASIC and self.chance(.6) or self.chance(.1))
                if v:
                    return v
            return r.choice(tab[0]) if self.chance(.4) else r.choice(tab[1]) if t.x in BASIC or self.chance(.1) else r.choice(tab[0])
        if k == 'any':
            return self.odd()
        if k == 'lit':
            return r.choice(t.x)
        if k == 'enum':
            e = t.x
            if self.chance(.1):
                return '%s.%s' % (e['name'], r.choice(e['names']))
            if self.chance(.08):
                return repr(r.choice(e['names']))
            v = r.choice(e['vals'])
            if self.chance(.08):
                return 'str(%s)' % v
            if v.startswith('(') and self.chance(.6):
                v = '[' + v[1:-1] + ']'
            if v.startswith('Path('):
                v = v[5:-1] if v != 'Path(".")' or self.chance(.5) else '""'
            if v.startswith('date('):
                v = '"2020-01-02"'
            return v
        if k == 'new':
            return self.data(t.a[0], d, **kw)
        if k == 'fref':
            c = self.names.get(t.x)
            if c is None or d <= 0:
                return '{}' if c is None else self.obj(c, 0, **kw)
            return self.obj(c, d - 1, **kw)
        if k == 'cls':
            return self.obj(t.x, d - 1, **kw)
        if k == 'union':
            a = t.a
            if d <= 0:
                flat = [i for i in a if i.k in ('s', 'lit')]
                a = flat or a
            return self.data(r.choice(a), d, **kw)
        n = r.choice([0, 1, 2, 2, 3, 4]) if d > 0 else 0
        if k in ('list', 'set', 'frozenset', 'vtuple'):
            if not self.inwide and self.chance(self.o['wide']) and (k in ('list', 'vtuple') or t.a[0].k == 's'):
                return self.wide(self.longlist, t.a[0], q, d, mk, k)
            xs = [self.data(t.a[0], d - 1, **kw) for _ in range(n)]
            return self.seq(xs)
        if k == 'tuple':
            m = len(t.a)
            xs = [self.data(i, d - 1, **kw) for i in t.a]
            if not self.chance(q):
                x = r.random()
                if x < .5 and xs:
                    xs.pop()
                else:
                    xs += [self.odd() for _ in range(r.randint(1, 2))]
            elif self.chance(.09):
                xs += [r.choice([self.odd(), 'None'])] * r.choice([1, 1, 2])
            return self.seq(xs, sized=True)
        if k == 'dict':
            if not self.inwide and self.chance(self.o['wide']) and t.a[0].x in ('str', 'int'):
                return self.wide(self.longdict, t, q, d, mk)
            items = ['%s: %s' % (self.data(t.a[0], 1, **kw), self.data(t.a[1], d - 1, **kw)) for _ in range(n)]
            return self.mapping('{%s}' % ', '.join(items))
        raise ValueError(k)

    def wide(self, f, *a):
        self.inwide = True
        try:
            return f(*a)
        finally:
            self.inwide = False

    def longdict(self, t, q, d, mk):
        r = self.r
        n = r.choice([9, 10, 11, 33, 65])
        f = {'str': 'str(i)', 'int': 'i'}[t.a[0].x]
        v = self.data(t.a[1], d - 1, 1.0, mk)
        v = '[]' if 'GEN' in v else v
        items = ['**{%s: %s for i in range(%d)}' % (f, v, n)]
        if self.chance(.6):
            items.append('%s: %s' % (self.data(t.a[0], 1, .5, mk), self.data(t.a[1], 1, .4, mk)))
            if self.chance(.5):
                items.append('**{%s: %s for i in range(%d, %d)}' % (f, v, n, n + 7))
        return '{%s}' % ', '.join(items)

    def longlist(self, t, q, d=1, mk='name', kind='list'):
        """Many elements; the bad one, if any, anywhere among them"""
        r = self.r
        n = r.choice([9, 10, 11, 30, 33, 64, 65, 100, 101, 128, 129, 255, 256, 257, 300, 513, 1025])
        if t.k == 's':
            if kind in ('set', 'frozenset') or t.x in ('int', 'str') and self.chance(.3):
                n = min(n, 65)
                v, bad = 'list(map(%s, range(%d)))' % ({'int': 'int', 'float': 'float'}.get(t.x, 'str'), n), self.data(t, 1, 0.4)
                j = r.choice([0, n - 1, r.randrange(n)])
                return v if self.chance(.5) else '(lambda v: v[:%d]+[%s]+v[%d:])(%s)' % (j, bad, j, v)
        else:
            n = min(n, 1025 if t.k == 'cls' and len(t.x.f) < 3 or t.k in ('union', 'enum', 'lit') else 257)
        v, w = self.data(t, d - 1, 1.0, mk), self.data(t, d - 1, 1.0, mk)
        if 'GEN' in v + w:
            v = w = '[]'
        if self.chance(.4):
            return '[%s]*%d' % (v, n)
        j = r.choice([0, 1, n // 2, n - 1, n - 2, r.randrange(n)])
        if self.chance(.3):
            i = r.randrange(j + 1)
            return '[%s]*%d+[%s]+[%s]*%d+[%s]+[%s]*%d' % (v, i, self.data(t, 1, 0.3, mk), w, j - i, self.data(t, 1, 0.3, mk), w, n - j - 1)
        return '[%s]*%d+[%s]+[%s]*%d' % (v, j, self.data(t, 1, 0.4, mk), w, n - j - 1)

    def seq(self, xs, sized=False):
        r = self.r
        s = ', '.join(xs)
        x = r.random()
        if x < .62:
            return '[%s]' % s
        if x < .77:
            return '(%s)' % (s + ',' if xs else s)
        if x < .8:
            return 'deque([%s])' % s
        if x < .83:
            return 'MyList([%s])' % s
        if x < .88 and not self.nogen:
            return 'GEN([%s])' % s
        if x < .93:
            return 'dict(enumerate([%s])).values()' % s
        if x < .95 and not any(i in s for i in '[{'):
            return 'dict.fromkeys([%s]).keys()' % s
        if x < .97 and not any(i in s for i in '[{'):
            return 'set([%s])' % s
        if x < .98 and not any(i in s for i in '[{'):
            return 'frozenset([%s])' % s
        return '[%s]' % s

    def mapping(self, e, names=None):
        r = self.r
        if self.chance(self.o['ns']):
            return 'Namespace(**{str(k): v for k, v in %s.items()})' % e
        x = r.random()
        if x < .8:
            return e
        if x < .84:
            return 'OrderedDict(%s)' % e
        if x < .88:
            return 'MappingProxyType(%s)' % e
        if x < .91:
            return 'MyDict(%s)' % e
        if x < .93:
            return 'UserDict(%s)' % e
        if x < .95:
            return 'ChainMap(%s)' % e
        return 'defaultdict(int, %s)' % e

    def obj(self, c, d, q=1.0, mk='name'):
        r = self.r
        if self.chance(self.o['loaded']) and not self.o['trip']:
            v = self.inst(c, d)
            if v is not None:
                return v
        key = mk if c.kind in ('dc', 'attrs') else ''
        items = []
        for f in c.f:
            if not f.init:
                if not self.chance(.15):
                    continue
            p = .97 if f.req and q < 1 else 1 if f.req else .55
            if d <= 0 and not f.req:
                p = .1
            if self.chance(p):
                name = f.data(key)
                if not self.chance(q) and self.chance(.3):
                    name = r.choice([f.name, name.upper(), name + 'x', r.choice(self.DATA)])
                items.append((repr(name), self.data(f.t, d, q, mk)))
        if items and (self.chance(self.o['drop'] if q == 1 else .1) or len(items) > 9 and self.chance(.3)):
            items.pop(r.randrange(len(items)))
        if self.chance(self.o['extra'] if q == 1 else .2):
            for _ in range(r.choice([1, 1, 2])):
                items.append((r.choice(['"extra"', '"a"', '"name"', '1', 'None', '(1, 2)', 'b"a"', '""', '"CV"', 'repr(1)'] + [repr(f.name) for f in c.f]), 'None' if self.chance(.3) else self.odd()))
        r.shuffle(items) if self.chance(.3) else None
        return self.mapping('{%s}' % ', '.join('%s: %s' % i for i in items))

    def typed(self, t, d=3, fresh=False):
        """An expression for a value that conforms to t"""
        r = self.r
        k = t.k
        if k == 's':
            tab = SCALARS.get(t.x) or OPT[t.x]
            return (fuzz(r, t.x, True) if self.chance(.3) else None) or r.choice(tab[1])
        if k == 'any':
            return r.choice(['1', '"x"', 'None', '[1, "a"]', '{"a": 1}', '1.5', 'True', '[]'])
        if k == 'lit':
            return r.choice(t.x)
        if k == 'enum':
            return '%s.%s' % (t.x['name'], r.choice(t.x['names']))
        if k == 'new':
            return self.typed(t.a[0], d)
        if k == 'fref':
            c = self.names.get(t.x)
            return self.inst(c, d - 1) if c else None
        if k == 'cls':
            return self.inst(t.x, d - 1)
        if k == 'union':
            a = t.a
            if d <= 0:
                a = [i for i in a if i.k in ('s', 'lit', 'enum')] or a
            if any(i.q for i in a) and fresh:
                a = [i for i in a if not i.q] or a
            for _ in range(4):
                v = self.typed(r.choice(a), d)
                if v is not None:
                    return v
            return None
        n = r.choice([0, 1, 2, 2, 3]) if d > 0 else 0
        if k in ('list', 'set', 'frozenset', 'vtuple'):
            m = 0
            if not self.inwide and n and self.chance(self.o['wide']):
                self.inwide, m = True, r.choice([5, 8, 12, 20])
            xs = [self.typed(t.a[0], d - 1, fresh) for _ in range(n)]
            xs = [x for x in xs if x is not None]
            if m:
                self.inwide = False
                xs += [r.choice(xs) if self.chance(.5) else self.typed(t.a[0], 0, fresh) for _ in range(m if xs else 0)]
                xs = [x for x in xs if x is not None]
            s = ', '.join(xs)
            return {'list': '[%s]', 'set': 'set([%s])', 'frozenset': 'frozenset([%s])', 'vtuple': 'tuple([%s])'}[k] % s
        if k == 'tuple':
            xs = [self.typed(i, d - 1, fresh) for i in t.a]
            return None if None in xs else 'tuple([%s])' % ', '.join(xs)
        if k == 'dict':
            items = [(self.typed(t.a[0], 1, fresh), self.typed(t.a[1], d - 1, fresh)) for _ in range(n)]
            return '{%s}' % ', '.join('%s: %s' % i for i in items if None not in i)
        raise ValueError(k)

    def inst(self, c, d):
        items = []
        for f in c.f:
            if not f.init:
                continue
            p = 1 if f.req else .6
            if d <= 0 and not f.req:
                p = 0.05
            if self.chance(p):
                if f.kind == 'val' and self.chance(self.o['dflt']):
                    v = f.dflt
                else:
                    v = self.typed(f.t, max(d, 0) if f.t.k not in ('list', 'dict', 'vtuple', 'union') else d)
                if v is None:
                    if f.req:
                        return None
                    continue
                items.append((f.name, v))
        if c.kind == 'td':
            return '{%s}' % ', '.join('%r: %s' % i for i in items)
        strip = c.kind == 'attrs'
        return '%s(%s)' % (c.name, ', '.join('%s=%s' % (n.lstrip('_') if strip else n, v) for n, v in items))
