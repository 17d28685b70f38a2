"""
Description of Python values, types and classes as the tables that the
specification works on (spec/PyData.tla, spec/Load.tla).

Nothing here uses typedload: types are described with the typing module,
classes with the introspection of dataclasses, attrs, typing and enum.
"""
import argparse, collections, collections.abc, functools, itertools, dataclasses, datetime, enum, inspect, re, types, typing
import attr

from . import prelude

SCALARS = (str, bytes, int, float, bool, type(None), complex)


def defines(c, name):
    return any(name in vars(b) for b in c.__mro__)


NAMED = {}      # classes of the current world, by name


def cname(c):
    m = getattr(c, '__module__', '')
    q = getattr(c, '__qualname__', repr(c))
    if m == 'w' and isinstance(c, type):
        # several may have the same name
        l = NAMED.setdefault(q, [])
        n = next((j for j, x in enumerate(l) if x is c), None)
        if n is None:
            n = len(l)
            l.append(c)
        return 'w.%s%s' % (q, '#%d' % n if n else '')
    if m in ('builtins', ''):
        return q
    if m in ('pathlib', 'pathlib._local'):
        m = 'pathlib'
    return m + '.' + q


def is_nt(c):
    return isinstance(c, type) and issubclass(c, tuple) and hasattr(c, '_fields') and bool(getattr(c, '__annotations__', None) or c._fields == ())


def class_kind(c):
    if not isinstance(c, type):
        return None
    if typing.is_typeddict(c):
        return 'td'
    if issubclass(c, tuple) and hasattr(c, '_fields'):
        return 'nt'
    if dataclasses.is_dataclass(c):
        return 'dc'
    if attr.has(c):
        return 'attrs'
    return None


BARE = (typing.List, typing.Set, typing.FrozenSet, typing.Dict, typing.Tuple)


class World:
    """Tables of one world, filled on demand."""

    def __init__(self, module):
        self.module = module
        self.N = []             # nodes
        self.obj = []           # the first Python object seen for a node
        self.inp = set()        # nodes that need facts
        self.memo = {}
        self.canon = {}
        self.T = []
        self.tkey = {}
        self.tobj = []
        self.C = []
        self.ckey = {}
        self.E = []
        self.ekey = {}
        self.leaves = []        # functions
        self.leafkey = {}
        self.keep = []
        self.ids, self.held, self.deep = {}, [], 0      # of the value that is being described
        self.classobjs = []
        self.unresolved = False     # a class refers to a name that does not exist

    # ---------------------------------------------------------------- nodes
    def _new(self, key, v, **kw):
        n = dict(k='', t='', s='', e=0, h=False, it=False, ln=False, i=[], d=[], c=0, x=[], dk='', du=0, dl=0, ds=0)
        n.update(kw)
        self.N.append(n)
        self.obj.append(v)
        self.keep.append(v)
        self.memo[key] = len(self.N)
        return len(self.N)

    def atom(self, v):
        c = type(v)
        idkey = False
        if isinstance(v, re.Pattern):
            key = ('re', type(v.pattern), v.pattern, v.flags)
        elif isinstance(v, enum.Enum):
            key = ('enum', id(v))
            idkey = True
        elif isinstance(v, (type, types.FunctionType, types.ModuleType)):
            key = ('id', id(v))
            idkey = True
        else:
            try:
                r = repr(v)
            except Exception:
                r = ' at 0x%d' % id(v)
            if ' at 0x' in r:
                key = ('id', id(v))
                idkey = True
            else:
                key = ('atom', c, r)
        if key in self.memo:
            return self.memo[key]
        try:
            h = True
            hash(v)
        except Exception:
            h = False
        n = self._new(key, v, k='a', t=cname(c), h=h)
        nd = self.N[n - 1]
        # class of equal values
        e = n
        if h:
            try:
                if v == v:
                    e = self.canon.setdefault(v, n)
            except Exception:
                pass
        if isinstance(v, bytearray):
            e = self.N[self.node(bytes(v)) - 1]['e']
        nd['e'] = e
        nd['s'] = pathstr(v)
        nd['ln'] = defines(c, '__len__')
        if isinstance(v, (str, bytes)):
            nd['it'] = True
        elif defines(c, '__iter__'):
            nd['it'] = True
            nd['i'] = [self.node(x) for x in itertools.islice(iter(v), 64)]
        # dump
        if isinstance(v, enum.Enum):
            nd['dk'] = 'enum'
            nd['du'] = self.node(v.value)
        elif isinstance(v, (datetime.date, datetime.time)):
            nd['dk'] = 'date'
            nd['du'] = self.node(v.isoformat())
            nd['dl'] = self.node(datelist(v)) if getattr(v, 'tzinfo', None) is None else -1
        elif isinstance(v, datetime.timedelta):
            nd['dk'] = 'delta'
            nd['du'] = self.node(v.total_seconds())
        elif isinstance(v, re.Pattern):
            nd['dk'] = 'pat'
            nd['du'] = self.node(v.pattern)
        elif c.__module__ not in ('builtins',) and not isinstance(v, (type, types.FunctionType)):
            try:
                nd['ds'] = self.node(str(v))
            except Exception:
                pass
        return n

    def chars(self, n):
        """Fills the elements of texts (only inputs need them)."""
        v = self.obj[n - 1]
        if isinstance(v, (str, bytes)) and not self.N[n - 1]['i'] and len(v):
            self.N[n - 1]['i'] = [n if type(v) is str and len(v) == 1 else self.node(x, True) for x in v]

    def node(self, v, inp=False):
        # the same object comes up many times in long lists
        i = (id(v), inp)
        if i in self.ids:
            return self.ids[i]
        self.deep += 1
        try:
            n = self._node(v, inp)
        finally:
            self.deep -= 1
            if not self.deep:
                self.ids.clear()
        if self.deep and not isinstance(v, types.GeneratorType):
            self.held.append(v)
            self.ids[i] = n
        else:
            self.held.clear()
        if inp and n not in self.inp:
            self.inp.add(n)
            if self.N[n - 1]['k'] == 'a':
                self.chars(n)
            else:
                nd = self.N[n - 1]
                if not nd['s']:
                    try:
                        s = str(v)
                        if len(s) < 160 and '\n' not in s and ' at 0x' not in s:
                            nd['s'] = s
                    except Exception:
                        pass
        return n

    def _node(self, v, inp):
        c = type(v)
        if c in SCALARS or isinstance(v, enum.Enum):
            return self.atom(v)
        ck = class_kind(c)
        if ck in ('nt', 'dc', 'attrs'):
            cid = self.cls(c)
            names = self.C[cid - 1]['names']
            kids = []
            for f in names:
                try:
                    kids.append(self.node(getattr(v, f), inp))
                except AttributeError:
                    kids.append(0)
            return self._compound('inst', c, kids, [], v, cid, ck == 'nt', ck == 'nt')
        if isinstance(v, dict):
            return self._compound('dict', c, [], [[self.node(a, inp), self.node(b, inp)] for a, b in v.items()], v, 0, True, True)
        if isinstance(v, list):
            return self._compound('list', c, [self.node(a, inp) for a in v], [], v, 0, True, True)
        if isinstance(v, tuple):
            return self._compound('tuple', c, [self.node(a, inp) for a in v], [], v, 0, True, True)
        if isinstance(v, (set, frozenset)):
            return self._compound('frozenset' if isinstance(v, frozenset) else 'set', c, [self.node(a, inp) for a in v], [], v, 0, True, True)
        if isinstance(v, argparse.Namespace):
            return self._compound('ns', c, [], [[self.node(a, inp), self.node(b, inp)] for a, b in vars(v).items()], v, 0, False, False)
        if isinstance(v, collections.abc.Mapping):
            return self._compound('map', c, [], [[self.node(a, inp), self.node(v[a], inp)] for a in v], v, 0, True, True)
        if isinstance(v, range) and not -1 < v.stop - v.start < 4096:
            return self.atom(v)
        if isinstance(v, (range, collections.deque, collections.abc.KeysView, collections.abc.ValuesView, collections.abc.ItemsView)):
            return self._compound('seq', c, [self.node(a, inp) for a in v], [], v, 0, True, True)
        if isinstance(v, types.GeneratorType) and id(v) in prelude.GENERATORS:
            return self._compound('gen', c, [self.node(a, inp) for a in prelude.GENERATORS[id(v)][1]], [], v, 0, True, False)
        return self.atom(v)

    def _compound(self, k, c, kids, pairs, v, cid, it, ln):
        key = (k, c, tuple(kids), tuple(map(tuple, pairs)))
        if key in self.memo:
            return self.memo[key]
        h = False
        try:
            hash(v)
            h = True
        except Exception:
            pass
        return self._new(key, v, k=k, t=cname(c), i=kids, d=pairs, c=cid, it=it, ln=ln, h=h)

    # ---------------------------------------------------------------- types
    def leaf(self, key, f):
        if key not in self.leafkey:
            self.leaves.append(f)
            self.leafkey[key] = len(self.leaves)
        return self.leafkey[key]

    def type(self, t):
        try:
            if t in self.tkey:
                return self.tkey[t]
        except TypeError:
            t = repr(t)
            if t in self.tkey:
                return self.tkey[t]
        d = dict(k='bad', n='', a=[], v=[], c=0, e=0, r=0, nm=0, cl=[], lf=0, ps='')
        self.T.append(d)
        self.tobj.append(t)
        tid = self.tkey[t] = len(self.T)
        o = typing.get_origin(t)
        a = typing.get_args(t)
        if isinstance(t, type) and o is None:
            d['n'] = cname(t)
        if (isinstance(t, type) and o is None) or isinstance(t, typing.NewType):
            d['nm'] = self.node(t.__name__)
        if not a and not isinstance(t, type) and o in (list, set, frozenset, dict, tuple) and t in BARE:
            d['k'] = 'bare'
            d['ps'] = o.__name__
        elif t is None or t is type(None):
            d['k'] = 'none'
            d['n'] = 'NoneType' if t is not None else ''
        elif t is typing.Any:
            d['k'] = 'any'
        elif o in (list, set, frozenset) and a:
            d['k'] = o.__name__
            d['a'] = [self.type(a[0])]
        elif o is tuple:
            if len(a) == 2 and a[1] is Ellipsis:
                d['k'] = 'vtuple'
                d['a'] = [self.type(a[0])]
            else:
                d['k'] = 'tuple'
                d['a'] = [self.type(x) for x in a]
        elif o is dict and a:
            d['k'] = 'dict'
            d['a'] = [self.type(x) for x in a]
        elif o is typing.Union or o is types.UnionType:
            d['k'] = 'union'
            d['a'] = [self.type(x) for x in a]
        elif o is typing.Literal:
            d['k'] = 'lit'
            d['v'] = [self.node(x, True) for x in a]
        elif o is typing.NotRequired:
            d['k'] = 'notrequired'
            d['a'] = [self.type(a[0])]
        elif isinstance(t, typing.ForwardRef):
            d['k'] = 'fref'
            d['r'] = self.node(t.__forward_arg__)
        elif isinstance(t, typing.NewType):
            d['k'] = 'newtype'
            d['a'] = [self.type(t.__supertype__)]
        elif t is re.Pattern or o is re.Pattern:
            d['k'] = 'pattern'
            d['lf'] = self.leaf('re', re.compile)
            if a and a[0] in (str, bytes):
                d['ps'] = a[0].__name__
        elif isinstance(t, type) and o is None:
            if issubclass(t, enum.Enum):
                d['k'] = 'enum'
                d['e'] = self.enum(t)
            elif class_kind(t):
                d['k'] = class_kind(t)
                d['c'] = self.cls(t)
            elif t in (datetime.date, datetime.time, datetime.datetime):
                d['k'] = 'date'
                d['lf'] = self.leaf(t, lambda v: t.fromisoformat(v) if isinstance(v, str) else t(*v))
            elif t is datetime.timedelta:
                d['k'] = 'timedelta'
                d['lf'] = self.leaf(t, lambda v: datetime.timedelta(0, v))
            else:
                d['k'] = 'py'
                d['lf'] = self.leaf(t, t)
        return tid

    def enum(self, t):
        if t in self.ekey:
            return self.ekey[t]
        d = dict(m=[], h=[])
        self.E.append(d)
        eid = self.ekey[t] = len(self.E)
        self.classobjs.append(t)
        d['m'] = [[self.node(m.value, True), self.node(m, True)] for m in t]
        d['h'] = [self.type(h) for h in typing.get_type_hints(t).values()]
        return eid

    def cls(self, c):
        if c in self.ckey:
            return self.ckey[c]
        d = dict(k=class_kind(c), n=cname(c), f=[], hash=getattr(c, '__hash__', None) is not None,
                 g=dict(f=0, n=0, cls='V'), names=[])
        self.C.append(d)
        cid = self.ckey[c] = len(self.C)
        self.classobjs.append(c)
        k = d['k']
        try:
            deferred = typing.get_type_hints(c)
        except Exception:
            deferred = None
            if k != 'attrs':
                self.unresolved = True
        fields = []
        if k == 'nt':
            ann = {}
            for b in reversed(c.__mro__):
                ann.update(vars(b).get('__annotations__', {}))
            for f in c._fields:
                dflt = c._field_defaults.get(f, self)
                fields.append(dict(name=f, hint=ann[f], dflt=dflt, req=dflt is self, meta={}))
        elif k == 'td':
            ann = c.__annotations__
            for f, h in ann.items():
                req = f in c.__required_keys__
                if typing.get_origin(h) is typing.NotRequired:
                    h = typing.get_args(h)[0]
                    req = False
                fields.append(dict(name=f, hint=h, dflt=self, req=req, meta={}))
        elif k == 'dc':
            for f in dataclasses.fields(c):
                dflt = self
                if f.default is not dataclasses.MISSING:
                    dflt = f.default
                elif f.default_factory is not dataclasses.MISSING:
                    dflt = f.default_factory()
                fields.append(dict(name=f.name, hint=f.type, dflt=dflt, req=f.init and dflt is self, meta=f.metadata,
                                   init=f.init, cmp=f.compare))
        elif k == 'attrs':
            for f in attr.fields(c):
                dflt = self
                takes_self = None
                if isinstance(f.default, attr.Factory):
                    if f.default.takes_self:
                        takes_self = f.default.factory.field
                    else:
                        dflt = f.default.factory()
                elif f.default is not attr.NOTHING:
                    dflt = f.default
                hint, cv = f.type, None
                if f.converter:
                    conv = f.converter.converter if isinstance(f.converter, attr.Converter) else f.converter
                    if isinstance(conv, (prelude.CALLER, functools.partial)):
                        hint, cv = typing.Any, conv.cast
                    elif getattr(conv, 'identity', False):
                        hint = conv.__annotations__['x']
                    elif hasattr(conv, 'cast'):
                        hint = conv.__annotations__['x']
                        cv = conv.cast
                    else:
                        hint, cv = typing.Any, conv
                fields.append(dict(name=f.name, hint=hint, dflt=dflt, self_=takes_self,
                                   req=f.init and f.default is attr.NOTHING, meta=f.metadata, init=f.init,
                                   rep=bool(f.repr), cv=cv, cmp=bool(f.eq)))
        d['names'] = [f['name'] for f in fields]
        for f in fields:
            name = f['name']
            t = self.type(f['hint'])
            tp = t
            if deferred is not None and k != 'attrs' and name in deferred:
                tp = self.type(deferred[name])
            e = dict(na=self.node(name), mn=[[str(m), self.node(x)] for m, x in f['meta'].items() if isinstance(x, str)],
                     t=t, tp=tp, req=bool(f['req']), init=bool(f.get('init', True)), rep=bool(f.get('rep', True)),
                     cmp=bool(f.get('cmp', True)), dk='none', dv=0, cv=0)
            if f.get('self_'):
                e['dk'] = 'self'
                e['dv'] = d['names'].index(f['self_']) + 1
            elif f['dflt'] is not self:
                e['dk'] = 'val'
                e['dv'] = self.node(f['dflt'], True)
            if f.get('cv') is not None:
                e['cv'] = self.leaf(f['cv'], f['cv'])
            d['f'].append(e)
        g = getattr(c, '_guard_', None)
        if g:
            d['g'] = dict(f=d['names'].index(g[0]) + 1, n=self.node(g[1], True), cls='V' if issubclass(g[2], ValueError) else 'T')
        return cid

    def kinds(self, t):
        """The kinds of the types inside type number t"""
        seen, todo = {t}, [t]
        while todo:
            d = self.T[todo.pop() - 1]
            s = set(d['a'])
            if d['c']:
                for f in self.C[d['c'] - 1]['f']:
                    s |= {f['t'], f['tp']}
            if d['e']:
                s |= set(self.E[d['e'] - 1]['h'])
            todo += s - seen
            seen |= s
        return {self.T[y - 1]['k'] for y in seen}

    # ------------------------------------------------------------- finish
    def closures(self):
        direct = []
        for d in self.T:
            s = set(d['a'])
            if d['c']:
                for f in self.C[d['c'] - 1]['f']:
                    s |= {f['t'], f['tp']}
            if d['e']:
                s |= set(self.E[d['e'] - 1]['h'])
            direct.append(s)
        for j, d in enumerate(self.T):
            seen, todo = {j + 1}, [j + 1]
            while todo:
                for y in direct[todo.pop() - 1]:
                    if y not in seen:
                        seen.add(y)
                        todo.append(y)
            d['cl'] = sorted(y for y in seen if self.T[y - 1]['nm'])

    def facts(self):
        todo = set(self.inp)
        done = set()
        for rnd in range(2):
            new = set()
            for n in sorted(todo - done):
                done.add(n)
                nd = self.N[n - 1]
                v = self.obj[n - 1]
                if nd['k'] == 'gen':
                    continue
                x = []
                for f in self.leaves:
                    if (f in (bytes, bytearray) and isinstance(v, int) and v > 1 << 20
                            or not isinstance(f, type) and getattr(v, 'num_addresses', 0) > 1 << 10):
                        x.append(0)
                        continue
                    try:
                        r = f(v)
                        # str() of something that is not the same every time
                        r = 0 if isinstance(r, str) and ' at 0x' in r else self.node(r)
                        if r:
                            new.add(r)
                    except ValueError:
                        r = -1
                    except TypeError:
                        r = -2
                    except Exception:
                        r = -3
                    x.append(r)
                nd['x'] = x
            if not any(f['cv'] for c in self.C for f in c['f']):
                break
            todo = new

    def finish(self):
        self.facts()
        self.closures()
        C = [{k: v for k, v in c.items() if k != 'names'} for c in self.C]
        return dict(N=self.N, T=self.T, C=C, E=self.E)


def pathstr(v):
    try:
        if isinstance(v, int):
            return '[%d]' % v
        s = str(v)
        return s if len(s) < 200 and '\n' not in s and ' at 0x' not in s else ''
    except Exception:
        return ''


def datelist(v):
    if isinstance(v, datetime.datetime):
        return [v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond]
    if isinstance(v, datetime.date):
        return [v.year, v.month, v.day]
    return [v.hour, v.minute, v.second, v.microsecond]
