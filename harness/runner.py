"""
Runs programs (sequences of calls) against the real typedload and records
what happened, in the form that spec/Trace.tla validates.

world source: Python module text, executed with the names of prelude.
program:  {"loaders": [cfg], "dumpers": [cfg], "ops": [op]}
cfg:      {"kw": {option: expression}, "handlers": [h], "via": ctor|attr|mod}
h:        {"how": insert|index|append, "m": [expr], "x": [expr], "act", "n": expr}
op:       {"op": "load", "l": 0, "t": expr, "v": expr}
          {"op": "dump", "l": 0, "v": expr}
          {"op": "trip", "l": 0, "d": 0, "t": expr, "v": expr}
          {"op": "same", "a": op number, "b": op number, "cl": clause}
          {"op": "pred", "t": expr}
          {"op": "threads", "jobs": [op], "seed": n}
"""
import argparse, collections, collections.abc, dataclasses, enum, re, signal, sys, types, typing, warnings
import attr

from . import prelude
from .encode import NAMED, World, class_kind, cname

import typedload
from typedload import dataloader, datadumper, exceptions as X, typechecks

warnings.simplefilter('ignore')

MODS = [0]


class Hang(BaseException):
    pass


class Unusable(Exception):
    pass


def made(c, **kw):
    try:
        return c(**kw)
    except Exception as e:
        raise Unusable('%r: %r' % (c, e))


def _alarm(*a):
    raise Hang()


def load_world(source, name=None):
    MODS[0] += 1
    for f in getattr(typing, '_cleanups', []):
        f()     # forward references inside cached annotations remember the classes of earlier worlds
    name = name or 'w%d' % MODS[0]
    NAMED.clear()
    m = types.ModuleType('w')
    m.__dict__.update({k: v for k, v in vars(prelude).items() if not k.startswith('__')})
    m.__dict__['__name__'] = 'w'
    sys.modules['w'] = m
    import linecache
    exec(compile(source, '<world>', 'exec', dont_inherit=True), m.__dict__)
    return m


MUTABLE = (list, dict, set, collections.deque, argparse.Namespace, bytearray)


def mutables(v, out=None, depth=0):
    """id -> object of the mutable containers inside v"""
    if out is None:
        out = {}
    if id(v) in out or depth > 60:
        return out
    if isinstance(v, (str, bytes, int, float, enum.Enum)) or v is None:
        return out
    if isinstance(v, argparse.Namespace):
        out[id(v)] = v
        for x in vars(v).values():
            mutables(x, out, depth + 1)
    elif isinstance(v, dict):
        out[id(v)] = v
        for k, x in v.items():
            mutables(k, out, depth + 1)
            mutables(x, out, depth + 1)
    elif isinstance(v, (list, set, collections.deque)):
        out[id(v)] = v
        for x in v:
            mutables(x, out, depth + 1)
    elif isinstance(v, (tuple, frozenset, collections.abc.KeysView, collections.abc.ValuesView, collections.abc.ItemsView)):
        for x in v:
            mutables(x, out, depth + 1)
    elif isinstance(v, (collections.UserDict, collections.ChainMap, types.MappingProxyType)):
        out[id(v)] = v
        for k, x in v.items():
            mutables(k, out, depth + 1)
            mutables(x, out, depth + 1)
    elif dataclasses.is_dataclass(v) and not isinstance(v, type):
        out[id(v)] = v
        for f in dataclasses.fields(v):
            mutables(getattr(v, f.name, None), out, depth + 1)
    elif attr.has(type(v)):
        out[id(v)] = v
        for f in attr.fields(type(v)):
            mutables(getattr(v, f.name, None), out, depth + 1)
    return out


def identities(v, depth=0):
    """Shape of v with the identities of its parts: changes when v is altered."""
    if depth > 60 or isinstance(v, (str, bytes, int, float, enum.Enum)) or v is None:
        return id(v)
    if isinstance(v, argparse.Namespace):
        return (id(v), tuple((k, identities(x, depth + 1)) for k, x in vars(v).items()))
    if isinstance(v, dict):
        return (id(v), tuple((id(k), identities(x, depth + 1)) for k, x in v.items()))
    if isinstance(v, (list, tuple, set, frozenset, collections.deque)):
        return (id(v), tuple(identities(x, depth + 1) for x in v))
    if dataclasses.is_dataclass(v) and not isinstance(v, type):
        return (id(v), tuple(identities(getattr(v, f.name, None), depth + 1) for f in dataclasses.fields(v)))
    if attr.has(type(v)):
        return (id(v), tuple(identities(getattr(v, f.name, None), depth + 1) for f in attr.fields(type(v))))
    return id(v)


def class_signature(c):
    s = [tuple((k, id(v), repr(v)) for k, v in getattr(c, '__annotations__', {}).items())]
    k = class_kind(c)
    if k == 'nt':
        s.append(tuple((f, id(v), repr(v)) for f, v in c._field_defaults.items()))
    elif k == 'dc':
        s.append(tuple((f.name, id(f.default), repr(f.default), id(f.default_factory), repr(dict(f.metadata))) for f in dataclasses.fields(c)))
    elif k == 'attrs':
        s.append(tuple((f.name, id(f.default), repr(f.default), repr(dict(f.metadata))) for f in attr.fields(c)))
    elif k == 'td':
        s.append((frozenset(c.__required_keys__), frozenset(c.__optional_keys__), c.__total__))
    elif isinstance(c, type) and issubclass(c, enum.Enum):
        s.append(tuple((n, repr(m.value)) for n, m in c.__members__.items()))
    return tuple(s)


class Recorder:
    def __init__(self, source, timeout=10):
        self.mod = load_world(source)
        self.w = World(self.mod)
        self.timeout = timeout
        self.programs = []
        self.defaults = {}
        self.cache = {}
        self.skipped = 0

    # -------------------------------------------------------------- helpers
    def ev(self, expr):
        if expr in self.cache:
            return eval(self.cache[expr], self.mod.__dict__)
        c = self.cache[expr] = compile(expr, '<expr>', 'eval', dont_inherit=True)
        return eval(c, self.mod.__dict__)

    def mutate(self, op, values):
        """The value of an earlier call, perhaps after its owner changed it"""
        v = values[op['again']]
        if 'mut' in op and (isinstance(v, (list, dict, set, argparse.Namespace)) or op['mut'].startswith('setattr') and class_kind(type(v))):
            try:
                eval(op['mut'], dict(self.mod.__dict__, v=v))
            except Exception:
                pass
        return v

    def guarded(self, f):
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.timeout)
        try:
            return ('ok', f())
        except X.TypedloadException as e:
            return ('err', e)
        except Hang:
            return ('leak', 'hang')
        except Exception as e:
            return ('leak', e)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    # -------------------------------------------------------------- loaders
    def make_handlers(self, l, hs, dumper):
        """Adds the custom handlers to the object or list of handlers."""
        front, back = [], []
        obs_ext = self.indexed = []
        for h in hs:
            ms = [self.ev(x) for x in h['m']]
            xs = [self.ev(x) for x in h.get('x', [])]
            n = self.ev(h['n']) if 'n' in h else None
            if dumper:
                cond = self._dcond(ms, xs, self.ev(h.get('exc', 'RuntimeError')))
                fn = self._dact(h['act'], n)
                mm, xx = [cname(c) for c in ms], [cname(c) for c in xs]
                nn = self.w.node(n, True)
            else:
                cond = self._cond(ms, xs, self.ev(h.get('exc', 'RuntimeError')))
                fn = self._act(h['act'], n)
                mm, xx = [self.w.type(c) for c in ms], [self.w.type(c) for c in xs]
                nn = self.w.type(n) if h['act'] in ('recur', 'each') else self.w.node(n, True)
            if h['how'] == 'index' and not dumper:
                obs_ext.append(mm[0])       # index() makes the loader know the type
            o = dict(pos='last' if h['how'] == 'append' else 'first', m=mm, x=xx, act='const' if h['act'] == 'side' else h['act'], n=nn)
            if h['how'] == 'append':
                l.handlers.append((cond, fn))
                back.append(o)
            elif h['how'] == 'index':
                # in front of the handler that deals with it now
                try:
                    pos = l.index(self.ev(h['sample'])) if dumper else l.index(ms[0])
                except Exception:
                    pos = 0
                l.handlers.insert(pos, (cond, fn))
                front.insert(0, o)
            else:
                l.handlers.insert(0, (cond, fn))
                front.insert(0, o)
        return front + back

    @staticmethod
    def _cond(ms, xs, exc=RuntimeError):
        def cond(t):
            if any(t == i for i in xs):
                raise exc('condition')
            return any(t == i for i in ms)
        return cond

    @staticmethod
    def _dcond(ms, xs, exc=RuntimeError):
        def cond(v):
            if type(v) in xs:
                raise exc('condition')
            return type(v) in ms
        return cond

    @staticmethod
    def _act(act, n):
        if act == 'wrap':
            return lambda l, v, t: (n, v)
        if act == 'const':
            return lambda l, v, t: n
        if act == 'recur':
            return lambda l, v, t: l.load(v, n)
        if act == 'side':
            def side(l, v, t):
                for x, u in (([1, 2], typing.List[int]), ({'a': 'x'}, typing.Dict[str, int]), (['q', 3], typing.Tuple[int, int])):
                    try:
                        l.load(x, u)
                    except Exception as e:
                        str(e)
                return n
            return side
        if act == 'each':
            def each(l, v, t):
                try:
                    it = iter(v)
                except TypeError:
                    raise X.TypedloadValueError('each', value=v, type_=t)
                return [l.load(x, n, annotation=X.Annotation(X.AnnotationType.INDEX, j)) for j, x in enumerate(it)]
            return each

        def reject(l, v, t):
            raise X.TypedloadValueError('rejected', value=v, type_=t)
        return reject

    @staticmethod
    def _dact(act, n):
        if act == 'wrap':
            return lambda l, v, t: [n, v]
        if act == 'wrap2':
            return lambda l, v: [n, v]
        if act == 'const':
            return lambda l, v, t: n
        if act == 'recur':
            return lambda l, v, t: l.dump(n)
        if act == 'side':
            def side(l, v, t):
                try:
                    l.dump([1, {'a': (2, 3)}])
                except Exception:
                    pass
                return n
            return side
        if act == 'each':
            return lambda l, v, t: [l.dump(x) for x in v]

        def reject(l, v, t):
            raise X.TypedloadValueError('rejected', value=v)
        return reject

    @staticmethod
    def assign(o, kw, via):
        for k, v in kw.items():
            mine = getattr(o, k, None)
            if via == 'inplace' and isinstance(v, set) and isinstance(mine, set):
                for x in list(mine - v):
                    mine.discard(x)
                for x in v:
                    mine.add(x)
            elif via == 'inplace' and isinstance(v, dict) and isinstance(mine, dict):
                mine.update(v)
            else:
                setattr(o, k, v)

    def loader(self, cfg):
        kw = {k: self.ev(v) for k, v in cfg.get('kw', {}).items()}
        via = cfg.get('via', 'ctor')
        l = None
        hs = []
        if via in ('attr', 'inplace'):
            l = made(dataloader.Loader)
            self.assign(l, kw, via)
            hs = self.make_handlers(l, cfg.get('handlers', []), False)
        elif via == 'ctor':
            l = made(dataloader.Loader, **kw)
            hs = self.make_handlers(l, cfg.get('handlers', []), False)
        elif via == 'mod':
            if cfg.get('handlers'):
                tmp = made(dataloader.Loader, **{k: v for k, v in kw.items() if k != 'frefs'})
                hs = self.make_handlers(tmp, cfg['handlers'], False)
                kw['handlers'] = tmp.handlers
        W = self.w
        bt = kw.get('basictypes', {int, bool, float, str, type(None)})
        import ipaddress, pathlib, uuid
        sc = kw.get('strconstructed', {pathlib.Path, ipaddress.IPv4Address, ipaddress.IPv6Address, ipaddress.IPv4Network,
                                       ipaddress.IPv6Network, ipaddress.IPv4Interface, ipaddress.IPv6Interface, uuid.UUID})
        fr = kw.get('frefs', {})
        uf = [[W.node(k), W.type(t)] for k, t in (fr or {}).items()]
        ext = (self.indexed if hs else []) + [t for _, t in uf] + [h['n'] for h in hs if h['act'] in ('recur', 'each')]
        o = dict(bc=bool(kw.get('basiccast', True)), fe=bool(kw.get('failonextra', False)),
                 de=bool(kw.get('dictequivalence', True)), dbg=bool(kw.get('uniondebugconflict', False)),
                 mk=str(kw.get('mangle_key', 'name')), pep=bool(kw.get('pep563', False)),
                 rc=bool(kw.get('raiseconditionerrors', True)), fr=fr is not None, uf=uf, ext=ext,
                 bt=sorted(cname(c) for c in bt), sc=sorted(cname(c) for c in sc), h=hs)
        return dict(cfg=cfg, obj=l, kw=kw, o=o, via=via, roots=0, user=dict(fr or {}), handlers=list(l.handlers) if l else None,
                    bt=set(bt), sc=set(sc))

    def dumper(self, cfg):
        kw = {k: self.ev(v) for k, v in cfg.get('kw', {}).items()}
        via = cfg.get('via', 'ctor')
        d = None
        hs = []
        if via in ('attr', 'inplace'):
            d = made(datadumper.Dumper)
            self.assign(d, kw, via)
            hs = self.make_handlers(d, cfg.get('handlers', []), True)
        elif via == 'ctor':
            d = made(datadumper.Dumper, **kw)
            hs = self.make_handlers(d, cfg.get('handlers', []), True)
        elif via == 'mod' and cfg.get('handlers'):
            tmp = made(datadumper.Dumper, **kw)
            hs = self.make_handlers(tmp, cfg['handlers'], True)
            kw['handlers'] = tmp.handlers
        bt = kw.get('basictypes', {int, bool, float, str, type(None)})
        import ipaddress, pathlib, uuid
        sc = kw.get('strconstructed', {pathlib.Path, pathlib.PosixPath, pathlib.WindowsPath, ipaddress.IPv4Address,
                                       ipaddress.IPv6Address, ipaddress.IPv4Network, ipaddress.IPv6Network,
                                       ipaddress.IPv4Interface, ipaddress.IPv6Interface, uuid.UUID})
        o = dict(hd=bool(kw.get('hidedefault', True)), iso=bool(kw.get('isodates', False)), mk=str(kw.get('mangle_key', 'name')),
                 rc=bool(kw.get('raiseconditionerrors', True)), bt=sorted(cname(c) for c in bt), sc=sorted(cname(c) for c in sc), h=hs)
        return dict(cfg=cfg, obj=d, kw=kw, o=o, via=via, handlers=list(d.handlers) if d else None, bt=set(bt), sc=set(sc))

    # ------------------------------------------------------------- outcomes
    def steps(self, e):
        out = []
        for i in e.trace:
            a = i.annotation
            if a is None:
                continue
            k = a[0]
            name = k.name if isinstance(k, enum.Enum) else str(k)
            if name == 'INDEX':
                n = int(a[1])
            elif name == 'UNION':
                n = self.w.type(a[1])
            else:
                n = self.w.node(a[1])
            out.append(dict(k=name, n=n))
        return out

    def error(self, e, depth=0):
        if not isinstance(e, X.TypedloadException):
            return dict(st='err', cls='?', path=[], v=0, ty=0, subs=[], so=True, pl='', lines=[], ml=0, rv=0, rt=0, fl=[], r=0, al=[], m='')
        W = self.w
        cls = 'V' if isinstance(e, ValueError) else 'T' if isinstance(e, TypeError) else 'A' if isinstance(e, AttributeError) else 'X'
        o = dict(st='err', cls=cls, path=self.steps(e), v=W.node(e.value) if (e.value is not None or e.type_ is not None) else 0,
                 ty=W.type(e.type_) if e.type_ is not None else self.w.tkey.get(None, 0),
                 subs=[self.error(x, depth + 1) for x in e.exceptions] if depth < 300 else [],
                 so=True, pl='', lines=[], ml=0, rv=0, rt=0, fl=[], r=0, al=[], m='')
        if depth == 0:
            try:
                s = str(e)
                o['m'] = s[:400]
                first = str(e.args[0]) if e.args else ''
                rest = s[len(first):] if s.startswith(first) else s
                o['lines'] = [i.lstrip()[6:] for i in s.split('\n') if i.lstrip().startswith('Path: ')]
                if rest.startswith('\nPath: '):
                    o['pl'] = rest[7:].split('\n')[0]
                else:
                    o['pl'] = '<no path>'
            except Exception:
                o['so'] = False
            if e.trace:
                o['rv'] = W.node(e.trace[0].value)
                o['rt'] = W.type(e.trace[0].type_)
            t = e.type_
            if isinstance(t, type) and issubclass(t, enum.Enum):
                msg = str(e.args[0])
                o['ml'] = int(all(repr(m.value) in msg for m in t))
        return o

    def outcome(self, res):
        st, r = res
        if st == 'ok':
            return dict(st='ok', r=self.w.node(r), al=[], fl=[])
        if st == 'err':
            try:
                return self.error(r)
            except Exception as e:
                # not even a proper exception
                return dict(st='leak', m='malformed %r: %r' % (type(r), e), fl=[])
        return dict(st='leak', m=repr(r)[:300], fl=[])

    # ------------------------------------------------------------- programs
    def snapshot(self):
        return [class_signature(c) for c in self.w.classobjs]

    def check_options(self, L, loader):
        o = L['obj']
        if o is None:
            fr = L['kw'].get('frefs') if loader else None
            if fr is not None and any(fr.get(k) is not t for k, t in L['user'].items()):
                return True
            return any(L['kw'].get(k) is not None and L['kw'][k] != L[s] for k, s in (('basictypes', 'bt'), ('strconstructed', 'sc')))
        bad = o.basictypes != L['bt'] or o.strconstructed != L['sc']
        bad = bad or len(o.handlers) != len(L['handlers']) or any(a is not b for a, b in zip(o.handlers, L['handlers']))
        if loader:
            if (o.frefs is None) != (not L['o']['fr']):
                bad = True
            elif o.frefs is not None:
                bad = bad or any(o.frefs.get(k) is not t for k, t in L['user'].items())
        return bad

    def run(self, prog, meta=None):
        W = self.w
        # describe everything before typedload sees it
        dead = set()
        changed = {op['again'] for op in prog['ops'] if 'mut' in op}
        for j, op in enumerate(prog['ops']):
            for x in [op] + op.get('jobs', []):
                try:
                    if 't' in x:
                        W.type(self.ev(x['t']))
                    if 'v' in x:
                        v = self.ev(x['v'])
                        if j in changed:
                            W.node(v, True)
                except Exception:
                    dead.add(j)
        try:
            Ls = [self.loader(c) for c in prog.get('loaders', [])]
            Ds = [self.dumper(c) for c in prog.get('dumpers', [])]
        except Unusable:
            self.programs.append((dict(ld=[], dd=[], ev=[dict(op='flag', fl=['options'])]), [0], meta, prog))
            return
        for c in W.classobjs:
            for v in plain_defaults(c):
                self.defaults.update(mutables(v))
        events, refs, outs = [], [], []
        lds = [L['o'] for L in Ls]
        seen = {}               # mutable objects of earlier results
        keep = []
        before_classes = self.snapshot()
        nclasses = len(W.classobjs)

        def classes_altered():
            nonlocal before_classes, nclasses
            now = self.snapshot()
            bad = now[:nclasses] != before_classes
            before_classes, nclasses = now, len(W.classobjs)
            return bad

        def do_load(j, li, t, v, fresh_input=True):
            L = Ls[li]
            vn, tn = W.node(v, True), W.type(t)
            gens = 'GEN' in str(prog['ops'][j].get('v', ''))
            ids = None if gens else identities(v)
            frefs0 = None
            f = (lambda: typedload.load(v, t, **L['kw'])) if L['obj'] is None else (lambda: L['obj'].load(v, t))
            res = self.guarded(f)
            out = self.outcome(res)
            if not gens and (identities(v) != ids or W.node(v) != vn):
                out['fl'].append('mutated')
            if classes_altered():
                out['fl'].append('classes')
            if self.check_options(L, True):
                out['fl'].append('options')
            if res[0] == 'ok':
                mine = mutables(res[1])
                inp = mutables(v)
                out['al'] = sorted({W.node(mine[i]) for i in mine if i in inp})
                if fresh_input is not None and not L['o']['h'] and any(i in seen and i not in inp and i not in self.defaults for i in mine):
                    out['fl'].append('shared')
                if fresh_input:
                    for i in mine:
                        if i not in inp:
                            seen[i] = mine[i]
                if fresh_input is not None:
                    keep.append(res[1])
            if fresh_input is not None:
                keep.append(v)
            ln = li + 1
            if L['obj'] is None and 'frefs' not in L['kw']:
                lds.append(L['o'])
                ln = len(lds)
            events.append(dict(op='load', l=ln, v=vn, t=tn, o=out))
            refs.append(j)
            return res, out

        def do_dump(j, di, v, hold=True):
            D = Ds[di]
            vn = W.node(v)
            ids = identities(v)
            f = (lambda: typedload.dump(v, **D['kw'])) if D['obj'] is None else (lambda: D['obj'].dump(v))
            res = self.guarded(f)
            out = self.outcome(res)
            if identities(v) != ids or W.node(v) != vn:
                out['fl'].append('mutated')
            if classes_altered():
                out['fl'].append('classes')
            if self.check_options(D, False):
                out['fl'].append('options')
            if res[0] == 'ok':
                mine = mutables(res[1])
                inp = mutables(v)
                out['al'] = sorted({W.node(mine[i]) for i in mine if i in inp})
                if not D['o']['h'] and any(i in seen for i in mine):
                    out['fl'].append('shared')
                if hold:
                    seen.update(mine)
                    keep.append(res[1])
            if hold:
                keep.append(v)
            ex = self.exempt(D)
            events.append(dict(op='dump', l=di + 1, v=vn, o=out, ex=ex))
            refs.append(j)
            return res, out

        values = {}
        for j, op in enumerate(prog['ops']):
            k = op['op']
            if j in dead or ('again' in op and op['again'] not in values):
                outs.append(None)
                self.skipped += 1
            elif k == 'load':
                if 'again' in op:
                    v = self.mutate(op, values)
                else:
                    v = self.ev(op['v'])
                values[j] = v
                if self.excluded(Ls[op['l']]['o'], op, v):
                    outs.append(None)
                    self.skipped += 1
                    continue
                res, out = do_load(j, op['l'], self.ev(op['t']), v, 'again' not in op)
                outs.append(out)
            elif k == 'dump':
                v = self.mutate(op, values) if 'again' in op else self.ev(op['v'])
                values[j] = v
                res, out = do_dump(j, op['l'], v)
                outs.append(out)
            elif k == 'trip':
                t = self.ev(op['t'])
                v = self.ev(op['v'])
                values[j] = v
                res, out = do_dump(j, op['d'], v)
                outs.append(out)
                if res[0] == 'ok':
                    data = res[1]
                    if op.get('json'):
                        import json
                        try:
                            other = json.loads(json.dumps(data))
                            # unless it has keys or values that JSON does not have
                            data = other if other == data else data
                        except (TypeError, ValueError):
                            pass
                    res2, out2 = do_load(j, op['l'], t, data)
                    events.append(dict(op='back', v=W.node(v), o=out2))
                    refs.append(j)
                    outs[-1] = out2
            elif k == 'churn':
                # calls that were made before, with values and types that do not stay
                for m in range(op['n']):
                    j2 = op['of'][m % len(op['of'])]
                    x = prog['ops'][j2]
                    if outs[j2] is None or outs[j2]['st'] == 'leak' or x['op'] not in ('load', 'dump') or 'again' in x or 'GEN' in x['v']:
                        continue
                    if x['op'] == 'load':
                        do_load(j2, x['l'], self.ev(x['t']), self.ev(x['v']), None)
                    else:
                        do_dump(j2, x['l'], self.ev(x['v']), False)
                outs.append(None)
            elif k == 'spam':
                # calls that were made before, many times
                f = []
                for m in op['of']:
                    x = prog['ops'][m]
                    if outs[m] is not None and x['op'] in ('load', 'dump') and 'GEN' not in x['v'] and outs[m]['st'] != 'leak':
                        o = (Ls if x['op'] == 'load' else Ds)[x['l']]['obj']
                        if o is not None:
                            f.append((lambda o=o, x=x: o.load(self.ev(x['v']), self.ev(x['t']))) if x['op'] == 'load' else (lambda o=o, x=x: o.dump(self.ev(x['v']))))
                for m in range(op['n'] if f else 0):
                    if self.guarded(f[m % len(f)])[1] == 'hang':
                        break
                outs.append(None)
            elif k == 'same' and (outs[op['a']] is None or outs[op['b']] is None):
                outs.append(None)
            elif k == 'same':
                a, b = outs[op['a']], outs[op['b']]
                events.append(dict(op='same', o=a, o2=b, cl=op.get('cl', 'history'), fl=[]))
                refs.append(j)
                outs.append(b)
            elif k == 'pred':
                events.append(self.predicates(self.ev(op['t'])))
                refs.append(j)
                outs.append({})
            elif k == 'threads':
                from . import sched
                if any(x['op'] == 'load' and self.excluded(Ls[x['l']]['o'], x, self.ev(x['v'])) for x in op['jobs']):
                    outs.append(None)
                    self.skipped += 1
                    continue
                n = 0
                for jo, v, out, sd, alone in sched.run_threads(self, Ls, Ds, op):
                    if jo['op'] == 'load':
                        # every thread's root types may be known to the loader
                        ext = [W.type(self.ev(x['t'])) for x in op['jobs'] if x['op'] == 'load']
                        lo = Ls[jo['l']]['o']
                        lds.append(dict(lo, ext=lo['ext'] + ext))
                        events.append(dict(op='load', l=len(lds), v=W.node(v, True), t=W.type(self.ev(jo['t'])), o=out))
                    else:
                        events.append(dict(op='dump', l=jo['l'] + 1, v=W.node(v), o=out, ex=self.exempt(Ds[jo['l']])))
                    refs.append(j)
                    n += 1
                    if op.get('alone'):
                        events.append(dict(op='same', o=alone, o2=out, cl='history', fl=[]))
                        refs.append(j)
                outs.append({})
            else:
                raise ValueError(k)
        p = dict(ld=lds, dd=[D['o'] for D in Ds], ev=events)
        self.programs.append((p, refs, meta, prog))
        return outs

    def excluded(self, o, op, v):
        """Loads that no property speaks about"""
        if self.w.unresolved and o['pep']:
            return True         # the names in the annotations have to exist
        if 'GEN(' in op['v'] and {'union', 'any', 'enum'} & self.w.kinds(self.w.type(self.ev(op['t']))):
            # the first attempt consumes an iterator, unless it is all outside
            t = self.w.T[self.w.type(self.ev(op['t'])) - 1]
            return not (type(v) is types.GeneratorType and op['v'].count('GEN(') == 1 and t['k'] in ('list', 'set', 'frozenset', 'vtuple')) or bool(o['h'])
        return False

    def exempt(self, D):
        """Classes that may be in the dumps"""
        ex = [c for c in D['o']['bt'] if c not in ('NoneType', 'bool', 'int', 'float', 'str')]
        if any(type(x) is re.Pattern and isinstance(x.pattern, bytes) for x in self.w.obj):
            ex.append('bytes')
        if D['o']['h']:
            ex += list({n['t'] for n in self.w.N})
        return ex

    def predicates(self, t):
        W = self.w
        names = ['any', 'attrs', 'dataclass', 'dict', 'enum', 'forwardref', 'frozenset', 'list', 'literal', 'namedtuple',
                 'newtype', 'nonetype', 'notrequired', 'optional', 'pattern', 'set', 'tuple', 'typeddict', 'union']
        preds, fl, args = [], [], []
        for n in names:
            try:
                r = getattr(typechecks, 'is_' + n)(t)
                if r is True:
                    preds.append(n)
                elif r is not False:
                    fl.append('notbool')
            except Exception:
                fl.append('raised')
        tn = W.type(t)
        k = W.T[tn - 1]['k']
        try:
            if k == 'union':
                args = [W.type(x) for x in typechecks.uniontypes(t)]
            elif k == 'lit':
                args = [W.node(x) for x in typechecks.literalvalues(t)]
            elif k == 'notrequired':
                args = [W.type(typechecks.notrequiredtype(t))]
        except Exception:
            fl.append('raised')
        if k != 'lit':
            try:
                typechecks.literalvalues(t)
                fl.append('literalvalues')
            except ValueError:
                pass
            except Exception:
                fl.append('raised')
        return dict(op='pred', t=tn, preds=preds, args=args, fl=fl)

    def finish(self):
        """(world, programs) ready for the specification"""
        return self.w.finish(), [p for p, _, _, _ in self.programs]


def plain_defaults(c):
    k = class_kind(c)
    if k == 'nt':
        return list(c._field_defaults.values())
    if k == 'dc':
        return [f.default for f in dataclasses.fields(c) if f.default is not dataclasses.MISSING]
    if k == 'attrs':
        return [f.default for f in attr.fields(c) if f.default is not attr.NOTHING and not isinstance(f.default, attr.Factory)]
    if isinstance(c, type) and issubclass(c, enum.Enum):
        return [m.value for m in c]
    return []

