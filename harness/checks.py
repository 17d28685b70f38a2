"""The plan of each check: what it runs, and which broken clauses are its own."""
from . import profiles as P

LOAD = {'value', 'accepted', 'refused', 'conform', 'leak', 'returned'}
PLACE = {'path', 'located', 'root', 'pathline'}
SUBS = {'subs', 'subcat', 'subpath', 'sublocated', 'render'}
ERR = PLACE | SUBS | {'category', 'str'}
DUMP = {'dumped', 'plain', 'undumped', 'dumpaccepted', 'dumpcategory', 'leak', 'returned'}
EFFECT = {'mutated', 'shared', 'classes', 'options', 'alias'}
PRED = {'predicate', 'members', 'notbool', 'raised', 'literalvalues'}

CLAUSES = dict(
    C01={'conform', 'value', 'accepted'}, C02={'value', 'conform', 'refused', 'leak'}, C03={'leak', 'category', 'str', 'returned', 'accepted'}, C04=PLACE | {'str'},
    C05={'back', 'undumped'}, C06=DUMP, C07={'dumped', 'undumped'}, C08=LOAD | {'dumped', 'undumped', 'category', 'back'}, C09=LOAD | {'category'}, C10=LOAD | {'category'},
    C11=LOAD, C12=LOAD | {'category', 'subs'}, C13=LOAD | ERR | DUMP | {'history'}, C14=LOAD | PLACE | {'category', 'options'}, C15=EFFECT,
    C16=LOAD | DUMP | {'category', 'path', 'located'}, C17=LOAD | {'category'}, C18=LOAD | DUMP, C19=LOAD | ERR | DUMP | {'history'}, C20=PRED, C21=LOAD | ERR | DUMP,
    C22=LOAD | DUMP | {'category', 'back'}, C23=LOAD | DUMP | {'category', 'enumlist', 'str'}, C24=LOAD | {'category', 'path', 'mutated', 'alias', 'located'},
    C25=SUBS, C26=LOAD | ERR | DUMP | {'options', 'classes'})


def sweep(**k):
    return lambda rng: P.sweep(rng, **k)


def dsweep(**k):
    return lambda rng: P.dsweep(rng, **k)


def rnd(**k):
    return lambda rng: P.fam_random(rng, **k)


def fam(f, **k):
    return lambda rng: f(rng, **k)


SPECIAL = ('Path', 'IPv4Address', 'IPv6Address', 'IPv4Network', 'IPv6Network', 'IPv4Interface', 'IPv6Interface', 'UUID', 'datetime.date',
           'datetime.time', 'datetime.datetime', 'timedelta', 'Pattern', 'Pattern[str]', 'Pattern[bytes]', 're.Pattern', 'Decimal', 'Tag')
BASICS = ('int', 'float', 'str', 'bool', 'None', 'bytes', 'complex', 'MyStr')


def is_special(n):
    return n in SPECIAL


def is_enum(n):
    return n[0] == 'E' and n[1:].isdigit() or n in ('IE', 'SE')


def is_basic(n):
    return n in BASICS or n.startswith('Literal')


def is_obj(n):
    return n in ('NT0', 'DC0', 'DC1', 'AT0', 'TD0', 'TD1', 'FA', 'FN')


def is_union(n):
    return n.startswith(('Union', 'Optional', 'int |'))


def is_container(n):
    return '[' in n and not n.startswith(('Union', 'Optional', 'Literal', 'Pattern'))


ALL = [('sweep', 40, sweep()), ('random', 150, rnd()), ('union', 60, fam(P.fam_union)), ('fref', 30, fam(P.fam_fref))]
DALL = [('dsweep', 30, dsweep()), ('dump', 40, fam(P.fam_dump))]

FAMILIES = dict(
    C01=ALL + [('basics', 20, sweep(names=is_basic)), ('pep', 20, rnd(pep=True)), ('wide', 20, rnd(wide=.5, many=.3, q=.8))],
    C02=ALL + [('good', 60, rnd(q=.95)), ('wide', 60, rnd(wide=.6, many=.3, q=.95)), ('flat', 30, rnd(flat=.8, wide=.3, q=.9)), ('containers', 42, sweep(names=is_container))],
    C03=ALL + [('bad', 80, rnd(q=.15)), ('badtypes', 30, rnd(q=.5, bad=.1)), ('rude', 30, rnd(q=.2, rude=.6, literal=0, enum=0, tagged=0)), ('containers', 42, sweep(names=is_container, odd=.9, density=.15))] + DALL,
    C04=ALL + [('wide', 40, rnd(wide=.5, many=.3, q=.3)), ('near', 100, rnd(q=.0, depth=4)), ('mangled', 30, rnd(q=.2, mangle=.9)), ('optional', 20, fam(P.fam_union, q=.2))],
    C05=[('trip', 220, fam(P.fam_trip)), ('wide', 50, fam(P.fam_trip, wide=.5, many=.3)), ('flat', 60, fam(P.fam_trip, flat=.8, wide=.5)), ('pep', 30, fam(P.fam_trip, pep=True)), ('mangled', 40, fam(P.fam_trip, mangle=.9)), ('tagged', 30, fam(P.fam_trip, tagged=.7)), ('special', 30, fam(P.fam_trip, special=.8))],
    C06=[('dsweep', 90, dsweep()), ('dump', 160, fam(P.fam_dump)), ('flat', 30, fam(P.fam_dump, flat=.8, wide=.4)), ('bad', 60, fam(P.fam_dump, bad=.5)), ('pep', 20, fam(P.fam_dump, pep=True))],
    C07=[('dump', 200, fam(P.fam_dump, bad=0, dflt=.5, force=dict(hidedefault=None), defaults=.8)), ('both', 80, fam(P.fam_dump, bad=0, dflt=.5, defaults=.8)), ('strange', 60, fam(P.fam_dump, bad=0, dflt=.5, strange=.7, kinds=['dc', 'attrs'], defaults=.8)),
         ('dsweep', 80, dsweep())],
    C08=[('mangled', 150, rnd(q=.7, mangle=.9, kinds=['dc', 'attrs'], inherit=.4, strange=.1, extra=.4)), ('union', 30, fam(P.fam_union, mangle=.9, kinds=['dc', 'attrs'])), ('dump', 60, fam(P.fam_dump, mangle=.9, kinds=['dc', 'attrs'], inherit=.4, bad=0)),
         ('trip', 60, fam(P.fam_trip, mangle=.9, kinds=['dc', 'attrs']))],
    C09=[('pairs', 160, fam(P.fam_pairs, option='failonextra', extra=.35, q=.85)), ('random', 60, rnd(q=.85, extra=.4, force=dict(failonextra='True'))), ('union', 30, fam(P.fam_union, extra=.35, q=.8, force=dict(failonextra='True'))),
         ('subsets', 20, fam(P.fam_subsets)), ('sweep', 30, sweep(opts=[{'failonextra': 'True'}, {'failonextra': 'True', 'basiccast': 'False'}], names=lambda n: is_obj(n) or 'uple' in n))],
    C10=[('unions', 26, sweep(types=P.BASIC_UNIONS, opts=[{'basiccast': 'False'}, {'basiccast': 'False'}, {}], density=.3)), ('pairs', 130, fam(P.fam_pairs, option='basiccast', special=.1, enum=.05, literal=.05)), ('sweep', 60, sweep(names=is_basic, opts=[{'basiccast': 'False'}, {'basiccast': 'False'}, {}, {'basiccast': 'False', 'basictypes': '{int, bool, float, str, type(None), bytes, complex}'},
         {'basictypes': '{int, bool, float, str, type(None), MyStr}', 'basiccast': 'False'}])), ('containers', 42, sweep(names=is_container, opts=[{'basiccast': 'False'}, {}])), ('union', 30, fam(P.fam_union, force=dict(basiccast='False')))],
    C11=[('basics', 26, sweep(types=P.BASIC_UNIONS, density=.3)), ('union', 220, fam(P.fam_union)), ('tagged', 90, fam(P.fam_union, tagged=1, q=.7)), ('sweep', 30, sweep(names=is_union)), ('basic', 40, fam(P.fam_union, special=.1, nclasses=(0, 1), tagged=0)), ('many', 30, fam(P.fam_union, many=.8, deep=1))],
    C12=[('pairs', 130, fam(P.fam_pairs, option='uniondebugconflict', union=.5, tagged=.3, types=lambda r, g: [P.wrap(r, g, g.union(2)) for _ in range(4)])), ('union', 80, fam(P.fam_union, force=dict(uniondebugconflict='True'))),
         ('none', 20, rnd(union=0, force=dict(uniondebugconflict='True'))), ('sweep', 24, sweep(names=is_union, opts=[{'uniondebugconflict': 'True'}]))],
    C13=[('history', 180, fam(P.fam_history)), ('fref', 40, fam(P.fam_fref)), ('dhistory', 70, fam(P.fam_dhistory)), ('changes', 60, fam(P.fam_changes)), ('tagged', 50, fam(P.fam_history, tagged=1, overlap=.8, union=.6)), ('sweep', 20, sweep())],
    C14=[('fref', 220, fam(P.fam_fref)), ('union', 40, fam(P.fam_fref, union=.4, tagged=.3)), ('pep', 20, fam(P.fam_fref, pep=True)), ('trip', 20, fam(P.fam_trip, fref=.6))],
    C15=[('share', 180, fam(P.fam_share)), ('changes', 40, fam(P.fam_changes)), ('pep', 25, fam(P.fam_share, pep=True)), ('bad', 40, fam(P.fam_share, q=.1)), ('trip', 30, fam(P.fam_trip)), ('fref', 30, fam(P.fam_fref)), ('sweep', 15, sweep())],
    C16=[('handlers', 220, fam(P.fam_handlers)), ('dhandlers', 90, fam(P.fam_dhandlers)), ('union', 30, fam(P.fam_handlers, union=.4)), ('badtypes', 20, rnd(bad=.3, q=.8))],
    C17=[('subsets', 120, fam(P.fam_subsets)), ('random', 100, rnd(q=.9, inherit=.35, defaults=.6)), ('twins', 80, rnd(q=.85, twins=.7, inherit=.1)), ('extra', 40, rnd(q=.9, strange=.6, extra=.3)), ('sweep', 30, sweep(names=is_obj)), ('td', 30, rnd(q=.9, kinds=['td'], inherit=.6)), ('drop', 40, rnd(q=.95, drop=.5, inherit=.5, union=.35)), ('many', 30, rnd(q=.9, many=.8, drop=.3, union=0, depth=1)), ('tddrop', 30, rnd(q=.95, drop=.5, kinds=['td'], inherit=.7, union=.4, nclasses=(2, 4)))],
    C18=[('sweep', 150, sweep(density=.3)), ('basics', 12, sweep(density=.5, odd=1, names=lambda n: n in ('int', 'float', 'str', 'bool'))), ('random', 50, rnd(q=.6)), ('flat', 20, rnd(flat=.8, wide=.3, q=.8)), ('dsweep', 60, dsweep(density=.6)), ('new', 70, rnd(newtype=1, q=.7, depth=1, types=P.newtypes))],
    C19=[('threads', 70, fam(P.fam_threads)), ('fref', 30, fam(P.fam_threads, fref=.9, often=1, nclasses=(2, 3), nfields=(1, 2), strange=0, special=.1, defaults=.3, union=.1)), ('handlers', 30, fam(P.fam_handlers)), ('tagged', 30, fam(P.fam_threads, tagged=1, union=.6, overlap=.7))],
    C20=[('pred', 500, fam(P.fam_pred))],
    C21=[('dup', 40, rnd(pep=True, force=dict(pep563='True'), dup=.7, nclasses=(2, 4), kinds=['td', 'td', 'dc', 'nt'], q=.9)), ('pep', 200, rnd(pep=True, force=dict(pep563='True'), fref=.4)), ('union', 40, fam(P.fam_union, pep=True, force=dict(pep563='True'))), ('dump', 60, fam(P.fam_dump, pep=True)), ('trip', 30, fam(P.fam_trip, pep=True))],
    C22=[('sweep', 110, sweep(names=is_special)), ('dsweep', 50, dsweep(names=is_special)), ('random', 40, rnd(special=.9, extra_leaves=['Decimal', 'Tag'], force=dict(strconstructed='{Path, Tag, Decimal, UUID, IPv4Address}'))),
         ('more', 40, rnd(special=.9)), ('trip', 40, fam(P.fam_trip, special=.9))],
    C23=[('sweep', 70, sweep(names=is_enum)), ('random', 110, rnd(enum=.8, special=.05, q=.6)), ('union', 20, fam(P.fam_union, enum=.8)), ('dsweep', 25, dsweep(names=is_enum)), ('dump', 30, fam(P.fam_dump, enum=.8, special=.05))],
    C24=[('ns', 170, rnd(ns=.5, q=.85)), ('pairs', 60, fam(P.fam_pairs, option='dictequivalence', ns=.5, q=.9)), ('mangled', 40, rnd(ns=.5, q=.85, mangle=.8, kinds=['dc', 'attrs'])), ('union', 30, fam(P.fam_union, ns=.4))],
    C25=[('union', 180, fam(P.fam_union, q=.15)), ('many', 30, fam(P.fam_union, many=.8, deep=1, q=.2)), ('debug', 50, fam(P.fam_union, q=.7, force=dict(uniondebugconflict='True'))), ('fref', 40, fam(P.fam_fref, union=.4, q=.3)), ('random', 40, rnd(q=.2, union=.5)), ('enum', 30, rnd(enum=.8, special=.05, q=.3, union=.2)), ('sweep', 31, sweep(names=lambda n: is_union(n) or is_enum(n)))],
    C26=[('options', 170, fam(P.fam_options)), ('nofref', 90, fam(P.fam_options, fref=0)), ('sweep', 15, sweep())],
)


def plan(prop, tier):
    x, limit = (1, 100) if tier == 'quick' else (14, 600)
    return dict(families=[(n, k * x, f) for n, k, f in FAMILIES[prop]], limit=limit, clauses=CLAUSES[prop])
