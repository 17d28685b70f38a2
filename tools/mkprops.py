#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the properties are maintained here, one call per property)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({'state': state} if state else {}),
                     **({'observe_at': observe} if observe else {}),
                     hook_needed=None)))
DL, DD, EX, TC, HE, IN = ('typedload/dataloader.py', 'typedload/datadumper.py', 'typedload/exceptions.py',
    'typedload/typechecks.py', 'typedload/helpers.py', 'typedload/__init__.py')
RET = ['return value or exception of Loader.load / typedload.load']
p('C01', 'A returned value conforms to the requested type, all the way down',
  'Whenever load() returns, the result is a value of the requested type at every depth: leaves of the basic types have exactly the annotated type, containers have exactly the annotated container class, fixed tuples have exactly the annotated arity, literals and enumerations hold one of the allowed values or members, and objects are instances of the annotated class whose loaded fields conform to their own annotations. Only positions annotated Any (or produced by user code such as a converter, a constructor or a custom handler) are exempt. This holds for every combination of loader options.',
  ['inputs', 'configurations', 'histories'], 'every supported type nested to any depth, every input, every option combination, on fresh and on reused loaders',
  'The tests load about two hundred hand picked pairs of value and type; they never check types inside nested containers for values that are already nearly right (bool for int, subclasses, keys of dictionaries).',
  [DL], [('per type handlers', DL + ' _basicload/_dictload/_tupleload/_iterload/_objloader/_unionload/_enumload'), ('fast paths that skip the handler', DL + ' _iterload, _tupleload, _dictload')], observe=RET)
p('C02', 'Loading keeps the data: nothing lost, invented, reordered or mispaired',
  'When load() accepts an input, the result contains exactly the loads of the corresponding input parts: same number of elements in the same order for lists and tuples (a longer input for a fixed tuple keeps its first elements), the same keys paired with their own values for dictionaries, the same elements for sets, and every field of an object that is present in the data holding the load of that entry. A basic value that already has the annotated type is passed through unchanged, and a value that must be converted equals what calling the type on it gives.',
  ['inputs', 'configurations'], 'every supported type and every accepted input, including long, empty, deeply nested and unusual containers (generators, ranges, mappings that are not dicts)',
  'Tests compare a few small literals; they use containers of up to four elements and never compare a result against an independent definition of what the result must be.',
  [DL], [('element-wise recursion with fast paths', DL + ' _iterload, _tupleload, _dictload, _objloader'), ('casts', DL + ' _basicload')], observe=RET)
p('C03', 'Failing loads raise a typedload exception of the right standard category',
  'For every input and every supported type, load() either returns or raises a TypedloadException, never any other exception, as long as user supplied constructors and converters only raise ValueError or TypeError, custom handlers only typedload exceptions (an assertion checks that), and methods of the values do not raise by themselves (and nesting stays within the recursion limit); and str() of the exception always works. The exception is also a ValueError when the value is refused (not castable text, wrong literal or enum value, missing or unexpected fields, wrong tuple length, no union member fits), a TypeError when the type is not supported or when something that cannot be iterated, or a dictionary, is given for a sequence, and an AttributeError when something that is not a mapping is given for a dictionary or an object. (A missing field of an attrs class, and whatever a constructor of the user refuses, keeps the category of the constructor\'s own error; bare List, Dict, Set, Tuple and FrozenSet without arguments are not supported types.)',
  ['inputs', 'configurations'], 'every input (including NaN, infinities, huge numbers, None, unhashable values, non string keys, objects without length) at every position of every supported type, for every option combination',
  'Tests assert exceptions for about sixty fixed malformed inputs, one position each; whether some input leaks an AssertionError, OverflowError or TypeError out of a nested position is a statement about all inputs.',
  [DL, EX], [('exception conversion in every handler', DL + ' except clauses'), ('assertion in load()', DL + ' Loader.load'), ('rendering', EX + ' TypedloadException.__str__')], observe=RET + ['str(exception)'])
p('C04', 'An exception locates the refused value inside the input',
  'The annotations in the trace of a raised exception, read from the outermost to the innermost, are exactly the steps (field, index, key, value of key, forward reference) that lead from the root of the input to the value that was refused, and the first trace item holds the input and the type of the outer load() call. The exception\'s value and type_ are that refused value and the type it was being loaded into (except where a constructor, not typedload, refused, or typedload was given a renamed or converted copy: mangled classes, Namespaces). The "Path:" line of str(exception) shows the same steps in the same order.',
  ['inputs', 'configurations'], 'every input with one or several defects at any depth, inside every kind of container and object, with containers of any length and iterables of any kind',
  'Tests check the last annotation for a dozen inputs; the index is derived from an iterator counter and the key path from a second slow pass, so correctness depends on position, container kind and element kind.',
  [DL, EX], [('trace insertion', DL + ' Loader.load, _objloader, _iterload, _tupleload, _dictload'), ('path formatting', EX + ' _path, __str__')], observe=['exception.trace, .value, .type_, str(exception)'])
p('C05', 'Dumping then loading gives back an equal value',
  'For every value x that conforms to a supported type T, load(dump(x), T) equals x, whatever the hidedefault, isodates and matching mangle_key options of the dumper and loader, and also with strict loading (failonextra, no basiccast). This covers objects of every kind (NamedTuple, dataclass, attrs, TypedDict), containers, enumerations with basic or annotated values, string constructed types, dates (with time zones in ISO form), timedeltas, flagless patterns, unions whose members cannot be mistaken for each other, and self referential types. It does not cover what dump by design drops or cannot represent: attrs fields with repr=False, converters that change their own output, dictionary keys that dump to lists, and, with failonextra, fields that do not take part in construction.',
  ['inputs', 'configurations'], 'every conforming value of every supported type, all dump options, matching loader options',
  'The tests round trip five values; the property quantifies over all types and values and over the product of dumper and loader options.',
  [DL, DD], [('inverse handlers', DD + ' handlers'), ('default hiding', DD + ' _namedtupledump, _dataclassdump, _attrdump'), ('default filling', DL + ' _objloader')], observe=['load(dump(x), T) == x'])
p('C06', 'A dump consists only of plain data and mirrors the structure',
  'dump() of a supported value returns only None, bool, int, float, str, lists and dictionaries at every depth (plus bytes for bytes patterns), where every list, tuple, set or frozenset becomes a list of the dumps of its elements in iteration order, every dictionary becomes a dictionary of the dumps of its keys and values, and every object becomes a dictionary of the dumps of its fields. The dump of a part does not depend on where it sits nor, for values that conform to it, on the annotation of the field that holds it. A value of an unsupported type, at any depth, raises a ValueError instead of being passed through.',
  ['inputs', 'configurations'], 'every value of supported and unsupported types nested to any depth, conforming to its annotations, all dumper options',
  'Tests dump some forty values, mostly not nested; annotation driven fast paths are not compared with the slow path.',
  [DD], [('handlers', DD + ' Dumper.handlers'), ('annotation driven fast path', DD + ' _iteratordump'), ('dataclass hint cache', DD + ' _dataclassdump')], observe=['return value of dump'])
p('C07', 'hidedefault omits exactly the fields that equal their default',
  'With hidedefault (the default), dumping an object omits a field if and only if the field has a default value or a default factory (including attrs factories that take the instance) and the current value compares equal to that default. With hidedefault=False every field is present. This holds for NamedTuple, dataclass and attrs objects at any depth, and does not depend on which other objects were dumped before with the same dumper.',
  ['inputs', 'configurations', 'histories'], 'every object and every default (immutable, mutable via factory, falsy, None, nested objects), sequences of dumps on one dumper',
  'Tests use seven objects with defaults 0, a string, None or an empty list; defaults are cached per class on first use and compared by equality, which tests do not vary.',
  [DD], [('default comparison and cache', DD + ' _namedtupledump, _attrdump, _dataclassdump')], observe=['keys of the dumped dictionary'])
p('C08', 'Name mangling maps data names to fields consistently, both ways',
  'For dataclass and attrs fields with the metadata key selected by mangle_key (whatever that key is called), load reads the field only from the mangled name, never from the Python name, and dump writes it under the mangled name; fields without that metadata use their Python name. Swapped or chained names (a mangled name that is another field\'s Python name) are handled. An entry under the Python name of a mangled field is ignored, or refused under failonextra, and never reaches the object.',
  ['inputs', 'configurations'], 'every assignment of mangled names to fields, several name schemes per class, every mangle_key, any data keys, nested objects, required and optional fields',
  'Tests use classes with one or two mangled fields, one swap and one alternative scheme.',
  [DL, DD], [('renaming', DL + ' _mangle_names, _dataclassload, _attrload'), ('renaming on dump', DD + ' _dataclassdump, _attrdump')], observe=RET + ['dumped keys'])
p('C09', 'failonextra refuses exactly the inputs that carry unused data',
  'With failonextra enabled, a load fails if at any depth an object has an entry that no field uses, or a fixed size tuple is given more elements than it has types; otherwise it gives exactly the same outcome as without the option. With failonextra disabled, such extra data never changes the result.',
  ['inputs', 'configurations'], 'every type, input and extra entry at every depth, every object kind, names of any hashable kind',
  'Tests add one extra string key at the top level of single level objects.',
  [DL], [('extra field test', DL + ' _objloader, _mangle_names'), ('length test', DL + ' _tupleload')], observe=RET)
p('C10', 'basiccast=False never converts a basic value',
  'With basiccast disabled, a position annotated with a basic type accepts only values whose type is exactly that type and returns them unchanged; everything else is refused with a ValueError, at every depth and in every kind of container. With basiccast enabled the same position accepts exactly what calling the type accepts. Outside unions, whatever loads with basiccast disabled loads to the same result with it enabled.',
  ['inputs', 'configurations'], 'every basic type (including a customised basictypes set) at every position, every value including bool for int, int for float, subclasses of the basic types, None',
  'Tests disable the option for about twenty loads, mostly at top level or in a list; bool versus int and subclass instances inside containers are not tried.',
  [DL], [('strictness test', DL + ' _basicload'), ('fast paths', DL + ' _iterload, _tupleload, _dictload, _unionload')], observe=RET)
p('C11', 'A union loads as one of its members, by the documented preference',
  'A union accepts a value if and only if at least one member accepts it, and the result is what loading the value as one of the accepting members gives. If the value\'s exact type is a basic type listed in the union the value itself is returned; otherwise a basic member is used only when no other member accepts the value. Members tagged by a Literal field are selected by the tag: a value whose tag is allowed by only one member is never loaded as another. (Iterators that can be consumed only once are excluded: the first member that is tried consumes them.)',
  ['inputs', 'configurations', 'programs'], 'every union of two to many members in any order and spelling (Union, Optional, |), nested in any position, tagged by one or several Literal fields or untagged, every value',
  'Tests use a dozen small unions; selection uses a cached discriminator table and a sort, both depending on the member set, and hash seeds.',
  [DL, TC], [('ordering', DL + ' _unionload'), ('discriminator cache', DL + ' _unionload_discriminatorcache'), ('literal discovery', TC + ' discriminatorliterals')], observe=RET)
p('C12', 'uniondebugconflict fails exactly on ambiguous unions',
  'With uniondebugconflict enabled, loading into a union raises a TypeError if and only if the value is not of a basic type listed in the union and two or more members accept it; a value accepted by exactly one member loads to that same result, and a value accepted by none fails as without the option. The option has no effect on loads that involve no union.',
  ['inputs', 'configurations'], 'every union at any depth, every value, with two, three or more accepting members in any order',
  'One test with two identical members at top level.',
  [DL], [('counting', DL + ' _unionload')], observe=RET)
p('C13', 'The outcome of a load or dump does not depend on what was done before',
  'Loading the same value into the same type with the same options gives the same outcome (result or failure) on a fresh loader, on a loader that was already used for any sequence of other loads, successful or failing, and when repeated; likewise for dumps on a reused dumper. The only exception is the documented one: a forward reference can become resolvable once its class has been encountered.',
  ['histories', 'inputs', 'configurations'], 'every finite sequence of loads and dumps on shared Loader and Dumper objects, including failed ones and types that are equal, overlapping or reused in other positions',
  'Each test makes one or a few calls on a new loader; five caches keyed by type, one of them filled from inside container handlers, make history a real input.',
  [DL, DD], [('handler cache', DL + ' _indexcache'), ('object field cache', DL + ' _objfieldscache'), ('union cache', DL + ' _unionload_discriminatorcache'), ('dumper caches', DD + ' _handlerscache, _dataclasscache')],
  state=[dict(name='_indexcache', meaning='type -> handler', where=DL), dict(name='frefs', meaning='name -> type', where=DL)], observe=RET + ['return value of dump'])
p('C14', 'Forward references resolve to the right class wherever they appear',
  'A forward reference (a name inside another annotation, such as Optional[\'Node\'] or List[\'Node\']; in NamedTuple and TypedDict also the whole annotation) to a class that the loader is in the middle of loading, or has been given as root type before, resolves to that class wherever the class appears (root, field, element, union member, dictionary value, behind a NewType), at any recursion depth. An entry supplied by the user in frefs takes precedence and is never replaced. A name that was never encountered, or any name when frefs is None, fails with a typedload exception and never loads as something else.',
  ['inputs', 'histories', 'configurations', 'programs'], 'every recursive class structure (self references, references to enclosing classes), every position of the class in the root type, every history of previous loads',
  'Three tests, all with the recursive class as the root type of a fresh loader.',
  [DL], [('name registration', DL + ' Loader.load / Loader.index'), ('resolution', DL + ' _forwardrefload')], state=[dict(name='frefs', meaning='name -> type', where=DL)], observe=RET + ['Loader.frefs'])
p('C15', 'Loading and dumping never alter or alias their inputs',
  'load() and dump() leave the data, the typed objects, the type definitions (annotations, defaults, metadata) and the option objects of the caller as they were, except that frefs may gain names. Apart from positions annotated Any and values passed through by user code, no list, dictionary, set or object of a result is shared with the input, with a class default produced by a factory, or with the result of another call. This holds on failing calls as well.',
  ['inputs', 'histories', 'configurations'], 'every type, input and history; successful and failing loads; dumps with and without annotations',
  'One test compares one dictionary before and after a load; sharing and mutation of types are not looked at.',
  [DL, DD], [('fresh containers', DL + ' _iterload, _dictload, _objloader, _mangle_names'), ('annotation handling', DL + ' _typeddictload'), ('list copy', DD + ' _iteratordump')], observe=['arguments, classes and results after the call'])
p('C16', 'Custom handlers govern their types everywhere',
  'The first handler in list order whose condition accepts a type is the one used to load (or dump) every occurrence of that type: as root, as element, key, value, field, union member or behind a forward reference, regardless of caches and of the values; this includes handlers inserted before, replacing or appended after the default ones, handlers for basic types (outside unions, which pass basic values through), and handlers that call back into the loader. Types no handler accepts raise a TypeError on load and a ValueError on dump. With raiseconditionerrors disabled a failing condition counts as False, and when enabled the load or dump does not return.',
  ['programs', 'inputs', 'configurations', 'histories'], 'every handler list, every position of the handled type, every value, fresh and reused loaders',
  'Tests insert four handlers and call them at top level only; nested lookups are duplicated in six places of the loader.',
  [DL, DD], [('lookup', DL + ' Loader.index, Loader.load and the inlined lookups'), ('fast paths', DL + ' _iterload, _tupleload, _dictload'), ('dump lookup', DD + ' Dumper.index, dump')], observe=RET + ['return value of dump'])
p('C17', 'Objects load iff all required fields are present; absent ones get defaults',
  'An object type accepts a mapping if and only if every field the constructor requires (no default, no factory, taking part in construction; for TypedDict: required by totality, inheritance and NotRequired) is present and every present field loads. Absent optional fields get exactly their default, a fresh one for factories, and are absent for TypedDict. Entries for fields that do not take part in construction count as extra data, and NamedTuple, dataclass, attrs and total TypedDict definitions with the same fields accept the same inputs and give the same field values.',
  ['inputs', 'programs', 'configurations'], 'every class definition of the four kinds with any mix of required, defaulted, factory and init=False fields, inheritance, every subset of present fields, every mapping kind',
  'Tests define about forty classes with one to three fields and a few subsets of present fields.',
  [DL], [('required field computation', DL + ' _namedtupleload, _dataclassload, _attrload, _typeddictload'), ('presence test and construction', DL + ' _objloader')], observe=RET)
p('C18', 'A value loads the same wherever it sits',
  'Whether a value is accepted for a type, and the value it loads to, do not depend on the position: as the root, as element of a list, set, tuple of either form, as dictionary key or value, as object field of any object kind, as the only non matching member of an Optional, behind a NewType or a forward reference. The same holds for dump.',
  ['inputs', 'programs', 'configurations'], 'every value, leaf type and enclosing position (and combinations of positions), all option combinations, fresh and reused loaders',
  'Handlers are called through separately written fast paths in each container; tests exercise each leaf type in one or two positions.',
  [DL, DD], [('inlined lookups and fast paths', DL + ' _iterload, _tupleload, _dictload, _objloader, _unionload'), ('dump fast path', DD + ' _iteratordump')], observe=RET + ['return value of dump'])
p('C19', 'Concurrent or reentrant use of one loader or dumper does not mix calls up',
  'When several threads load (or dump) through the same Loader (or Dumper), or a handler, converter or constructor calls back into it in the middle of a load, every call gets the outcome it would get alone: results, failures and the location reported by each failure never depend on the interleaving.',
  ['schedules', 'inputs', 'histories'], 'every interleaving of calls at the granularity of source lines, two or more threads, cold and warm caches, reentrant calls at every handler invocation',
  'No test uses threads or calls the same loader from inside a handler.',
  [DL, DD], [('check-then-fill caches', DL + ' Loader.load, _iterload, _objloader, _unionload, _dataclassload'), ('dumper caches', DD + ' dump, _dataclassdump')],
  state=[dict(name='caches', meaning='shared mutable dictionaries of Loader and Dumper', where=DL)], observe=RET + ['return value of dump'])
p('C20', 'The type predicates classify every annotation correctly',
  'For every supported annotation in every spelling (typing or builtin generics, Union, Optional or |, quoted), exactly the predicates of typechecks that apply to it return True and all others return False, without raising, also on values that are not types; uniontypes and literalvalues give exactly the members, is_optional is true exactly for two member unions with None, and notrequiredtype gives the wrapped type.',
  ['inputs', 'programs'], 'every annotation that can be built from the supported constructors, and arbitrary non type objects',
  'Tests call each predicate on a handful of annotations and rarely check that the other predicates are false.',
  [TC], [('predicates', TC + ' is_*'), ('accessors', TC + ' uniontypes, literalvalues, notrequiredtype, discriminatorliterals')], observe=['return values of typechecks functions'])
p('C21', 'Deferred annotations load like evaluated ones',
  'With pep563 enabled, a NamedTuple, dataclass or TypedDict defined at module level with deferred (string) annotations accepts the same inputs and gives the same results and failures as the same definition with evaluated annotations, including references to itself and to classes defined later in the module (NotRequired, which Python itself does not see when deferred, is excluded, as are annotations naming things that do not exist). Dumping gives the same result for both.',
  ['programs', 'inputs', 'configurations'], 'every module level class definition of the three kinds, every input and the other loader options',
  'Two tests with one Optional[int] field each.',
  [DL, DD], [('get_type_hints', DL + ' _namedtupleload, _dataclassload, _typeddictload'), ('dump hints', DD + ' _dataclassdump')], observe=RET + ['return value of dump'])
p('C22', 'Special scalar types convert faithfully and refuse bad text',
  'Paths, IP addresses, networks and interfaces, UUIDs, dates, times, datetimes, timedeltas, patterns and user types added to strconstructed load to exactly what their own constructor (or ISO parser, or seconds, or re.compile) gives for the value, at any position, and whatever that constructor refuses is a typedload exception. Their dump is their documented text, number or list form and loads back to an equal value; a Pattern[str] or Pattern[bytes] (flags excluded, they are not part of the dump) only accepts that kind of text.',
  ['inputs', 'configurations'], 'every special type, every text, number or list in and around their valid ranges, any position, isodates on and off',
  'Tests load one or two texts per type.',
  [DL, DD], [('constructors', DL + ' _strconstructload, _datetimeload, _timedeltaload, _patternload'), ('dump forms', DD + ' _datetimedump, _timedeltadump, _patterndump, strconstructed')], observe=RET + ['return value of dump'])
p('C23', 'Enumerations load by value only and dump to their value',
  'Loading into an enumeration returns a member if and only if the value is that member or equals that member\'s value, or the enumeration annotates its members and the value loads under one of these annotations to something equal to a member\'s value; anything else is refused with a ValueError whose message lists the admissible values when there are at most ten basic ones. Names of members are never accepted in place of values. Dumping a member gives the dump of its value.',
  ['inputs', 'programs', 'configurations'], 'every enumeration (plain, IntEnum, string mixin, annotated, aliases, more than ten members, values of any type) in any position, every value',
  'Tests use four enumerations and eight values.',
  [DL, DD], [('two phase lookup', DL + ' _enumload'), ('dump', DD + ' Enum handler')], observe=RET + ['return value of dump'])
p('C24', 'An argparse.Namespace loads exactly like the dictionary of its attributes',
  'With dictequivalence enabled, a Namespace given at any position for a dictionary or an object type (mangled or not) has the same outcome as the dictionary of its attributes would; with the option disabled it is refused as a value that is not a mapping. It is never accepted where a sequence is required, and the Namespace is not modified.',
  ['inputs', 'configurations'], 'every Namespace, nested ones included, every dictionary and object type, all other options',
  'Two tests at top level with one NamedTuple and one Dict.',
  [DL], [('conversion', DL + ' _dictequivalence, _objloader, _dictload, _mangle_names')], observe=RET)
p('C25', 'A failing union reports every alternative',
  'When no member of a union accepts a value, the exception lists exactly one sub exception per member, each starting with an annotation that names its member and locating the value that member refused, with the category and location that loading the value as that member alone reports; unions nested in members report their own alternatives recursively. The rendered message contains the path of every one of them. A failing load under uniondebugconflict lists the members that refused.',
  ['inputs', 'programs', 'configurations'], 'every failing union of any size nested anywhere, including inside other unions and forward references',
  'One test counts eight paths for an Optional.',
  [DL, EX], [('collection of sub exceptions', DL + ' _unionload'), ('rendering', EX + ' _subexceptions')], observe=['exception.exceptions, str(exception)'])
p('C26', 'Options mean the same however they are given, and calls are isolated',
  'typedload.load(value, type, **options) and typedload.dump(value, **options) behave exactly as a new Loader or Dumper constructed with these options, or with the same options assigned as attributes before first use; options of one object never influence another object or a later call. Unknown options change nothing.',
  ['configurations', 'histories', 'inputs'], 'every option set, given by keyword, constructor or attribute, interleaved over several loaders and dumpers and module level calls',
  'Tests use the three ways in different tests but never compare them or interleave objects.',
  [IN, DL, DD], [('construction', IN + ' load, dump'), ('option storage', DL + ' Loader.__init__'), ('option storage', DD + ' Dumper.__init__')], observe=RET + ['return value of dump'])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for i in P:
        f.write(json.dumps(i) + '\n')
print(len(P), 'properties')
