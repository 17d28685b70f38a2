#!/usr/bin/env python3
"""Writes known_findings.json."""
import json, os
FIXED = '''
C02 784b563 Dict[str, List[...]]: the handler of the value was looked up with the key's variable, keys were loaded with another type's handler
C10 631798b bool for int (and other subclasses of basic types) passed unconverted through List, Tuple and Dict, also with basiccast=False
C22 30808bd Pattern[str] accepted bytes, Pattern[bytes] accepted str, and re compile errors other than re.error leaked
C03 bf565ff a value without length given for a Tuple leaked a raw TypeError
C03 4262f3e OverflowError of dates and timedeltas out of range leaked
C03 fc14955 failonextra with extra keys that are not strings leaked a raw TypeError
C11 aec9591 an unhashable value in the field that tags the members of a union leaked a raw TypeError
C03 6b05aad an enumeration that could not be loaded had a plain ValueError among its exceptions, str() of it crashed
C14 d0ceeb1 classes met inside containers were not known to forward references
C15 7a0f8e4 loading a TypedDict having NotRequired fields altered the annotations of the class
C06 1c15ece dumping a dataclass having forward references raised NameError
C07 bf4b028 attrs factories that take the instance crashed the dump with hidedefault
C24 80230ac a Namespace could not be loaded into a class having mangled names
C20 fdfa70e None used as a type inside containers (Dict[str, None]) was refused as unsupported
C17 cb7552a fields with init=False and ClassVars were passed to the constructor
C06 68a0da5 ClassVar and InitVar were dumped as fields
C03 d7b830e dictionary keys that are not hashable leaked a raw TypeError
C16 b6f7f69 custom handlers of basic types and unions were bypassed inside containers
C04 ce629cb None among the steps of the path, for a NewType
C06 fd772de a tuple containing something that can not be dumped leaked a raw exception
C17 2292135 attrs private attributes and aliases were passed under the wrong parameter name
C24 00e541a a Namespace having attributes named as methods of dict (items, keys) could not be loaded
C06 a7f2c8f classes given instead of objects leaked AttributeError on dump
C03 eb6c0f1 Dict having keys or values of an unsupported type leaked a raw exception
C02 a623d78 failing Dict loads loaded keys and values twice, to find the one that failed (one-shot iterators, side effects)
C17 30fd858 subclasses of NamedTuple classes lost the inherited fields
C25 dc9bb3b the paths of alternatives of nested unions lacked the outer steps
C08 817507b an empty mangled name was ignored when loading a dataclass (dump and attrs classes use it)
C03 f8d4143 objects with attributes (not methods) called keys or items, and classes such as dict, given for an object or dictionary leaked raw errors
C07 2abbf56 attrs fields whose default is an object with an attribute called factory crashed the dump
C13 61c57fa loading Union[A, B] with literals in common changed which type was tried first by a later load of Union[B, A] with the same loader
C03 95944e1 attrs classes whose converter is a callable object, a partial or attr.Converter could not be loaded: an internal error came out
'''
fixed = []
for l in FIXED.strip().split('\n'):
    prop, commit, what = l.split(' ', 2)
    fixed.append('fixed: property=%s %s %s' % (prop, commit, what))
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'known_findings.json'), 'w') as f:
    json.dump(dict(findings=[], fixed=fixed), f, indent=1)
    f.write('\n')
