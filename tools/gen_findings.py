"""Writes known_findings.txt: the genuine defects that were recorded (with the very input) and those that were repaired.

The findings are checked to be real by the checks themselves, which print a KNOWN-FINDING line for each."""
import json
import os
import re
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
BASE = '0935fae'
NONE = {'t': 'none'}


def codes(s):
    return [ord(c) for c in s]


def what(n, **c):
    return {'t': 'what', 'n': codes(n), 'o': NONE, 'c': [[codes(k), v] for k, v in sorted(c.items())], 'x': []}


def string(s):
    return {'t': 'str', 's': codes(s)}


def finding(prop, clause, says, *ops):
    return 'finding: property=%s clause=%s what=%s case=%s' % (prop, clause, says, json.dumps({'ops': list(ops)}))


def roundtrip(v):
    return {'op': 'roundtrip', 'v': v, 'nonids': False}


def plain(v):
    return {'op': 'plain', 'v': v, 'nonids': False}


def inj(*vs):
    return {'op': 'inj', 'vs': list(vs), 'direct': False}


TRAILING = what('f', x=string('a\\'))
SETLIKE = what('f', x=what('set'))
FSETLIKE = what('f', x=what('frozenset'))
EMPTY = what('f', x={'t': 'set', 'e': []})
FEMPTY = what('f', x={'t': 'fset', 'e': []})
NOWHAT = {'t': 'none', 'nonids': [], 'excl': []}
COPIED = [{'op': 'new', 'ent': {'k': 'cls', 'n': codes('A'), 'base': 0, 'w': NOWHAT, 'slots': False}, 'slots': False},
          {'op': 'new', 'ent': {'k': 'inst', 'cls': 1, 'c': [[codes('a'), {'t': 'int', 's': codes('1'), 'q': codes('1')}]], 'w': NOWHAT, 'room': True}},
          {'op': 'decorate', 'e': 2, 'nonids': [], 'excl': [], 'custom': False, 'inplace': False, 'force': False},
          {'op': 'copy', 'e': 2, 'how': 'copy'},
          {'op': 'set', 'e': 3, 'n': codes('a'), 'v': {'t': 'int', 's': codes('2'), 'q': codes('2')}}]
INT = what('f', x={'t': 'class', 's': codes('int')})
INTLIKE = what('f', x=what('int'))

FINDINGS = [
    finding('C02', 'does_not_parse', "the id of a text ending in a backslash, What('f', {'x': 'a\\\\'}), reads as an unfinished text", roundtrip(TRAILING)),
    finding('C02', 'parsed_differs', "the id of a nested What('set', {}) reads as the empty set", roundtrip(SETLIKE)),
    finding('C02', 'parsed_differs', "the id of a nested What('frozenset', {}) reads as the empty frozenset", roundtrip(FSETLIKE)),
    finding('C04', 'collision', "a nested What('set', {}) and an empty set are rendered alike", inj(SETLIKE, EMPTY)),
    finding('C04', 'collision', "a nested What('frozenset', {}) and an empty frozenset are rendered alike", inj(FSETLIKE, FEMPTY)),
    finding('C04', 'collision', "a nested What('int', {}) and the class int are rendered alike", inj(INTLIKE, INT)),
    finding('C13', 'answer', "a shallow copy (copy.copy) of an object made whatable answers for the object it was copied from", *COPIED),
    finding('C22', 'to_dict', "the id of a text ending in a backslash cannot be parsed, so it cannot be exported", plain(TRAILING)),
    finding('C22', 'to_dict', "a nested What('set', {}) is exported as an empty set", plain(SETLIKE)),
]

# What failed, for the repairs
FAILED = {
    '8a895a5': "Recorder.add replaced the record that a postprocessor had added meanwhile under the same id",
    'ad3d2ff': "parse_whatid(\"f(x=' a')\")['x'] was 'a', without its first blank",
    '9bbee46': "parse_whatid('o=f()') raised a ValueError",
    'c410dd2': "parse_whatid('f(x=nanmean())') was not accepted, as nan was read first",
    '2253015': "id2what(What('f', {'x': frozenset([1])}).id())['x'] was a set",
    '71c8573': "parse_whatid(\"f(x=<class 'str'>)\") failed",
    'cfd1c0b': "the id of What('f', {'x': \"it's\"}) was parsed back with the backslash",
    'bd00459': "What('f', {'x': {1: 2, 'a': 3}}).flatten(collections_too=True) raised a TypeError",
    '6648225': "What('f', {'x': [1]}).get(('x', 5)) raised an IndexError",
    'f55718b': "What('f', {'x': What('g', {'y': 1})}).positional_id() had the 1 twice",
    '3336d75': "id2dict(\"f(x=[g()])\") had a configuration object in the list",
    '75c5a2c': "whatareyou(obj, exclude_prefix='') had no parameters at all",
    '376cef9': "whatable(non_id_keys=['b'])(f).what().id() had b",
    '8ce75e9': "f.what().set('b', 2) changed what the next f.what() said",
    'b825fd5': "What('f', {'x': C}).id() raised a TypeError for a class C made whatable",
    '8178c10': "callable2call(partial(f, 1)) failed if the first parameter of f had a default",
    '05a4add': "whatareyou(obj) failed for an object with a method __call__",
    '1431be1': "whatareyou(obj) failed for an object with a slot never assigned",
    'ac5d329': "whatareyou(frozenset([1])).id() was frozenset()",
    '6f613a0': "whatareyou(OrderedDict([('b', 1), ('a', 2)])) had lost the order",
    '49a9384': "registry.remove(nickname=n, what=w) failed for the entry n, w",
    '77ed351': "Recorder(id_extractor=None).add([1, 2], x=[3, 4]) raised a TypeError",
    'e6a53eb': "changing the list of postprocessors given to a Recorder changed the Recorder, and adding to the Recorder changed the list",
    '3b7b3fd': "Recorder(id_extractor=None).add(iter(['a', 'b']), x=[3, 4]) added nothing",
    '54a31e5': "match_whatids(ids, template, ignored_keys=iter(['x'])) only ignored x for the template",
    '9f9cd88': "match_whatids(['f(x=g(a=2))'], 'f(x=g(a=1))', recursive=False) matched",
    '164872c': "a sklearn object without get_params failed to give its id",
    '67a62fe': "maybe_import('x', None, 'os', 'sys') gave sys, the last variant",
    'd0320a9': "maybe_import_member('x.path', True, None, 'os') raised a TypeError",
    'add2d48': "oldid2what('A#x={}') raised an IndexError",
    '6ecf8e7': "an object with a function as its what was not whatable",
    '39a3e73': "whatable(f) replaced an f.what of the user when modifying f in place",
    'b6d2451': "What('f', {'x': 'abc'}).get(('x', 0)) was 'a'",
    '43665e5': "Recorder().add(ids=What('f', {})) raised KeyError: 0",
    'f519927': "Recorder(id_extractor=None) with the ids True and 1.5 had the ids 1.0 and 1.5 as a data frame",
    '13f7191': "p = partial(f, 1); p.attribute = 1; callable2call(partial(p, 2)) bound 2 to the first parameter",
    'a5be28a': "callable2call(partial(whatable(f), 1)) did not see the parameters of f",
    '83c3c27': "whatable(excludes=iter(['a'])) excluded a only the first time",
    '9b0b75c': "a configuration captured with call2what() had as parameters the dictionary of locals of the caller itself",
    '3909c52': "decorate_some(foo=iter([d])) decorated only the first class",
    'd55e854': "ensure_has_positional_args(f, args=iter(['z'])) did not name the missing argument",
    '9cb5805': "ensure_has_positional_args(partial(f), args=['z']) raised an AttributeError",
    'df5f387': "maybe_import of a module that raises a ValueError raised it",
    '0cc2325': "maybe_import('no_such_module').module did not raise",
    'e24a598': "import_submodules('os.path') raised an AttributeError, and submodules with the name of another module or failing were mistaken",
    'ac4c95c': "the ids of np.arange(6.)[::2][:1] and np.arange(1.) were different",
    'c6fba4d': "the id of a masked array failed, or did not depend on the mask",
    'd177416': "the id of a np.random.Generator did not change when drawing from it",
    '0c1ae1f': "the order in memory of a mask changed the id of a masked array",
    'ddd0727': "np.array([{1, 2}], dtype=object) and np.array([{2, 1}], dtype=object) had different ids",
    'ffc217d': "object arrays of OrderedDict([('a', 1), ('b', 2)]) and OrderedDict([('b', 2), ('a', 1)]) had the same id",
    'd863efe': "object arrays of equal tuples, or strings, had different ids if one had the same object twice",
    'a8c25a3': "partial(max, 3) was identified as max(), and partial(Model, 1) and partial(Model, 2) both as Model()",
    '2aeec20': "what2id of an object whose parameters raise AttributeError when rendered gave another id, and that of objects with an attribute id, or of classes with a method id, raised TypeError",
    '21bff14': "What('f', {'x': 'f\\udce9.txt'}).id(maxlength=5) raised an AttributeError",
    '1721cf4': "What('f', {'x': 1}).id() raised an ImportError without numpy, and has_pandas() was True without pandas",
    '9e7a99b': "parsing valid ids in two threads at the same time raised NoMatch or AttributeError",
    'cb76504': "a class of the user called like a registered one of sklearn was identified as that one",
}


def main():
    log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', BASE + '..HEAD'],
                         stdout=subprocess.PIPE, universal_newlines=True).stdout
    lines = ['# Genuine defects.  "finding:" lines are not repaired, and are told by their very input (case);',
             '# "fixed:" lines were repaired in /repo, and suppress nothing.']
    lines += FINDINGS
    for line in log.splitlines():
        h, says = line.split(' ', 1)
        for prop in re.findall(r'C\d\d', says):
            lines.append('fixed: property=%s %s %s' % (prop, h, FAILED[h[:7]]))
    with open(os.path.join(HERE, '..', 'known_findings.txt'), 'w') as f:
        f.write('\n'.join(lines) + '\n')


if __name__ == '__main__':
    main()
