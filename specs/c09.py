"""C09 Encoded preprocessing configurations round-trip."""
from specs.lib import *

PC = 'codeprep.prepconfig'
KEYS = ['EN_ONLY', 'COM', 'STR', 'SPLIT', 'TABS_NEWLINES', 'CASE']
STRV = [chr(x) for r in ((48, 58), (65, 91), (97, 123)) for x in range(*r)]
# the domain the property talks about (documentation of PrepConfig): values per parameter
VALUES = {'EN_ONLY': ['u', 'U'], 'COM': ['0', 'c'], 'STR': STRV,
          'SPLIT': ['0', 'F', '1', '2', '3', 's', '4', '5', '6', '7', '8', '9'], 'TABS_NEWLINES': ['s', '0'], 'CASE': ['u', 'l']}
NO_LOWER = ['0', 'F', '4', '5', '6', '7', '9']


def member(I, k):
    return I.getattr(I.fn(PC + ':PrepParam'), k)


def valid(vals):
    """is this assignment of parameter values valid (vals: key -> string term)"""
    c = [z3.Or(*[vals[k] == v for v in VALUES[k]]) for k in KEYS]
    c.append(z3.Not(z3.And(vals['CASE'] == 'l', z3.Or(*[vals['SPLIT'] == v for v in NO_LOWER]))))
    return z3.And(*c)


def params(I, name):
    vals = {k: I.fresh(SStr, '%s_%s' % (name, k)) for k in KEYS}
    return vals, DictV(Map(items={member(I, k): vals[k] for k in KEYS}))


def is_rejection(r):
    return exc_name(r.cls).split('.')[-1] in ('ValueError', 'KeyError', 'TypeError', 'AssertionError')


def t_build(I):
    """building: accepted iff every value is a known one and the combination is not contradictory; then encoding and decoding gives an
    equal configuration, and the encoding lists the values"""
    vals, d = params(I, 'p')
    kind, c = I.outcome(I.fn(PC + ':PrepConfig'), [d])
    if kind == 'exc':
        I.ensure('rejection is an error', is_rejection(c))
        I.ensure('only invalid parameters are rejected', z3.Not(valid(vals)))
        return
    I.ensure('only valid parameters are accepted', valid(vals))
    s = I.natives['builtins.str'](I, [c], {})
    for n, k in enumerate(KEYS):
        I.ensure('the encoding determines %s' % k, z3.SubString(to_z3(s), n, 1) == vals[k])
    I.ensure('the encoding has one character per parameter', z3.Length(to_z3(s)) == len(KEYS))
    kind, c2 = I.outcome(I.getattr(I.fn(PC + ':PrepConfig'), 'from_encoded_string'), [s])
    I.ensure('decoding an encoding succeeds', kind == 'ok')
    r = I.call(I.getattr(c, '__eq__'), [c2], {})
    I.ensure('the decoded configuration is equal', z_bool(I.truth(r)))
    for k in KEYS:
        I.ensure('the decoded configuration has the value of %s' % k, eqv(I.method(c2, 'get_param_value', member(I, k)), vals[k]))


def t_distinct(I):
    """two configurations are equal iff their encodings are"""
    v1, d1 = params(I, 'p')
    v2, d2 = params(I, 'q')
    I.assume(valid(v1), valid(v2))
    cls = I.fn(PC + ':PrepConfig')
    c1, c2 = ObjV(cls, {'params': d1}), ObjV(cls, {'params': d2})
    s1, s2 = I.natives['builtins.str'](I, [c1], {}), I.natives['builtins.str'](I, [c2], {})
    e = I.truth(I.call(I.getattr(c1, '__eq__'), [c2], {}))
    I.ensure('equal configurations iff equal encodings', z_iff(e, eqv(s1, s2)))
    I.ensure('equal configurations iff equal parameter values', z_iff(e, z3.And(*[v1[k] == v2[k] for k in KEYS])))


def t_decode(I):
    """decoding an arbitrary string: accepted iff it lists valid values of all parameters"""
    s = I.fresh(SStr, 's')
    kind, c = I.outcome(I.getattr(I.fn(PC + ':PrepConfig'), 'from_encoded_string'), [s])
    vals = {k: z3.SubString(s, n, 1) for n, k in enumerate(KEYS)}
    ok = z3.And(z3.Length(s) == len(KEYS), valid(vals))
    if kind == 'exc':
        I.ensure('rejection is an error', is_rejection(c))
        I.ensure('only invalid encodings are rejected', z3.Not(ok))
    else:
        I.ensure('only valid encodings are accepted', ok)
        for k in KEYS:
            I.ensure('decoded value of %s' % k, eqv(I.method(c, 'get_param_value', member(I, k)), vals[k]))
        I.ensure('decoding then encoding gives the encoding back', eqv(I.natives['builtins.str'](I, [c], {}), s))


def t_missing(k):
    """a configuration lacking a parameter (with or without a stranger in its place) is rejected"""
    def run(I):
        stranger = I.branch(I.fresh(SBool, 'stranger'))
        vals, d = params(I, 'm' + k)
        it = dict(d._c.items)
        del it[member(I, k)]
        if stranger:
            it['other'] = vals[k]
        kind, c = I.outcome(I.fn(PC + ':PrepConfig'), [DictV(Map(items=it))])
        I.ensure('without %s%s: rejected' % (k, ' but with another key' if stranger else ''), kind == 'exc' and is_rejection(c))
    return run


TARGETS = [
    Target('build', 'C09', ['prepconfig.PrepConfig.__init__', 'prepconfig.PrepConfig.__check_invariants', 'prepconfig.PrepConfig.__str__',
                            'prepconfig.PrepConfig.from_encoded_string', 'prepconfig.PrepConfig.__eq__'], t_build),
    Target('distinct', 'C09', ['prepconfig.PrepConfig.__str__', 'prepconfig.PrepConfig.__eq__'], t_distinct),
    Target('decode', 'C09', ['prepconfig.PrepConfig.from_encoded_string', 'prepconfig.PrepConfig.__check_param_number'], t_decode),
]  + [Target('missing-' + k, 'C09', ['prepconfig.PrepConfig.__check_invariants'], t_missing(k)) for k in KEYS]
