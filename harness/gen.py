# -*- coding: utf-8 -*-
"""Helpers shared by the workloads: unique schema ids, class building, raw value pools."""
import itertools
import string
from decimal import Decimal

_counter = itertools.count()


def uid(c, name='obj'):
    """an id never used before in this process, but the same on every run of the same case"""
    return 'http://verif.test/%s/%s/%i/%i/%s' % (c.run.pid.lower(), c.wl, c.index, next(_counter), name)


def pclass(schema, id=None, name='Sub', bases=(), **attrs):
    """an ObjectProtocol class defined the way the documentation shows: a metaclass and a schema"""
    from ngoschema.protocols import SchemaMetaclass
    d = dict(attrs)
    if id:
        d['_id'] = id
    if schema is not None:
        d['_schema'] = schema
    return SchemaMetaclass(name, tuple(bases), d)


def build(id, schema):
    from ngoschema.managers.type_builder import type_builder
    return type_builder.build(id, schema)


WORDS = ['alpha', 'b', 'Gamma', 'delta9', 'x1', 'Zz', 'lorem', 'ipsum']
UNICODE = ['\u00e9t\u00e9', '\u4f60\u597d', '\U0001f600', 'na\u00efve', '\u03b1\u03b2']


def word(rng, n=8):
    return ''.join(rng.choice(string.ascii_lowercase) for _ in range(rng.randint(1, n)))


def text(rng, n=12):
    """plain text: never starts with a backquote, no braces (those are expressions and patterns)"""
    k = rng.random()
    if k < .08:
        return ''
    if k < .2:
        return rng.choice(UNICODE)
    if k < .6:
        return word(rng, n)
    alphabet = string.ascii_letters + string.digits + ' _-.:/#,;!?@()[]<>&"\'=+*'
    return ''.join(rng.choice(alphabet) for _ in range(rng.randint(1, n)))


def integer(rng):
    k = rng.random()
    if k < .5:
        return rng.randint(-10, 30)
    if k < .9:
        return rng.randint(-10 ** 6, 10 ** 6)
    return rng.choice([0, 1, -1, 2 ** 31, -2 ** 31 - 1, 2 ** 63, 10 ** 17])


def decimal(rng):
    return Decimal(rng.randint(-10 ** 6, 10 ** 6)).scaleb(-rng.randint(0, 4))
