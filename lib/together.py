"""Flags that put all the algebras of the library in a program: every header, from the given one on, and a second translation unit."""
import os
NAMES = ['ga1c', 'ga1e', 'ga1h', 'ga1m', 'ga1p', 'ga2c', 'ga2e', 'ga2h', 'ga2m', 'ga2p', 'ga3c', 'ga3e', 'ga3h', 'ga3m', 'ga3p', 'ga4e', 'ga4h', 'ga4p', 'ga5e']


def flags(first, backwards=False):
    names = NAMES[::-1] if backwards else NAMES
    k = names.index(first) + 1
    out = []
    for n in names[k:] + names[:k]: out += ['-include', 'gatl/%s.hpp' % n]
    return tuple(out) + (os.path.join(os.path.dirname(os.path.abspath(__file__)), 'together.cpp'),)
