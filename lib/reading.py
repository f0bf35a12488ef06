"""Reads the text of a multivector back.

  text   ::= term (" + " term)*            term ::= factor (" * " factor)*
  factor ::= number | "(" text ")" | "<" integer ">" | "<" blade ">" | blade | function "(" text ("," text)* ")"
  blade  ::= "1" | name ("^" name)*        (names of basis vectors, in increasing order)

A value is a dict from blades (bit sets) to coefficients; factors multiply, and at most one of them is a blade."""
import math, re

TOKEN = re.compile(r'\s*(?:(-?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan))|([A-Za-z_]\w*)|([()<>^*+,]))')
FUN = {'pow': math.pow, 'abs': abs, 'exp': math.exp, 'log': math.log, 'cos': math.cos, 'sin': math.sin, 'tan': math.tan, 'cosh': math.cosh, 'sinh': math.sinh, 'tanh': math.tanh}


class NotReadable(Exception):
    pass


def power(x, y):
    if x < 0 and y != int(y):                  # the odd roots of negative numbers
        for d in (3, 9, 27):
            k = y * d
            if abs(k - round(k)) < 1e-12: return math.copysign(abs(x) ** y, 1 if round(k) % 2 == 0 else -1)
    return math.pow(x, y)


FUN['pow'] = power


class Reader:
    def __init__(self, txt, names):
        self.names, self.toks, at = names, [], 0
        txt = txt.rstrip()
        while at < len(txt):
            m = TOKEN.match(txt, at)
            if not m: raise NotReadable('%r at %d' % (txt, at))
            self.toks.append(('n', m.group(1)) if m.group(1) else ('w', m.group(2)) if m.group(2) else ('s', m.group(3)))
            at = m.end()
        self.i = 0

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else ('end', '')

    def take(self, want=None):
        t = self.peek()
        if want is not None and t[1] != want: raise NotReadable('expected %r, found %r' % (want, t[1]))
        self.i += 1
        return t

    def text(self):
        v = self.term()
        while self.peek() == ('s', '+'):
            self.take()
            for b, c in self.term().items(): v[b] = v.get(b, 0.0) + c
        return v

    def term(self):
        v = self.factor()
        while self.peek() == ('s', '*'):
            self.take()
            w = self.factor()
            if any(v) and any(w): raise NotReadable('a product of blades')
            r = {}
            for a, x in v.items():
                for b, y in w.items(): r[a | b] = r.get(a | b, 0.0) + x * y
            v = r
        return v

    def blade(self):
        b, last = 0, -1
        while True:
            t = self.take()
            if t[1] not in self.names: raise NotReadable('%r is not a basis vector' % t[1])
            k = self.names.index(t[1])
            if k <= last: raise NotReadable('basis vectors out of order')
            b, last = b | 1 << k, k
            if self.peek() != ('s', '^'): return {b: 1.0}
            self.take()

    def factor(self):
        k, t = self.peek()
        if k == 'n':
            self.take()
            return {0: float(t)}
        if t == '(':
            self.take()
            v = self.text()
            self.take(')')
            return v
        if t == '<':
            self.take()
            v = {0: float(self.take()[1])} if self.peek()[0] == 'n' else self.blade()
            self.take('>')
            return v
        if k == 'w' and t in FUN and t not in self.names:
            self.take()
            self.take('(')
            args = [self.scalar()]
            while self.peek() == ('s', ','):
                self.take()
                args.append(self.scalar())
            self.take(')')
            try: return {0: FUN[t](*args)}
            except (ValueError, OverflowError, TypeError, ZeroDivisionError) as e: raise NotReadable('%s%r: %s' % (t, tuple(args), e))
        if k == 'w': return self.blade()
        raise NotReadable('unexpected %r' % t)

    def scalar(self):
        v = self.text()
        if any(v): raise NotReadable('a multivector where a number is needed')
        return v.get(0, 0.0)


def read(txt, names):
    r = Reader(txt, list(names))
    v = r.text()
    if r.peek()[0] != 'end': raise NotReadable('something follows: %r' % (r.peek()[1]))
    return v
