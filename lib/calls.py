"""The C++ text of the calls a specification behaviour makes, and how their results are judged."""
from fractions import Fraction
import math
import algebras, reading

# op -> C++ forms; the specification's step chooses one
FORMS = {
    'gp': ['{0} * {1}', 'gp({0}, {1})', 'gp({0}, {1}, space)'],
    'op': ['{0} ^ {1}', 'op({0}, {1})', 'op({0}, {1}, space)'],
    'rp': ['rp({0}, {1})', 'rp({0}, {1}, space)'],
    'dot': ['{0} | {1}', 'dot({0}, {1})', 'dot({0}, {1}, space)'],
    'hip': ['hip({0}, {1})', 'hip({0}, {1}, space)'],
    'lcont': ['{0} < {1}', 'lcont({0}, {1})', 'lcont({0}, {1}, space)'],
    'rcont': ['{0} > {1}', 'rcont({0}, {1})', 'rcont({0}, {1}, space)'],
    'sp': ['sp({0}, {1})', 'sp({0}, {1}, space)'],
    'add': ['{0} + {1}'], 'radd': ['{0} + {1}'],
    'sub': ['{0} - {1}'], 'rsub': ['{0} - {1}'],
    'neg': ['-{0}'],
    'pos': ['+{0}'],
    'smul': ['{0} * {1}', '{0} * scalar({1})', '{1} * {0}', '{0} ^ {1}'],
    'rmul': ['{0} * {1}', 'scalar({0}) * {1}', '{0} ^ {1}', '{0} < {1}'],
    'sdiv': ['{0} / {1}', '{0} / scalar({1})'],
    'reverse': ['reverse({0})', '~{0}'],
    'involute': ['involute({0})'],
    'conjugate': ['conjugate({0})'],
    'takegrade': ['take_grade({0}, {p[0]})', 'take_grade({0}, c<{p[0]}>)', 'take_grade({0}, scalar({p[0]}))'],
    'takelargest': ['take_largest_grade({0})', 'take_largest_grade({0}, 1e-8)'],
    'grade': ['grade({0})', 'grade({0}, 1e-8)'],
    'largestgrade': ['largest_grade({0})', 'largest_grade({0}, 1e-8)'],
    'cp': ['cp({0}, {1})', 'cp({0}, {1}, space)'],
    'dp': ['dp({0}, {1})', 'dp({0}, {1}, 1e-8)', 'dp({0}, {1}, 1e-8, space)'],
    'dual': ['dual({0})', 'dual({0}, I)', 'dual({0}, pseudoscalar(space), space)'],
    'undual': ['undual({0})', 'undual({0}, I)', 'undual({0}, pseudoscalar(space), space)'],
    'dualby': ['dual({0}, {1})', 'dual({0}, {1}, space)'],
    'undualby': ['undual({0}, {1})', 'undual({0}, {1}, space)'],
    'normsqr': ['rnorm_sqr({0})', 'rnorm_sqr({0}, space)'],
    'rnorm': ['rnorm({0})', 'rnorm({0}, space)'],
    'inv': ['inv({0})', 'inv({0}, space)'],
    'igp': ['igp({0}, {1})', 'igp({0}, {1}, space)'],
    'unit': ['unit({0})', 'unit({0}, space)'],
    'gradeT': ['grade({0}, {tol})'], 'largestT': ['largest_grade({0}, {tol})'], 'takelargestT': ['take_largest_grade({0}, {tol})'], 'iszeroT': ['is_zero({0}, {tol})'],
    'isnullT': ['is_null({0}, {tol})', 'is_null({0}, {tol}, space)'], 'isunitT': ['is_unit({0}, {tol})', 'is_unit({0}, {tol}, space)'],
    'dpT': ['dp({0}, {1}, {tol})', 'dp({0}, {1}, {tol}, space)'],
    'isnull': ['is_null({0}, 1e-8)', 'is_null({0}, 1e-8, space)'],
    'isunit': ['is_unit({0}, 1e-8)', 'is_unit({0}, 1e-8, space)'],
    'iszero': ['is_zero({0})', 'is_zero({0}, 1e-8)'],
    'evenv': ['apply_even_versor({0}, {1})', 'apply_even_versor({0}, {1}, space)'],
    'oddv': ['apply_odd_versor({0}, {1})', 'apply_odd_versor({0}, {1}, space)'],
    'hdir': ['flat_direction({0})', 'flat_direction({0}, space)'],
    'hmom': ['flat_moment({0})', 'flat_moment({0}, space)'],
    'hsup': ['flat_support_vector({0})', 'flat_support_vector({0}, space)'],
    'husp': ['flat_unit_support_point({0})', 'flat_unit_support_point({0}, space)'],
    'htrans': ['translate({0}, {1})', 'translate({0}, {1}, space)'],
    'project': ['project({0}, {1})', 'project({0}, {1}, space)'],
    'reject': ['reject({0}, {1})', 'reject({0}, {1}, space)'],
    'konst': ['{p[0]}'], 'econst': ['e(c<{p[0]}>)'], 'erun': ['e(int({0}))', 'e(ga::index_t({0}))'],
    'vecname': ['(basis_vectors_names[{p[1]} - 1] == "{p[0]}" ? 1.0 : 0.0)'],
    'dims': ['double(space_t::vector_space_dimensions)'], 'allvecs': ['double(space_t::basis_vectors)'],
    'mj': ['meet_and_join({0}, {1})', 'meet_and_join({0}, {1}, 1e-8)', 'meet_and_join({0}, {1}, 1e-8, space)'],
    'fmj': ['fast_meet_and_join({0}, {1})', 'fast_meet_and_join({0}, {1}, 1e-8)', 'fast_meet_and_join({0}, {1}, 1e-8, space)'],
    'meetof': ['std::get<0>({0})'], 'joinof': ['std::get<1>({0})'],
    'mjcons': ['(({1} > inv(std::get<0>({0}))) ^ {2}) - std::get<1>({0})'],
    'fjoin': ['fast_join({0}, {1})', 'fast_join({0}, {1}, 1e-8)', 'fast_join({0}, {1}, 1e-8, space)'],
    'plunge': ['plunge({0}, {1})', 'plunge({0}, {1}, 1e-8)', 'plunge({0}, {1}, 1e-8, space)'],
    'fplunge': ['fast_plunge({0}, {1})', 'fast_plunge({0}, {1}, 1e-8)', 'fast_plunge({0}, {1}, 1e-8, space)'],
    'exp': ['exp({0})', 'exp({0}, 1e-8)', 'exp({0}, 1e-8, space)', 'ga::exp({0}, space)'],
    'expinv': ['exp({0}) * exp(-{0})'], 'exprot': ['apply_rotor(exp({0}), {1})', 'apply_rotor(exp({0}, 1e-8), {1})'],
    'expeven': ['apply_even_versor(exp({0}), {1})'],
    'copyF': ['rt::copied<rt::full<space_t, {p[0]}, {p[1]}>, %d>({0})' % k for k in range(6)],
    'tcopyF': ['rt::copied<rt::full<space_t, {p[0]}, {p[1]}>, %d>({0})' % k for k in (6, 7)],
    'scopyF': ['rt::copied<rt::full<space_t, {p[0]}, {p[1]}>, %d>({0})' % k for k in (3, 4, 5)],
    'stcopyF': ['rt::copied<rt::full<space_t, {p[0]}, {p[1]}>, %d>({0})' % k for k in (6, 7)],
    'copyD': ['rt::copied<ga::scaled_basis_blade_t<double, {p[0]}, {p[1]}>, %d>({0})' % k for k in range(6)],
    'tcopyD': ['rt::copied<ga::scaled_basis_blade_t<double, {p[0]}, {p[1]}>, %d>({0})' % k for k in (6, 7)],
    'copyX': ['rt::copied<rt::derived<decltype({0})>, %d>({0})' % k for k in range(8)],
    'refuseF': ['rt::refused<rt::full<space_t, {p[0]}, {p[1]}>, %d>({0}, {tol})' % k for k in range(4)],
    'srefuseF': ['rt::refused<rt::full<space_t, {p[0]}, {p[1]}>, %d>({0}, {tol})' % k for k in (2, 3)],
    'visits': ['rt::visits({0})'], 'visitstop': ['rt::visits({0}, {p[0]})'], 'eachvec': ['rt::eachvec({0}, {p[0]})', 'rt::eachvec({0}, {p[0]})'],
    'native': ['double({0})', 'static_cast<double>({0})', 'rt::native({0})'],
    'fadd': ['{0} + {1}'], 'fsub': ['{0} - {1}'], 'fmul': ['{0} * {1}', '{0} ^ {1}', 'sp({0}, {1})'], 'fdiv': ['{0} / {1}'], 'fneg': ['-{0}'],
    'fpow': ['pow({0}, {1})'], 'fexp': ['ga::exp({0})'],
    'fscale': ['{0} * {1}'], 'fmix': ['{0} * {1} + {2} * {3}'], 'copy': ['{0}'],
    'pseudo': ['pseudoscalar()', 'pseudoscalar(space)'],
    'rotor': ['apply_rotor({0}, {1})', 'apply_rotor({0}, {1}, space)'],
}

for fn in ('sqrt', 'cbrt', 'abs', 'log', 'cos', 'sin', 'tan', 'cosh', 'sinh', 'tanh'): FORMS['f' + fn] = ['%s({0})' % fn, 'ga::%s({0})' % fn]


for short, name in {'pf': 'primal_flat', 'df': 'dual_flat', 'pr': 'primal_round', 'dr': 'dual_round', 'pt': 'primal_tangent', 'dt': 'dual_tangent'}.items():
    for what, tail in {'dir': 'direction', 'loc': 'location', 'size': 'size_sqr'}.items():
        if what != 'size' or short in ('pr', 'dr'): FORMS[short + what] = ['%s_%s({0})' % (name, tail), '%s_%s({0}, space)' % (name, tail)]
# the call takes any number of coordinates, or a pair of iterators
LISTS = {'vec': 'vector', 'evec': 'euclidean_vector', 'point': 'point', 'vecit': 'vector', 'evecit': 'euclidean_vector', 'pointit': 'point'}


def num(x):
    return float(x)


def input_expr(alg, x, at):
    """C++ expression for an input; `at` is the index of its first run-time number. Returns (expr, numbers used)."""
    rep, bl = x['rep'], x['bl']
    if rep in ('V', 'BV'): return ' + '.join('rt::V<%d>(in.v(%d))' % (b, at + j) for j, b in enumerate(bl)), len(bl)
    if rep == 'BS': return ' + '.join('rt::V<%d>(in.v(%d) / 1000)' % (b, at + j) for j, b in enumerate(bl)), len(bl)
    if rep == 'Y': return ' + '.join('rt::V<%d>(in.v(%d)%s)' % (b, at + j, ' * 1e-12' if j == len(bl) - 1 else '') for j, b in enumerate(bl)), len(bl)
    if rep == 'W': return ' + '.join('rt::V<%d>(in.v(%d) / %d)' % (b, at + j, x['g0']) for j, b in enumerate(bl)), len(bl)
    if rep in ('Vi', 'Vf'): return ' + '.join('rt::V<%d, %s>(in.v(%d))' % (b, {'Vi': 'long', 'Vf': 'float'}[rep], at + j) for j, b in enumerate(bl)), len(bl)
    if rep == 'N':
        t = []
        for j, b in enumerate(bl):
            e = algebras.blade_expr(alg, b)
            t.append(('in.v(%d) * %s' % (at + j, e)) if e else 'scalar(in.v(%d))' % (at + j))
        return ' + '.join(t), len(bl)
    if rep == 'K': return ' + '.join('rt::K<%d, %d>()' % (b, k) if k else 'c<0>' for b, k in zip(bl, x['kc'])), 0
    if rep == 'Q': return ' + '.join('c<%d> / c<%d>%s' % (k, x['g0'], ' * rt::K<%d, 1>()' % b if b else '') for b, k in zip(bl, x['kc'])), 0
    if rep == 'D': return 'rt::D<%d, %d>(in.v(%d), in.b(%d))' % (x['g0'], x['g1'], at, at + 1), 2
    if rep == 'DD': return 'rt::D<%d, %d>(in.v(%d), in.b(%d)) + rt::D<%d, %d>(in.v(%d), in.b(%d))' % (x['g0'], x['g1'], at, at + 1, x['g0'], x['g1'], at + 2, at + 3), 4
    if rep == 'U': return 'rt::U<%d, %d>(in.b(%d))' % (x['g0'], x['g1'], at), 1
    if rep in ('F', 'B'):
        return 'rt::F<%d, %d, %d>(%s)' % (algebras.dim(alg), x['g0'], x['g1'], ', '.join('%d, in.v(%d)' % (b, at + j) for j, b in enumerate(bl))), len(bl)
    if rep == 'X':
        t = ['rt::V<%d>(in.v(%d))' % (b, at + j) for j, b in enumerate(bl)]
        t.append('rt::D<%d, %d>(in.v(%d), in.b(%d))' % (x['g0'], x['g1'], at + len(bl), at + len(bl) + 1))
        return ' + '.join(t), len(bl) + 2
    if rep == 'S': return 'in.v(%d)' % at, 1
    if rep == 'I': return 'int(in.v(%d))' % at, 1
    raise ValueError(rep)


TOLERANT = {'gradeT', 'largestT', 'takelargestT', 'iszeroT', 'isnullT', 'isunitT', 'dpT'}


def tolerance(quarters, f):
    """a tolerance, given in quarters, as one of the kinds of number a user may write"""
    if quarters % 4 == 0 and f % 3 == 1: return 'c<%d>' % (quarters // 4)
    if quarters % 4 == 0 and f % 3 == 2: return '%d' % (quarters // 4)
    return ('%rf' if f % 5 == 3 else '%r') % (quarters / 4)


def step_expr(alg, st, reg='r', native=(), outside=False, deftol=False):
    if st['op'] in LISTS:
        args = ['%s%d' % (reg, a - 1) for a in st['a']]
        first = ['', 'space, '][st['f'] % 2]
        fn = ('ga::' if first else '') + LISTS[st['op']]
        if not st['op'].endswith('it'): return '%s(%s%s)' % (fn, first, ', '.join(args))
        return '[&] { %s l{ %s }; return %s(%sl.begin(), l.end()); }()' % (
            'std::array<double, %d>' % len(args) if st['f'] % 3 else 'std::vector<double>', ', '.join(args), fn, first)
    f = FORMS[st['op']]
    if reg == 'q' and not outside and st['op'] == 'takegrade': f = ['take_grade({0}, c<{p[0]}>)']  # numbers as run-time values: see the mode 'outside'
    # operators of native numbers are the language's own
    if all(a - 1 in native for a in st['a']): f = [t for t in f if t[0] != '{' and t[0] not in '-+~'] or f
    if deftol and st['op'] in TOLERANT: f = [f[0].replace(', {tol}', '')]      # the tolerance is left to the library
    t = f[st['f'] % len(f)]
    tol = '%d' % 0
    if len(st['p']) > 2: tol = repr(st['p'][2] / 4)
    if st['op'] in TOLERANT: tol = tolerance(st['p'][0], st['f'])
    if st['op'].endswith('refuseF'): t = f[2 + st['f'] % 2] if len(st['p']) > 2 and len(f) > 2 else t
    return t.format(*['%s%d' % (reg, a - 1) for a in st['a']], p=st['p'], tol=tol)


# results that hold several multivectors: observed through the calls that take them apart
PAIRS = {'mj', 'fmj'}
# results that are fixed up to a factor only
UP_TO_SCALE = {'meetof', 'joinof', 'fjoin', 'plunge', 'fplunge'}


TEXTS = ['o << r%d', 'ga::write(o, r%d, basis_vectors_names)']


def silent(st):
    return st['op'] in PAIRS


def body_lines(alg, profile, p):
    out, at = [], 0
    lazy, outside = p.get('mode') in ('lazy', 'outside'), p.get('mode') == 'outside'
    nested = lazy and p['prog'] % 5 == 2    # every call is evaluated in an inner context
    temp = lazy and p['prog'] % 3 == 0      # the arguments of the context are temporary objects
    given = []
    for k, x in enumerate(p['in']):
        e, c = input_expr(alg, x, at)
        at += c
        own = not outside or (p['prog'] // 4) % (len(p['in']) + 1) != k      # of the context
        if own: given.append((k, e if temp else 'r%d' % k))
        if not own: out.append('auto q%d = %s;' % (k, e))
        elif not temp: out.append('auto r%d = %s;' % (k, e))
    if lazy:
        out.append('auto [lazy, %s] = make_lazy_context_tuple(%s);' % (', '.join('q%d' % k for k, _ in given), ', '.join(e for _, e in given)))
    for j, st in enumerate(p['steps']):
        k = len(p['in']) + j
        if lazy:
            if nested and st['a']:      # evaluated in a context of its own, whose arguments are those of the outer one
                regs = sorted(set(st['a']))
                out.append('auto [inner%d, %s] = make_lazy_context_tuple(%s);' % (k, ', '.join('n%d_%d' % (k, a - 1) for a in regs), ', '.join('q%d' % (a - 1) for a in regs)))
                out.append('auto q%d = inner%d.eval(%s);' % (k, k, step_expr(alg, st, 'n%d_' % k, outside=outside)))
            else: out.append('auto q%d = %s;' % (k, step_expr(alg, st, 'q', outside=outside)))
            out.append('rt::out(in.prog, in.val, %d, lazy.eval(q%d));' % (k, k))
            continue
        if st['op'] == 'text':
            out.append('auto const &r%d = r%d;' % (k, st['a'][0] - 1))
            out.append('{ std::ostringstream o; o.precision(17); %s; rt::text(in.prog, in.val, %d, o.str()); }' % (TEXTS[st['f'] % 2] % (st['a'][0] - 1), k))
            continue
        out.append('auto r%d = %s;' % (k, step_expr(alg, st, native={j for j, x in enumerate(p['in']) if x['rep'] in 'SI'}, deftol=p.get('mode') == 'deftol')))
        if not silent(st): out.append('rt::out(in.prog, in.val, %d, r%d);' % (k, k))
    return out


def body(alg, profile, p):
    return ' '.join(l for l in body_lines(alg, profile, p) if not l.startswith('rt::out'))


def generate(alg, profile, progs):
    src = algebras.prologue(alg)
    for p in progs:
        src += 'static void p%d(rt::In const &in) {\n    using namespace %s;\n' % (p['prog'], alg)
        src += ''.join('    %s\n' % l for l in body_lines(alg, profile, p)) + '}\n'
    src += 'int main(int argc, char **argv) {\n    std::map<int, rt::prog_fn> m;\n' + ''.join('    m[%d] = p%d;\n' % (p['prog'], p['prog']) for p in progs)
    return src + '    return rt::run(argc, argv, m);\n}\n'


def signature(p):
    return '+'.join(x['rep'] for x in p['in']) + ':' + '.'.join(s['op'] for s in p['steps'])


def describe(p, st):
    reps = [p['in'][a - 1]['rep'] if a <= len(p['in']) else 'r' for a in st['a']]
    return '%s(%s)' % (st['op'], ','.join(reps) if len(reps) < 3 else ','.join(sorted(set(reps))))


def series(kind, q):
    """the real numbers the specification names: power series in the rational q"""
    j, t, tot = (0 if kind == 'C' else 1), Fraction(1), Fraction(0)
    while True:
        tot += t
        t = t * q / ((j + 1) * (j + 2))
        j += 2
        if abs(t) < Fraction(1, 10 ** 25) and abs(q) < (j + 1) * (j + 2): return float(tot)


class Unknown(Exception):
    """a real number floating point may not be able to tell"""


REAL = {'fsqrt': math.sqrt, 'fabs': abs, 'fexp': math.exp, 'flog': math.log, 'fcos': math.cos, 'fsin': math.sin, 'ftan': math.tan, 'fcosh': math.cosh, 'fsinh': math.sinh,
        'ftanh': math.tanh, 'fneg': lambda x: -x, 'fcbrt': lambda x: math.copysign(abs(x) ** (1 / 3), x), 'fadd': lambda x, y: x + y, 'fsub': lambda x, y: x - y,
        'fmul': lambda x, y: x * y, 'fdiv': lambda x, y: x / y, 'fpow': lambda x, y: math.pow(x, y)}


def real(t):
    """the value of a term of the specification, when it and everything it is made of has a moderate size"""
    if t['o'] == 'lit': return t['p'] / t['q']
    x = [real(t[k]) for k in 'ab' if k in t]
    try: v = REAL[t['o']](*x)
    except (ValueError, ZeroDivisionError, OverflowError): raise Unknown(t)
    if not abs(v) < 1e3 or (t['o'] in ('fsqrt', 'fcbrt', 'flog', 'fdiv', 'fpow', 'fabs') and t['a']['o'] != 'lit' and abs(x[0]) < 1e-6) or \
       (t['o'] in ('fdiv', 'fpow') and t['b']['o'] != 'lit' and abs(x[1]) < 1e-6): raise Unknown(t)
    return v


def expected(reg):
    if 't' in reg:
        try: return {0: real(reg['t'])}
        except Unknown: return None
    if any('t' in w for w in reg.get('w') or ()):
        try: [real(w['t']) for w in reg['w']]
        except Unknown: return None
    if not reg.get('w'): return {b: c / reg['d'] for b, c in reg['c']}
    exp = {}
    for t in reg['w']:
        f = 1.0
        if 't' in t: f = real(t['t'])
        for k in t.get('k', ()): f *= series(k, Fraction(t['q'][0], t['q'][1]))
        for b, c in t['m']['c']: exp[b] = exp.get(b, 0.0) + f * c / t['m']['d']
    return exp


def compare(check, alg, p, st, g, exp, r, got):
    kind, txt = g
    if exp is None: return None
    if st['op'] == 'text':
        if kind != 'T': return 'unexpected kind of result'
        try: val = reading.read(txt, st['p'])
        except reading.NotReadable as e: return 'the text cannot be read: %s' % e
        return None if check.same(val, exp) else 'the text denotes another multivector: %s' % val
    if kind != 'R': return 'unexpected kind of result'
    comp = check.parse_components(txt.split()) if '?' not in txt else None
    if comp is None: return 'a result that is neither a multivector nor a number'
    if st['op'] in UP_TO_SCALE: return None if check.parallel(comp, exp) else 'not a multiple of the specified value'
    return None if check.same(comp, exp) else 'wrong value'
