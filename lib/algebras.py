"""The algebras the harnesses are generated for: how each one is obtained in C++.

Named algebras come from the repository's own headers; the others are made with the public macros and metric space
classes, the way a user would define an algebra of his own. The dimension and metric each must have are in GA.tla."""

NAMED = {}
for d in range(1, 6):
    NAMED['ga%de' % d] = (d, ['e%d' % i for i in range(1, d + 1)])
for d in range(1, 5):
    NAMED['ga%dh' % d] = (d + 1, ['e%d' % i for i in range(1, d + 1)] + ['ep'])
    NAMED['ga%dp' % d] = (d + 1, ['e%d' % i for i in range(1, d + 1)] + ['e0'])
for d in range(1, 4):
    NAMED['ga%dm' % d] = (d + 2, ['e%d' % i for i in range(1, d + 1)] + ['ep', 'em'])
    NAMED['ga%dc' % d] = (d + 2, ['e%d' % i for i in range(1, d + 1)] + ['no', 'ni'])

SIGNED = {'s%d%d%d' % t: t for t in [(1, 1, 1), (0, 2, 0), (0, 3, 0), (0, 0, 3), (0, 1, 2), (2, 1, 0), (1, 2, 0), (2, 1, 1), (1, 2, 2),
                                     (2, 2, 0), (3, 2, 0), (2, 2, 2), (3, 3, 0), (6, 0, 0), (3, 2, 2), (4, 3, 1)]}
GENERAL = {
    'g2': [[2, 1], [1, -3]],
    'g2n': [[0, 3], [3, 0]],
    'g3': [[2, 1, -2], [1, -1, 1], [-2, 1, 3]],
    'g3d': [[2, 0, 0], [0, -3, 0], [0, 0, 5]],
    'g3e': [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    'g3n': [[0, 0, -1], [0, 1, 0], [-1, 0, 0]],
    'g3m': [[1, 0, 0], [0, 1, 0], [0, 0, -1]],
    'g4': [[1, 1, 0, -1], [1, -2, -1, 0], [0, -1, 0, 2], [-1, 0, 2, 2]],
    'r2a': [[2, 1], [1, -1]],
    'r3b': [[0, 0, 2], [0, 0, 1], [2, 1, 2]],
    'r3c': [[1, -2, 2], [-2, 1, 1], [2, 1, -1]],
    'r3d': [[1, 0, 0], [0, 0, -3], [0, -3, 1]],
    'r3e': [[-1, -1, -2], [-1, -1, 0], [-2, 0, -1]],
    'r4f': [[0, 0, -1, 0], [0, 0, 1, 0], [-1, 1, -1, 0], [0, 0, 0, -1]],
    'r3s': [[1, 2, -1], [2, 4, -2], [-1, -2, 1]],
    'g4c': [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, -1], [0, 0, -1, 0]],
}


def dim(alg):
    if alg in NAMED: return NAMED[alg][0]
    if alg in SIGNED: return sum(SIGNED[alg])
    return len(GENERAL[alg])


def vec_names(alg):
    return NAMED[alg][1] if alg in NAMED else ['e%d' % (i + 1) for i in range(dim(alg))]


def space_type(alg):
    if alg in NAMED:
        d, kind = int(alg[2]), alg[3]
        return {'e': 'ga::euclidean_metric_space<%d>', 'h': 'ga::homogeneous_metric_space<%d>', 'p': 'ga::plane_based_metric_space<%d>',
                'm': 'ga::minkowski_metric_space<%d>', 'c': 'ga::conformal_metric_space<%d>'}[kind] % d
    if alg in SIGNED: return 'ga::signed_metric_space<%d, %d, %d>' % SIGNED[alg]
    return 'ga::constant_general_metric_space_t<%s>' % ', '.join(str(x) for row in GENERAL[alg] for x in row)


def prologue(alg):
    """C++ text that makes namespace `alg` available, with `space` in it."""
    if alg in NAMED: return '#include <gatl/%s.hpp>\n#include "gatl_rt.hpp"\n' % alg
    n = dim(alg)
    names = ', '.join('"e%d"' % (i + 1) for i in range(n))
    out = '#include <gatl/ga/core.hpp>\n#include <gatl/ga/util.hpp>\n#include <gatl/ga/extra.hpp>\n'
    if alg in SIGNED: out += '#include <gatl/ga/model/euclidean.hpp>\n'
    else: out += '#include <gatl/ga/model/general.hpp>\n'
    out += 'namespace %s {\n    using namespace ga;\n' % alg
    out += '    using space_t = %s;\n    static space_t const space;\n' % space_type(alg)
    out += '    static std::array<std::string, %d> const basis_vectors_names = { %s };\n' % (n, names)
    out += ''.join('    static auto const e%d = e(c<%d>);\n' % (i + 1, i + 1) for i in range(n))
    out += '    static auto const I = pseudoscalar(space);\n'
    out += '    _GA_CORE_OVERLOAD(space)\n    _GA_UTIL_OVERLOAD(space)\n    _GA_EXTRA_OVERLOAD(space, basis_vectors_names)\n}\n'
    return out + '#include "gatl_rt.hpp"\n'


def blade_expr(alg, b):
    """The blade b as a user writes it with the named vectors, e.g. (e1^e3)."""
    v = [nm for i, nm in enumerate(vec_names(alg)) if b >> i & 1]
    return None if not v else v[0] if len(v) == 1 else '(' + '^'.join(v) + ')'
