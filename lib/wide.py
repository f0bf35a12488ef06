"""Conformance of spaces of many dimensions (spec/Wide.tla): programs over single terms."""
import os
import algebras

BINARY = {'gp': ['gp(%s, %s)', '%s * %s', 'gp(%s, %s, space)'], 'op': ['op(%s, %s)', '%s ^ %s', 'op(%s, %s, space)'], 'rp': ['rp(%s, %s)', 'rp(%s, %s, space)'],
          'dot': ['dot(%s, %s)', '%s | %s', 'dot(%s, %s, space)'], 'hip': ['hip(%s, %s)', 'hip(%s, %s, space)'], 'lcont': ['lcont(%s, %s)', '%s < %s', 'lcont(%s, %s, space)'],
          'igp': ['igp(%s, %s)', 'igp(%s, %s, space)'], 'evenv': ['apply_even_versor(%s, %s)', 'apply_even_versor(%s, %s, space)'], 'oddv': ['apply_odd_versor(%s, %s)', 'apply_odd_versor(%s, %s, space)'],
          'rotor': ['apply_rotor(%s, %s)', 'apply_rotor(%s, %s, space)'], 'project': ['project(%s, %s)', 'project(%s, %s, space)'], 'reject': ['reject(%s, %s)', 'reject(%s, %s, space)'],
          'cp': ['cp(%s, %s)', 'cp(%s, %s, space)'], 'dp': ['dp(%s, %s)', 'dp(%s, %s, 1e-8)', 'dp(%s, %s, 1e-8, space)'],
          'rcont': ['rcont(%s, %s)', '%s > %s', 'rcont(%s, %s, space)'], 'sp': ['sp(%s, %s)', 'sp(%s, %s, space)']}
UNARY = {'neg': ['-%s'], 'reverse': ['reverse(%s)', '~%s'], 'involute': ['involute(%s)'], 'conjugate': ['conjugate(%s)'], 'normsqr': ['rnorm_sqr(%s)', 'rnorm_sqr(%s, space)'],
         'inv': ['inv(%s)', 'inv(%s, space)'], 'dual': ['dual(%s)', 'dual(%s, I)'], 'undual': ['undual(%s)', 'undual(%s, pseudoscalar(space), space)'],
         'grade': ['grade(%s)', 'grade(%s, 1e-8)'], 'takegrade': ['take_grade(%s, c<{g}>)', 'take_grade(%s, {g})'], 'takelargest': ['take_largest_grade(%s)'], 'visit': ['%s + c<0>', '%s']}


def mask(b): return sum(1 << (i - 1) for i in b)


def literal(x):
    m = mask(x['b'])
    return {'V': 'rt::V<0x%xull>(%d.0)' % (m, x['k']), 'K': 'rt::K<0x%xull, %d>()' % (m, x['k']), 'D': 'rt::D<%d, %d>(%d.0, 0x%xull)' % (x['g0'], x['g1'], x['k'], m),
            'U': 'rt::U<%d, %d>(0x%xull)' % (x['g0'], x['g1'], m)}[x['rep']]


def name(pqr): return 's%d_%d_%d' % pqr


def body(p):
    out = ['auto r%d = %s;' % (i + 1, literal(x)) for i, x in enumerate(p['in'])]
    n = len(p['in'])
    for j, st in enumerate(p['steps']):
        r = p['regs'][n + j]
        if r['d'] == 0: continue
        f = (BINARY if st['op'] in BINARY else UNARY)[st['op']]
        t = f[(p['id'] + j) % len(f)]
        if st['op'] == 'takegrade': t = t.replace('{g}', str(len(p['in'][st['a'][0] - 1]['b'])))
        out.append('rt::wide(%d, %d, %s);' % (p['id'], n + j, t % tuple('r%d' % a for a in st['a'])))
    return out


def generate(pqr, progs):
    a = name(pqr)
    algebras.SIGNED[a] = pqr
    src = algebras.prologue(a) + '''namespace rt {
    template<typename R> void wide(int prog, int k, R const &r) {
        char t[64];
        std::snprintf(t, sizeof t, "W %d %d", prog, k); buffer() += t;
        if constexpr (ga::is_clifford_expression_v<R>)
            ga::for_each_component(r, [&](ga::bitset_t b, auto const &v, ga::entry_source_t, ga::entry_source_t, bool &) { std::snprintf(t, sizeof t, " %llu:%.17g", (unsigned long long)b, (double)v); buffer() += t; });
        else { std::snprintf(t, sizeof t, " 0:%.17g", (double)r); buffer() += t; }
        buffer() += "\\n";
        flush();
    }
}
using namespace ''' + a + ';\n'
    for p in progs: src += 'static void program_%d() {\n    %s\n}\n' % (p['id'], '\n    '.join(body(p)))
    return src + 'int main() {\n    %s\n    std::puts("END");\n}\n' % '\n    '.join('program_%d();' % p['id'] for p in progs)
