"""What each property's check explores."""
import together
from engine import Check


def axioms(k, law, quick=(('g3', 1), ('s111', 1)), more=(('g4', 0), ('ga2c', 0), ('s211', 0), ('g2', 3))):
    """TLC: the definitions of the specification have the laws that make them what they are called"""
    for alg, mx in list(quick) + (list(more) if k.thorough else []): k.tlc_later('Laws', dict(AlgName=alg, MaxC=mx), inv=(law,), name='Laws %s %s' % (alg, law))


def c01():
    k = Check('C01')
    axioms(k, 'CliffordLaws')
    ops = ['gp']
    for alg, modes in [('ga3e', ['VV', 'KK', 'DD', 'VD', 'DV', 'RR']), ('s111', ['VV', 'KK', 'DD', 'GG']), ('s211', ['DD', 'GG', 'KD', 'DK']), ('ga2c', ['VV', 'KK']),
                       ('ga3m', ['DD']), ('ga4p', ['DD']), ('s222', ['DD']), ('g3', ['VV', 'KK']), ('g2n', ['VV', 'KK']), ('g3n', ['VV'])]:
        k.tables(alg, ops, modes, split=2)
    for alg, np in [('ga3e', 40), ('s211', 30), ('ga3m', 20)]: k.session(alg, 'products', ops, nprog=np)
    scalars(k, ('gp', 40))
    k.tlc_later('WideLaws', dict(AlgName='s211', P=2, Q=1, R=1), inv=('Same',), name='WideLaws s211')
    wide(k, ['gp'])
    k.finish('every pair of basis blades per metric and representation, plus random sums')


def sessions(k, profile, quick, more=(), ops=('gp',), factor=4, **kw):
    """quick: (algebra, programs); the thorough tier explores `factor` times as many programs, in more algebras, for two more seeds"""
    for alg, np in quick: k.session(alg, profile, ops, nprog=np * (factor if k.thorough else 1), nval=8 if k.thorough else 4, **kw)
    if k.thorough:
        for alg, np in list(more) + list(quick):
            for sd in (1, 2): k.session(alg, profile, ops, nprog=np * 2, nval=6, seed=k.seed + 40 * sd, **kw)


def wide(k, ops=(), unops=(), n=32):
    """spaces of many dimensions, up to the highest index of a basis vector that bitsets hold: products and operations on single terms"""
    for i, pqr in enumerate([(30, 8, 2), (63, 0, 0), (12, 3, 1)] + ([(31, 31, 1), (9, 0, 0), (20, 20, 20), (1, 61, 1)] if k.thorough else [])):
        k.wide(pqr, list(ops), list(unops), n * (4 if k.thorough else 1), seed=k.seed + i)


def scalars(k, *groups):
    """numbers and scalars of every kind as operands, in every form of each call; groups: (calls, programs that try all kinds)"""
    for ops, np in groups:
        for alg in ['ga3e'] + (['s211', 'g3', 'ga2c'] if k.thorough else []): k.session(alg, 'scalars', ops.split(), nprog=np, nval=4 if k.thorough else 2, per_tu=14)


MORE = [('ga2e', 40), ('ga4e', 20), ('ga2h', 30), ('ga2p', 40), ('ga3p', 20), ('ga2m', 20), ('ga1c', 40), ('s120', 40), ('s020', 40), ('s012', 40), ('g2', 40), ('g3d', 40)]


def c02():
    k = Check('C02')
    axioms(k, 'MetricFreeLaws')
    ops = ['op', 'rp']
    for alg, modes in [('ga3e', ['VV', 'KK', 'DD', 'VD', 'DV', 'RR']), ('ga3p', ['VV', 'DD']), ('s211', ['DD', 'GG', 'KD', 'DK']), ('ga2c', ['VV', 'KK']),
                       ('ga2m', ['VV']), ('s222', ['DD']), ('g3', ['VV', 'KK']), ('ga5e', ['DD'])]:
        k.tables(alg, ops, modes, split=2)
    sessions(k, 'products', [('ga3e', 40), ('ga3m', 20), ('g3', 20), ('ga2c', 20)], [('ga4e', 30), ('ga3c', 20), ('s320', 20)], ops)
    if k.thorough:
        for alg, modes in [('ga4e', ['VV', 'KK', 'DD', 'GG']), ('s330', ['DD']), ('s431', ['DD']), ('ga3c', ['DD']), ('g4', ['VV']), ('s322', ['DD'])]: k.tables(alg, ops, modes if alg != 'ga3c' else [], split=8)
    scalars(k, ('op rp', 80))
    wide(k, ['op', 'rp'])
    k.finish('every pair of basis blades per metric and representation, plus random sums')


def c03():
    k = Check('C03')
    axioms(k, 'ContractionLaws')
    ops = ['dot', 'hip', 'lcont', 'rcont', 'sp']
    for alg, modes in [('ga3e', ['VV', 'DD']), ('s111', ['RR']), ('s211', ['DD', 'GG']), ('s111', ['KK', 'VD', 'DV']), ('ga2c', ['VV']), ('g3', ['VV']), ('g2n', ['KK']), ('s222', ['DD'])]:
        k.tables(alg, ops, modes, split=2)
    sessions(k, 'products', [('ga3e', 50), ('s211', 50), ('g3', 30)], [('ga3m', 30), ('ga2c', 50), ('g4', 10), ('ga3p', 30)], ops)
    if k.thorough:
        for alg, modes in [('s211', ['VV', 'KK']), ('ga3m', ['DD']), ('ga3p', ['VV']), ('s322', ['DD']), ('g4', ['VV']), ('s330', ['DD'])]: k.tables(alg, ops, modes, split=8)
    scalars(k, ('dot hip lcont rcont sp', 200))
    wide(k, ['dot', 'hip', 'lcont', 'rcont', 'sp'])
    k.finish('every pair of basis blades per metric and representation, plus random sums')


def c04():
    k = Check('C04')
    sessions(k, 'reps', [('ga3e', 70), ('s211', 50), ('g3', 35), ('ga2c', 25)], MORE)
    sessions(k, 'fractions', [('ga3e', 45), ('g3', 15), ('ga2c', 15)], MORE)
    sessions(k, 'runtime', [('ga3e', 36), ('s211', 18)], [('ga2e', 48), ('ga3p', 48)])
    k.finish('every operation on the same multivectors in different representations')


def c05():
    k = Check('C05')
    sessions(k, 'lazy', [('ga3e', 60), ('s211', 45), ('ga2c', 45), ('g3', 40)], MORE)
    sessions(k, 'lazy', [('ga2e', 40), ('s111', 40)], flags=('-O1',))
    sessions(k, 'lquotients', [('ga3e', 50)])
    sessions(k, 'outside', [('ga3e', 80), ('s211', 40)], [('ga2e', 60), ('s111', 60)])
    sessions(k, 'lruntime', [('ga3e', 48), ('s211', 24)], [('ga2e', 48), ('ga3p', 48)])
    k.finish('whole expressions of several operations, every intermediate result evaluated at once from the arguments')


def c06():
    k = Check('C06')
    axioms(k, 'InvolutionLaws')
    for alg in ('ga3e', 's600', 's322'): k.utables(alg)
    sessions(k, 'signs', [('ga3e', 63), ('s211', 42), ('s600', 21), ('g3', 42), ('ga3m', 42)], MORE)
    scalars(k, ('reverse involute conjugate', 21))
    wide(k, ['gp'], ['neg', 'reverse', 'involute', 'conjugate'])
    k.finish('each conjugation of each representation, twice, and of products')


def c07():
    k = Check('C07')
    sessions(k, 'linear', [('ga3e', 98), ('s211', 56), ('g3', 49)], MORE)
    sessions(k, 'numbers', [('ga3e', 56), ('ga2c', 56)], MORE)
    sessions(k, 'quotients', [('ga3e', 75)], [('g3', 50), ('s211', 50), ('ga2c', 50)])
    scalars(k, ('add sub', 80))
    k.finish('sums, differences and multiples of every pair of representations')


def c08():
    k = Check('C08')
    sessions(k, 'reals', [('ga2e', 168)], [('ga3e', 60), ('ga2c', 60), ('g3', 60)])
    sessions(k, 'quotients', [('ga2e', 25)])
    sessions(k, 'lreals', [('ga2e', 210)], [('ga3e', 60), ('ga2c', 60), ('g3', 60)])
    k.finish('scalar expressions of every function over run-time numbers, constants and constant fractions, immediate and deferred')


def c09():
    k = Check('C09')
    axioms(k, 'NormLaws')
    sessions(k, 'versor', [('ga3e', 64), ('s211', 48), ('ga2c', 40), ('g3', 32), ('ga2m', 40)], MORE)
    sessions(k, 'nulls', [('ga3e', 24), ('s211', 16)], [('g3', 24), ('ga2c', 24)])
    scalars(k, ('normsqr rnorm inv unit isnull isunit iszero', 49), ('igp', 40))
    wide(k, ['gp', 'igp'], ['normsqr', 'inv'])
    k.finish('norms, inverses and units of vectors, blades, products of vectors and general elements')


def c10():
    k = Check('C10')
    axioms(k, 'DualLaws')
    sessions(k, 'dual', [('ga3e', 84), ('s320', 28), ('ga2c', 40), ('ga2p', 42), ('g3', 28)], MORE)
    scalars(k, ('dual undual', 14), ('dualby undualby', 80))
    wide(k, ['op'], ['dual', 'undual'])
    k.finish('duals and undualisations by the pseudoscalar and by other blades')


def c11():
    k = Check('C11')
    axioms(k, 'SandwichLaws')
    sessions(k, 'sandwich', [('ga3e', 60), ('s211', 36), ('ga2c', 30), ('g3', 24), ('ga2m', 30)], MORE)
    scalars(k, ('evenv oddv rotor', 120))
    wide(k, ['evenv', 'oddv', 'rotor'], n=48)
    k.finish('even and odd versors and rotors applied to every representation')


def c12():
    k = Check('C12')
    axioms(k, 'CommutatorLaws')
    sessions(k, 'grade', [('ga3e', 63), ('s211', 42), ('ga2c', 21), ('g3', 42)], MORE)
    sessions(k, 'grade', [('ga2e', 42), ('s111', 42)], flags=('-O1',))
    sessions(k, 'tolerance', [('ga3e', 48), ('s211', 24)], [('g3', 48), ('ga2c', 48), ('ga2e', 48)])
    sessions(k, 'small', [('ga3e', 24)], [('s211', 24), ('g3', 24)])
    k.session('ga3e', 'opposite', nprog=4, nval=1)
    scalars(k, ('cp dp', 80), ('takegrade takelargest grade largestgrade', 28))
    wide(k, ['gp', 'op', 'cp', 'dp'], ['grade', 'takegrade', 'takelargest'])
    k.finish('grade queries and selections, commutator and delta products')


def c13():
    k = Check('C13')
    nv = 16 if k.thorough else 8
    f = 3 if k.thorough else 1
    for alg, np in [('ga2e', 24), ('ga3e', 56)]: k.session(alg, 'meet', nprog=np * f, nval=nv)
    k.session('ga1e', 'meet', nprog=8, nval=nv)
    k.session('ga4e', 'meetparts', nprog=9 * f, nval=nv + 2, per_tu=1)
    if k.thorough: k.session('ga3e', 'meet', nprog=112, nval=nv, seed=k.seed + 40)
    k.finish('pairs of blades of every grade that share directions, are nested, equal, or in general position')


def c14():
    k = Check('C14')
    sessions(k, 'exp', [('ga3e', 36), ('s211', 27), ('ga2c', 18), ('g3', 18)], [('ga2e', 36), ('ga4e', 27), ('ga2m', 27), ('s320', 18), ('s030', 27), ('g2n', 27), ('ga3p', 18), ('ga3m', 18)])
    sessions(k, 'smallexp', [('ga3e', 12), ('s211', 8), ('g3', 8)])
    scalars(k, ('exp', 7))
    k.finish('exponentials of scalars and blades of every representation and sign of the square, and the rotors they make')


def c15():
    k = Check('C15')
    sessions(k, 'copies', [('ga3e', 80), ('s211', 50), ('ga2c', 50), ('g3', 30), ('ga5e', 10)], [('ga2e', 60), ('ga4e', 40), ('g2n', 40), ('ga3m', 20)])
    wide(k, ['gp', 'op'], ['visit'])
    k.finish('copies of every representation into containers of every range of grades, checked copies, visits')


LAWS = {'homogeneous': ['HomogeneousLaws'], 'round': ['PointLaws', 'RoundLaws', 'PairLaws', 'FlatLaws', 'TangentLaws'], 'euclidean': ['ProjectionLaws'], 'plane': ['PlaneLaws']}


def laws(k, kind, quick, more=()):
    """TLC: the parameters of the specification are the geometric ones, over grids of objects"""
    for alg, mx in list(quick) + (list(more) if k.thorough else []): k.tlc_later('ModelLaws', dict(AlgName=alg, MaxC=mx), inv=LAWS[kind], name='ModelLaws %s 0..%d' % (alg, mx))


def c16():
    k = Check('C16')
    laws(k, 'homogeneous', [('ga1h', 2), ('ga2h', 1)], [('ga2h', 2), ('ga3h', 1)])
    sessions(k, 'flats', [('ga3h', 80), ('ga2h', 56), ('ga1h', 24), ('ga4h', 16)])
    for alg in ('ga1h', 'ga2h', 'ga3h', 'ga4h'): sessions(k, 'vectors', [(alg, 12)])
    k.finish('flats of every dimension, built from points and directions or given directly')


def c17():
    k = Check('C17')
    laws(k, 'round', [('ga1c', 2), ('ga2c', 0)], [('ga2c', 1)])
    sessions(k, 'rounds', [('ga2c', 88), ('ga1c', 55)])
    if k.thorough: k.session('ga3c', 'rounds', nprog=66, per_tu=1, nval=6)
    for alg in ('ga1c', 'ga2c', 'ga3c'): sessions(k, 'vectors', [(alg, 12)])
    k.finish('points, pairs, circles, spheres, flats and tangents, primal and dual')


def c18():
    k = Check('C18')
    laws(k, 'round', [('ga1m', 1)], [('ga1m', 2), ('ga2m', 0)])
    sessions(k, 'rounds', [('ga2m', 22)], factor=5, per_tu=1)
    sessions(k, 'rounds', [('ga1m', 55)])
    for alg in ('ga1m', 'ga2m', 'ga3m'): sessions(k, 'vectors', [(alg, 12)])
    k.finish('the programs of C17 in the Minkowski model, and the laws of both models')


def c19():
    k = Check('C19')
    laws(k, 'euclidean', [('ga2e', 2), ('ga3e', 1)], [('ga3e', 2)])
    laws(k, 'plane', [('ga2p', 1)], [('ga3p', 0)])
    sessions(k, 'project', [('ga3e', 60), ('ga2e', 20), ('ga4e', 15), ('ga1e', 5)])
    sessions(k, 'planes', [('ga2p', 24), ('ga1p', 16), ('ga3p', 8)])
    for alg in ('ga1e', 'ga2e', 'ga3e', 'ga4e', 'ga5e', 'ga1p', 'ga2p', 'ga3p', 'ga4p', 's211'): sessions(k, 'vectors', [(alg, 8)])
    scalars(k, ('project reject', 80))
    k.finish('projections and rejections, vectors in every model, compositions of reflections')


def c20():
    k = Check('C20')
    sessions(k, 'text', [('ga3e', 120), ('ga2c', 40), ('ga2m', 30), ('ga1p', 20), ('ga4h', 20), ('s111', 30), ('g3', 30)] + [(a, 5) for a in 'ga1e ga2e ga4e ga5e ga1h ga2h ga3h ga2p ga3p ga4p ga1m ga3m ga1c ga3c'.split()], [('ga1e', 20), ('ga5e', 20), ('ga3c', 20), ('ga3p', 20), ('ga1h', 20), ('ga4p', 20)])
    k.finish('the text of multivectors in every representation, of results and of symbolic constants, read back')


def c21():
    k = Check('C21')
    small = ['ga1e', 'ga2e', 'ga1h', 'ga1p', 'ga1m', 'ga1c', 's111', 'g2n']
    mid = ['ga3e', 'ga4e', 'ga2h', 'ga3h', 'ga2p', 'ga3p', 'ga2m', 'ga2c', 's211', 'g3']
    big = ['ga5e', 'ga4h', 'ga4p', 'ga3m', 'ga3c']
    sessions(k, 'constants', [(a, 10) for a in small] + [(a, 16) for a in mid] + [(a, 12) for a in big], per_tu=10)
    k.finish('every named constant of every algebra, alone and multiplied with the others')


def c22():
    k = Check('C22')
    for alg, modes in [('g2', ['VV']), ('g3e', ['DD']), ('r2a', ['VV', 'KK']), ('r3c', ['VV']), ('r3s', ['VV']), ('r3b', ['KK']), ('g4', ['VV'])]: k.tables(alg, ['gp', 'lcont', 'sp'], modes if alg != 'g3e' else ['VV'], split=8 if alg == 'g4' else 2)
    sessions(k, 'versor', [('g3m', 16), ('r2a', 16), ('r3b', 12), ('g2n', 12)], [('r3e', 16)])
    sessions(k, 'sandwich', [('g3d', 12), ('r3b', 12), ('r3e', 12)], [('g4c', 12)])
    sessions(k, 'dual', [('g3e', 14), ('r3d', 14), ('g2n', 14)], [('g4c', 14)])
    sessions(k, 'products', [('r3c', 16), ('r3s', 16), ('g3d', 12)], [('r4f', 16), ('g4c', 16)], ['gp', 'dot', 'sp', 'lcont'])
    k.finish('arbitrary symmetric matrices: orthogonal, not orthogonal, indefinite and singular')


BINARY, UNARY = ['gp', 'op', 'rp', 'dot', 'hip', 'lcont', 'rcont', 'sp'], ['neg', 'reverse', 'involute', 'conjugate', 'normsqr', 'inv', 'dual', 'undual', 'grade', 'takegrade', 'takelargest', 'visit']


def c23():
    k = Check('C23')
    index, integral, floating = ['-DGA_MAX_BASIS_VECTOR_INDEX=%d' % i for i in (3, 7, 15, 31)], ['-DGA_DEFAULT_INTEGRAL_TYPE=std::int%d_t' % i for i in (16, 32)], '-DGA_DEFAULT_FLOATING_POINT_TYPE=__float80'
    wider, tolerances = ['-DGA_MAX_BASIS_VECTOR_INDEX=%d' % i for i in (8, 16, 32)], ('-DGA_DEFAULT_DBL_TOLERANCE=1.5', '-DGA_DEFAULT_FLT_TOLERANCE=2.5f')
    for pqr, flag in [((7, 0, 0), index[1]), ((3, 3, 1), index[1]), ((10, 4, 1), index[2]), ((31, 0, 0), index[3]), ((15, 15, 1), index[3]), ((8, 0, 0), wider[0]), ((9, 5, 2), wider[1]), ((20, 10, 2), wider[2])]: k.wide(pqr, BINARY, UNARY, 24 * (4 if k.thorough else 1), flags=(flag,))
    for alg, modes in [('ga3c', ['TT']), ('g3', ['VV']), ('s211', ['DD'])]: k.tables(alg, ['gp', 'lcont', 'sp'], modes, split=3, flags=(index[1],))
    small = [('ga3e', 'reps', 20), ('ga3e', 'lazy', 15), ('ga3e', 'fractions', 15), ('ga2e', 'reals', 28), ('ga3e', 'runtime', 12), ('ga3e', 'text', 14)]
    for flags, more in [((index[1],), [('ga3c', 'products', 8), ('ga2c', 'rounds', 8), ('g3', 'versor', 8), ('ga3e', 'meet', 8)]), ((index[0],), []), ((integral[0],), [('ga3e', 'meet', 8), ('ga3e', 'grade', 21), ('ga2c', 'copies', 10)]),
                        ((integral[1],), [('ga3e', 'exp', 12), ('ga3h', 'flats', 10)]), ((floating,), [('ga3e', 'versor', 12), ('ga3e', 'exp', 12)])]:
        for alg, profile, np in small + more: k.session(alg, profile, nprog=np * (4 if k.thorough else 1), nval=2, flags=flags)
    for alg, np in [('ga3e', 42), ('s211', 28)]: k.session(alg, 'deftol', nprog=np * (4 if k.thorough else 1), nval=4, flags=tolerances)
    k.finish('default tolerances, bitsets of 8, 16 and 32 bits up to their highest basis vector, default integers of 16 and 32 bits, default reals of 80 bits')


def c24():
    k = Check('C24')
    for j, a in enumerate(together.NAMES):
        k.session(a, 'constants', nprog=5 * (4 if k.thorough else 1), nval=1, flags=together.flags(a, j % 2 == 1), per_tu=5)
    for j, (alg, profile, np) in enumerate([('ga3e', 'reps', 8), ('ga3c', 'products', 4), ('ga2m', 'sandwich', 4), ('ga3p', 'planes', 4), ('ga2h', 'flats', 4), ('ga2c', 'rounds', 4), ('ga4e', 'linear', 8)]):
        k.session(alg, profile, nprog=np * (4 if k.thorough else 1), nval=2, flags=together.flags(alg, j % 2 == 0))
    k.finish('every algebra in programs that include all of them, in different orders, and use all of them in another translation unit')


def try_profile(alg, profile, nprog, k=None):
    k = k or Check('TRY')
    for a in alg.split(','): k.session(a, profile, nprog=int(nprog))
    k.finish('trial')


NOTES = {}
PROPS = {f.__name__.upper(): f for f in [c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, c22, c23, c24]}
