"""Which explorations decide which property. Each job is one driver compiled with one set of bounds."""
ASSUMPTIONS = ['g++-11 -std=c++17 translates the headers faithfully', 'the reference model mc/ref.hpp (cross-checked at start-up by two independent definitions of the product for every signature with n<=4) is the intended algebra',
    'coefficients: products are multilinear, so behaviour on the enumerated coefficient grids is taken to represent other coefficients of the same type']
JOBS = {}
def job(pid, name, src, defs=(), tier='quick', **kw):
    JOBS.setdefault(pid, []).append(dict(name=name, src=src, defs=list(defs), tier=tier, **kw))
def jobs(pid, tier):
    return [j for j in JOBS[pid] if tier == 'thorough' or j['tier'] == 'quick']

def sigs(l): return 'SIGS=' + ' '.join('S(%d,%d,%d)' % s for s in l)
def ops(l): return 'OPS=' + ' '.join('O(%s)' % o for o in l.split())
def allsig(n): return [(p, q, n - p - q) for p in range(n + 1) for q in range(n + 1 - p)]
def chunks(l, k): return [l[i:i + k] for i in range(0, len(l), k)]

# ---- products on signed spaces: C01, C02, C03, C17
def products(pid, opl):
    k = len(opl.split())
    def add(part, tag, S, tier='quick', extra=(), **kw):
        job(pid, '%s-%s' % (tag, '_'.join('%d%d%d' % s if sum(s) < 10 else '%d.%d.%d' % s for s in S)), 'products.cpp', ['PART=%d' % part, sigs(S), ops(opl)] + list(extra), tier, **kw)
    small = allsig(1) + allsig(2) + allsig(3)
    if k == 1:
        for c in chunks(small, 6): add(1, 'dyn', c, cost=8, bound='all pairs of run-time blades, both coefficient signs and zero')
        for c in chunks(allsig(4), 8): add(1, 'dyn', c, 'quick', cost=9)
        for c in chunks(allsig(5), 11): add(1, 'dyn', c, 'thorough')
        for c in chunks(allsig(6), 14): add(1, 'dyn', c, 'thorough')
        add(1, 'dyn', [(4, 1, 0)]); 
        for c in chunks(allsig(1) + allsig(2), 5): add(2, 'full', c, cost=6, bound='all multivectors with coefficients in {-1,0,1} against all basis multivectors')
        for c in chunks([(3, 0, 0), (2, 1, 0), (1, 2, 0), (0, 3, 0), (2, 0, 1), (1, 1, 1), (0, 1, 2)], 2): add(2, 'full', c, cost=9)
        for c in chunks(allsig(2), 6): add(2, 'fullgrid', c, 'quick', ['GRID'], cost=5, bound='all pairs of multivectors with coefficients in {-1,0,1}')
        for c in chunks(allsig(3), 2): add(2, 'fullgrid', c, 'thorough', ['GRID'], bound='all pairs of multivectors with coefficients in {0,1}')
        for c in chunks(allsig(4), 1): add(2, 'full', c, 'thorough', mem=2)
        add(3, 'const', [(1, 1, 0), (0, 1, 1)], cost=8); add(3, 'const', [(1, 1, 1)], cost=14); add(3, 'const', [(2, 1, 0)], 'thorough'); add(3, 'const', [(3, 0, 0)], 'thorough'); add(3, 'const', [(0, 2, 1)], 'thorough'); add(3, 'const', [(2, 1, 1)], 'thorough', mem=2)
        add(6, 'mixed', [(1, 1, 0)]); add(6, 'mixed', [(2, 1, 0)], cost=6); add(6, 'mixed', [(1, 1, 1)], cost=6); add(6, 'mixed', [(2, 1, 1)], cost=9)
        for c in chunks(allsig(3), 2): add(6, 'mixed', c, 'thorough')
        for c in chunks(allsig(4), 1): add(6, 'mixed', c, 'thorough')
    else:
        for o in opl.split():
            def ad1(part, tag, S, tier='quick', extra=(), o=o, **kw):
                job(pid, '%s-%s-%s' % (o, tag, '_'.join('%d%d%d' % s if sum(s) < 10 else '%d.%d.%d' % s for s in S)), 'products.cpp', ['PART=%d' % part, sigs(S), ops(o)] + list(extra), tier, **kw)
            ad1(1, 'dyn', [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0, 1, 1), (1, 1, 1), (2, 1, 1)], cost=9)
            ad1(1, 'dyn', [(4, 0, 0), (3, 1, 0), (0, 2, 2), (1, 3, 0), (4, 1, 0)], cost=7)
            ad1(2, 'full', [(1, 1, 0), (1, 1, 1)], cost=6)
            ad1(2, 'fullgrid', [(1, 0, 1), (1, 1, 0)], 'quick', ['GRID'], cost=6)
            ad1(6, 'mixed', [(1, 1, 1), (3, 0, 0)], cost=8)
            ad1(3, 'const', [(1, 1, 0)], cost=5)
            ad1(3, 'const', [(1, 1, 1)], 'thorough')
            for c in chunks(allsig(3), 5): ad1(1, 'dyn', c, 'thorough'); ad1(2, 'full', c, 'thorough'); ad1(6, 'mixed', c, 'thorough')
            for c in chunks(allsig(4), 8): ad1(1, 'dyn', c, 'thorough')
            for c in chunks(allsig(5), 11): ad1(1, 'dyn', c, 'thorough')
            ad1(2, 'full', [(2, 1, 1)], 'thorough', mem=2)
            ad1(6, 'mixed', [(2, 1, 1)], 'thorough')
    for n, S, tier in [(31, (10, 10, 11), 'quick'), (15, (5, 5, 5), 'thorough'), (7, (3, 2, 2), 'thorough'), (62, (62, 0, 0), 'thorough'), (63, (20, 20, 23), 'quick'), (8, (8, 0, 0), 'thorough'), (16, (8, 8, 0), 'thorough'), (32, (16, 16, 0), 'thorough'), (63, (0, 63, 0), 'thorough')]:
        for c in ([opl] if k == 1 else opl.split()):
            job(pid, '%s-high%d-%s' % (c, n, '.'.join(map(str, S))), 'products.cpp', ['PART=4', 'GRADES=%d' % (2 if tier == 'quick' or n > 16 else 3), 'GA_MAX_BASIS_VECTOR_INDEX=%d' % n, sigs([S]), ops(c)], tier, cost=7 if k == 1 else 4,
                bound='all blades of grade <= 2 over the boundary indices, near-pseudoscalars, all pairs of basis vectors')
    for o in opl.split():
        for S, tier in (((4, 3, 1), 'quick'), ((2, 2, 4), 'thorough'), ((8, 0, 0), 'thorough'), ((0, 9, 0), 'thorough'), ((3, 3, 3), 'thorough')):
            job(pid, '%s-many-%d%d%d' % ((o,) + S), 'products.cpp', ['PART=7', sigs([S]), ops(o)], tier, cost=10, opt='-O0' if tier == 'quick' else '-O1', bound='all pairs of run-time blades of a space of 8 or 9 dimensions, fixed blades against all of them')
    for c in chunks(opl.split(), 2): job(pid, 'models-' + '_'.join(c), 'products.cpp', ['PART=5', ops(' '.join(c))], cost=8 if k > 1 else 5, bound='the named model spaces, dimensions 1 to 3')

products('C01', 'gp')
products('C02', 'op')
products('C03', 'lcont rcont dot hip sp cp')
products('C17', 'rp')

# ---- C04: general and conformal metrics
import itertools
def sym(n, vals):
    k = n * (n + 1) // 2
    for v in itertools.product(vals, repeat=k):
        M = [[0] * n for _ in range(n)]; it = iter(v)
        for i in range(n):
            for j in range(i, n): M[i][j] = M[j][i] = next(it)
        yield M
def G(M): return 'G(%d,%s)' % (len(M), ','.join(str(x) for r in M for x in r))
def metrics(pid, name, part, ms, opl, tier='quick', chunk=6, **kw):
    for i, c in enumerate(chunks(ms, chunk)):
        job(pid, '%s-%d' % (name, i), 'general.cpp', ['PART=%d' % part, 'METRICS=' + ' '.join(c), ops(opl)], tier, **kw)
def c04():
    pid = 'C04'
    m1 = [G(M) for M in sym(1, [-2, -1, 0, 1, 3])]
    m2 = [G(M) for M in sym(2, [-1, 0, 1])]
    m2b = [G(M) for M in sym(2, [-1, 0, 2, 3])]
    m3 = [[[d[0], a, b], [a, d[1], c], [b, c, d[2]]] for d in ((1, -1, 0), (2, 1, -1)) for a, b, c in itertools.product((0, 1), (0, -2), (0, 1))]
    m3all = [G(M) for M in sym(3, [-1, 0, 1])]
    inner = 'lcont rcont dot hip sp'
    metrics(pid, 'gp-1d', 1, m1, 'gp', bound='all 1x1 metrics in {-2..3}, all multivectors with coefficients in {-1,0,1}')
    metrics(pid, 'gp-2d', 1, m2, 'gp', chunk=7, cost=8, bound='all symmetric 2x2 metrics over {-1,0,1}, all pairs of multivectors over {-1,0,1}')
    metrics(pid, 'gp-3d', 1, [G(M) for M in m3], 'gp', chunk=2, cost=9, bound='3x3 metrics: every off-diagonal support, two diagonals; all pairs of basis blades')
    metrics(pid, 'gp-const', 2, [G([[1, 2], [2, -1]]), 'C(1)'], 'gp', chunk=1, cost=15)
    metrics(pid, 'gp-vec', 3, [G([[1, 2], [2, -1]]), G([[0, 1, 2], [1, -1, 0], [2, 0, 3]]), 'C(1)', 'C(2)'], 'gp', chunk=2, cost=8)
    metrics(pid, 'gp-conformal', 1, ['C(1)', 'C(2)'], 'gp', chunk=1, cost=10, mem=1.7)
    metrics(pid, 'gp-dyn', 4, ['C(1)'], 'gp', cost=11); metrics(pid, 'gp-dyn12', 6, ['C(1)'], 'gp', cost=8)
    for o in inner.split():
        metrics(pid, o, 1, [G([[1, 2], [2, -1]]), G([[0, -1], [-1, 0]]), G([[2, 0], [0, -1]]), G([[1, 2, 0], [2, -1, 1], [0, 1, 2]]), 'C(1)'], o, chunk=5, cost=13)
        metrics(pid, o + '-vec', 3, [G([[0, 1, 2], [1, -1, 0], [2, 0, 3]]), 'C(1)'], o, cost=5)
        metrics(pid, o + '-dyn', 4, ['C(1)'], o, 'quick' if o in ('lcont', 'sp') else 'thorough', cost=10)
        metrics(pid, o + '-const', 2, ['C(1)'], o, 'thorough'); metrics(pid, o + '-2d', 1, m2, o, 'thorough', chunk=14); metrics(pid, o + '-3d', 1, [G(M) for M in m3], o, 'thorough', chunk=4); metrics(pid, o + '-conf2', 1, ['C(2)'], o, 'thorough', mem=2)
    metrics(pid, 'nonmetric', 1, [G([[1, 2], [2, -1]]), 'C(1)'], 'op cp rp', cost=8)
    metrics(pid, 'gp-2d', 1, m2b, 'gp', 'thorough', chunk=8)
    metrics(pid, 'gp-3dall', 1, m3all, 'gp', 'thorough', chunk=9, mem=1.5, bound='all 729 symmetric 3x3 metrics over {-1,0,1}')
    metrics(pid, 'gp-const', 2, ['C(2)', G([[0, 1, 2], [1, -1, 0], [2, 0, 3]])], 'gp', 'thorough', chunk=1, mem=2)
    metrics(pid, 'gp-dyn', 4, ['C(2)'], 'gp', 'thorough', mem=4); metrics(pid, 'gp-conf3', 3, ['C(3)'], 'gp', 'thorough', mem=3)
c04()

# ---- the ready-made algebras gaNx.hpp
ALL_NS = [(d, k) for k, ds in (('e', range(1, 6)), ('h', range(1, 5)), ('p', range(1, 5)), ('m', range(1, 4)), ('c', range(1, 4))) for d in ds]
def alg(pid, tag, nss, opl='', tier='quick', group=None, extra=(), **kw):
    for ns in nss.split() if isinstance(nss, str) else nss:
        d, k = (int(ns[0]), ns[1]) if isinstance(ns, str) else ns
        job(pid, 'ga%d%s-%s' % (d, k, tag), 'algebra.cpp', ['NS=ga%d%s' % (d, k), 'MC_D=%d' % d, 'KIND=%s' % k.upper()] + ([ops(opl)] if opl else []) + (['GROUP=%d' % group] if group else []) + list(extra), tier, **kw)
def rest(nss): return [n for n in ALL_NS if '%d%s' % n not in nss.split()]
def algebras():
    q = '2e 1h 2p 1m'
    for pid, tag, opl in (('C01', 'gp', 'gp_f gp_o'), ('C02', 'op', 'op_f op_o'), ('C17', 'rp', 'rp_f')):
        alg(pid, tag, q, opl, cost=6); alg(pid, tag, rest(q), opl, 'thorough', mem=2.5)
    for tag, opl in (('cont', 'lcont_f lcont_o rcont_f rcont_o'), ('dot', 'dot_f dot_o hip_f'), ('sp', 'sp_f cp_f')):
        alg('C03', tag, '1h 1p', opl, cost=9); alg('C03', tag, rest('1h 1p'), opl, 'thorough', mem=2.5)
    alg('C04', 'gp', '1c 2c', 'gp_f gp_o', cost=12, mem=1.5); alg('C04', 'gp', '3c', 'gp_f gp_o', 'thorough', mem=3)
    alg('C04', 'lcont', '1c', 'lcont_f lcont_o', cost=8)
    alg('C01', 'declared', [n for n in ALL_NS if n[1] != 'c'], '', 'quick', extra=['DECLARED'], cost=4)
    alg('C04', 'declared', '1c 2c 3c', '', 'quick', extra=['DECLARED'], cost=5)
algebras()

# ---- C08 unary signs, C09 sums
def c08():
    pid = 'C08'
    for n, mask, tier in [(3, 7, 'quick'), (3, 8, 'quick'), (3, 48, 'quick'), (4, 7, 'quick'), (2, 63, 'quick'), (1, 63, 'quick'), (4, 8, 'thorough'), (4, 48, 'thorough'), (5, 7, 'thorough'), (5, 48, 'thorough')]:
        job(pid, 'unary-%dd-%d' % (n, mask), 'unary.cpp', ['PART=1', 'MC_N=%d' % n, 'MASK=%d' % mask], tier, cost=12, opt='-O0', bound='every representation of the mask, all basis blades, signs and zero')
    for n, mask, tier in [(2, 55, 'quick'), (3, 7, 'quick'), (3, 48, 'thorough'), (2, 8, 'quick'), (3, 8, 'thorough'), (4, 7, 'thorough')]:
        job(pid, 'sequences-%dd-%d' % (n, mask), 'unary.cpp', ['PART=2', 'MC_N=%d' % n, 'MASK=%d' % mask], tier, cost=15, opt='-O0', bound='all sequences of 3 unary operations')
    for n, tier in [(63, 'quick'), (31, 'quick'), (8, 'quick'), (16, 'thorough'), (32, 'thorough'), (62, 'thorough'), (7, 'thorough')]:
        job(pid, 'high%d' % n, 'unary.cpp', ['PART=3', 'GA_MAX_BASIS_VECTOR_INDEX=%d' % n], tier, cost=7, bound='run-time blades of every grade 0..%d at every offset' % n)
    for lo, cnt, tier in [(0, 8, 'quick'), (60, 4, 'quick'), (29, 5, 'quick')] + [(l, 8, 'thorough') for l in range(8, 60, 8)]:
        job(pid, 'grade%d-%d' % (lo, lo + cnt - 1), 'unary.cpp', ['PART=3', 'GA_MAX_BASIS_VECTOR_INDEX=63', 'GRADE_LO=%d' % lo, 'GRADE_N=%d' % cnt], tier, cost=8, bound='blades of one grade fixed at compile time')
c08()
def c09():
    pid = 'C09'
    for ma, mb in [(1, 55), (2, 51), (2, 4), (4, 1), (4, 2), (4, 4), (4, 48), (16, 7), (48, 48), (32, 7)]:
        job(pid, 'pairs-2d-%d-%d' % (ma, mb), 'addsub.cpp', ['PART=1', 'MC_N=2', 'MASKA=%d' % ma, 'MASKB=%d' % mb], cost=15, opt='-O0', bound='all pairs of operands of all pairs of representations')
    for ma, mb, t in [(8, 1, 'quick'), (8, 2, 'thorough'), (8, 4, 'quick'), (8, 8, 'thorough'), (8, 48, 'thorough'), (7, 8, 'thorough'), (48, 8, 'thorough')]:
        job(pid, 'pairs-2d-%d-%d' % (ma, mb), 'addsub.cpp', ['PART=1', 'MC_N=2', 'MASKA=%d' % ma, 'MASKB=%d' % mb], t, cost=15, opt='-O0', mem=1.5)
    for ma, mb in [(1, 7), (2, 7), (4, 3), (4, 4), (16, 7), (7, 16), (32, 7)]:
        job(pid, 'pairs-3d-%d-%d' % (ma, mb), 'addsub.cpp', ['PART=1', 'MC_N=3', 'MASKA=%d' % ma, 'MASKB=%d' % mb], 'quick' if (ma, mb) in ((1, 7), (4, 4)) else 'thorough', cost=16, opt='-O0', mem=1.5)
    for f in range(7): job(pid, 'chains3-%d' % f, 'addsub.cpp', ['PART=2', 'MC_N=2', 'LEN=3', 'ALPHA=7', 'FIRST=%d' % f, 'COUNT=1'], 'quick' if f < 6 else 'thorough', cost=18, opt='-O0', bound='all chains of 3 operands of a 7-letter alphabet, all signs and association orders')
    for f in range(10): job(pid, 'chains3w-%d' % f, 'addsub.cpp', ['PART=2', 'MC_N=3', 'LEN=3', 'ALPHA=10', 'FIRST=%d' % f, 'COUNT=1'], 'thorough', opt='-O0', mem=1.5)
    for f in range(6): job(pid, 'chains4-%d' % f, 'addsub.cpp', ['PART=2', 'MC_N=2', 'LEN=4', 'ALPHA=6', 'FIRST=%d' % f, 'COUNT=1'], 'thorough', opt='-O0', mem=3, timeout=900)
    job(pid, 'types', 'addsub.cpp', ['PART=3'], cost=23, opt='-O0', bound='all pairs of coefficient types, boundary values')
    for n, t in [(63, 'quick'), (31, 'quick'), (32, 'thorough'), (8, 'thorough')]: job(pid, 'high%d' % n, 'addsub.cpp', ['PART=4', 'GA_MAX_BASIS_VECTOR_INDEX=%d' % n], t, cost=4)
c09()

# ---- C10 copies, C11 grades
def c10():
    pid = 'C10'
    for n in (3, 2):
        t = 'quick' if n == 3 else 'thorough'
        for i in range(7): job(pid, 'fixed-%dd-%d' % (n, i), 'copies.cpp', ['PART=1', 'MC_N=%d' % n, 'PIECES=7', 'PIECE=%d' % i], t, cost=11, opt='-O0', bound='all pairs of fixed-blade types; every pattern of up to two nonzero coefficients around the tolerances; 5 ways of copying')
        for part, nm in ((2, 'constants'), (3, 'widening'), (4, 'runtime')): job(pid, '%s-%dd' % (nm, n), 'copies.cpp', ['PART=%d' % part, 'MC_N=%d' % n], t, cost=8, opt='-O0')
    for n, t in ((2, 'quick'), (3, 'quick'), (4, 'thorough')):
        for i in range(7): job(pid, 'sums-%dd-%d' % (n, i), 'copies.cpp', ['PART=5', 'MC_N=%d' % n, 'PIECES=7', 'PIECE=%d' % i], t, cost=12, opt='-O0', bound='sums of two and three components of 7 kinds (three of them run-time blades) in every order')
    for i in range(14): job(pid, 'fixed-4d-%d' % i, 'copies.cpp', ['PART=1', 'MC_N=4', 'PIECES=14', 'PIECE=%d' % i], 'thorough', opt='-O0')
    for part, nm in ((2, 'constants'), (3, 'widening'), (4, 'runtime')): job(pid, '%s-4d' % nm, 'copies.cpp', ['PART=%d' % part, 'MC_N=4'], 'thorough', opt='-O0')
c10()
def c11():
    pid = 'C11'
    def g(name, part, n, largest, extra=(), tier='quick', **kw): job(pid, name, 'grades.cpp', ['PART=%d' % part, 'MC_N=%d' % n, 'LARGEST=%d' % largest] + list(extra), tier, **dict(dict(cost=10, opt='-O0'), **kw))
    g('kinds-3d-full', 1, 3, -1, ['MASK=1']); g('kinds-3d-kvec', 1, 3, 2, ['MASK=2']); g('kinds-3d-dyn', 1, 3, 2, ['MASK=4']); g('kinds-3d-const', 1, 3, 2, ['MASK=24'], cost=17)
    g('kinds-2d-full', 1, 2, 2, ['MASK=3']); g('kinds-2d-dyn', 1, 2, 2, ['MASK=4']); g('kinds-1d', 1, 1, 2, ['MASK=31'])
    g('kinds-4d-kvec', 1, 4, 0, ['MASK=2'], 'thorough', mem=2); g('kinds-4d-dyn', 1, 4, 2, ['MASK=4']); g('kinds-4d-const', 1, 4, 2, ['MASK=8'], 'thorough', mem=2); g('kinds-5d-dyn', 1, 5, 2, ['MASK=4'], 'thorough')
    g('values-2d', 2, 2, 2, ['PICK=4'], cost=17, opt='-O1', bound='every assignment of 9 values around the tolerances to the components'); g('values-3d', 2, 3, -1, ['PICK=2', 'ONLYQ=full_multivector_t<double,3>'], opt='-O1')
    g('values-3d-float', 2, 3, -1, ['PICK=3', 'ONLYQ=full_multivector_t<float,3>'], 'thorough', opt='-O1'); g('values-3d-vec', 2, 3, 2, ['PICK=3', 'ONLYQ=full_vector_t<double,3>'], opt='-O1')
    g('values-3d-largest', 2, 3, -1, ['PICK=2', 'ONLYQ=full_multivector_t<double,3>', 'TAKE_LARGEST'], 'thorough', opt='-O1')
    g('values-3d-12', 2, 3, -1, ['PICK=3', 'ONLYQ=full_multivector_t<double,3,1,2>'], 'thorough', opt='-O1'); g('values-4d-biv', 2, 4, 0, ['PICK=2', 'ONLYQ=full_kvector_t<double,4,2>'], 'thorough', mem=2)
    g('sums-2d', 3, 2, 2); g('sums-3d', 3, 3, 1, (), 'thorough'); g('coinciding', 4, 2, 0, cost=2); g('tall', 5, 63, 2, cost=15, bound='blades of every grade 0..63 and their sums by blades of other grades')
c11()

# ---- C12 norms and inverses, C13 duals, C14 versors, C15 exponentials
SMALL = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0, 1, 1), (1, 1, 1), (3, 0, 0)]
def S(l): return sigs(l)
def tag(l): return '_'.join('%d%d%d' % s for s in l)
def groups(pid, g, quick, cost=12, thorough=None, **kw):
    alg(pid, 'group', quick, '', group=g, cost=cost, **kw); alg(pid, 'group', rest(quick) if thorough is None else thorough, '', 'thorough', group=g, mem=6)
def c12():
    pid = 'C12'
    for m, c in ((1, 6), (2, 6), (4, 15), (8, 9), (16, 4), (32, 20)):
        job(pid, 'kinds-%d' % m, 'norms.cpp', ['PART=1', 'MASK=%d' % m, S(SMALL)], cost=c, opt='-O0', mem=1.5, bound='every representation of the mask in 7 signatures')
        for l in chunks(allsig(3), 5): job(pid, 'kinds-%d-%s' % (m, tag(l)), 'norms.cpp', ['PART=1', 'MASK=%d' % m, S(l)], 'thorough', opt='-O0', mem=2)
        if m < 16: job(pid, 'kinds-%d-211' % m, 'norms.cpp', ['PART=1', 'MASK=%d' % m, S([(2, 1, 1)])], 'thorough', opt='-O0', mem=3)
    for l, t in (([(1, 1, 1)], 'quick'), ([(2, 1, 0)], 'quick'), ([(0, 1, 1), (2, 0, 0)], 'quick'), ([(0, 3, 0)], 'thorough'), ([(3, 0, 0)], 'thorough'), ([(1, 0, 2)], 'thorough')):
        job(pid, 'versors-' + tag(l), 'norms.cpp', ['PART=2', S(l), 'VALS={-1,0,2}', 'LEN=%d' % (3 if sum(l[0]) <= 2 or l == [(1, 1, 1)] or t == 'thorough' else 2)], t, cost=14, mem=1.5, bound='every product of up to 2-3 vectors with coefficients in {-1,0,2}')
    job(pid, 'versors4-220', 'norms.cpp', ['PART=2', S([(2, 1, 1)]), 'VALS={-1,0,1}', 'LEN=2'], 'thorough', mem=4)
    for a, b, c in ((1, 6, 14), (6, 1, 11), (2, 6, 12), (4, 4, 17), (16, 7, 15), (8, 4, 25), (4, 8, 20), (7, 16, 15), (32, 2, 15)):
        job(pid, 'igp-%d-%d' % (a, b), 'norms.cpp', ['PART=3', 'MASK=%d' % a, 'MASKB=%d' % b, S([(1, 1, 0)])], cost=c, opt='-O0', mem=1.5)
        if 8 not in (a, b): job(pid, 'igp3-%d-%d' % (a, b), 'norms.cpp', ['PART=3', 'MASK=%d' % a, 'MASKB=%d' % b, S([(1, 1, 1)])], 'thorough', opt='-O0', mem=3)
    job(pid, 'igp-8-8', 'norms.cpp', ['PART=3', 'MASK=8', 'MASKB=8', S([(1, 1, 0)])], cost=14, opt='-O0'); job(pid, 'igp3-8-8', 'norms.cpp', ['PART=3', 'MASK=8', 'MASKB=8', S([(1, 1, 1)])], 'thorough', opt='-O0', mem=2)
    job(pid, 'predicates', 'norms.cpp', ['PART=4', S(SMALL)], cost=6, bound='squared norms exactly at, above and below 6 tolerances'); job(pid, 'predicates-3d', 'norms.cpp', ['PART=4', S(allsig(3))], 'thorough')
    groups(pid, 12, '2e 1h 2p 1m 1c', 16)
c12()
def c13():
    pid = 'C13'
    for m in (1, 2, 4, 8, 16, 32):
        for k in (1, 2, 3):
            job(pid, 'kinds-%d-%d' % (m, k), 'duals.cpp', ['MASK=%d' % m, 'PSEUDO=%d' % k, S([(1, 1, 0)])], 'quick' if m != 32 else 'thorough', cost=10, opt='-O0', bound='every representation of the argument and of the pseudoscalar')
            if m < 8 or m == 16: job(pid, 'kinds3-%d-%d' % (m, k), 'duals.cpp', ['MASK=%d' % m, 'PSEUDO=%d' % k, S([(1, 1, 1)])] , 'quick' if (m, k) in ((1, 1), (2, 3)) else 'thorough', cost=14, opt='-O0', mem=1.5)
            if m < 8:
                for l in chunks([s for s in allsig(3) if s != (1, 1, 1)], 3): job(pid, 'kinds3-%d-%d-%s' % (m, k, tag(l)), 'duals.cpp', ['MASK=%d' % m, 'PSEUDO=%d' % k, S(l)], 'quick' if l == [(3, 0, 0)] else 'thorough', opt='-O0', mem=3)
        if m < 8:
            for l in chunks(allsig(2), 6): job(pid, 'kinds2-%d-%s' % (m, tag(l)), 'duals.cpp', ['MASK=%d' % m, 'PSEUDO=1', S(l)], cost=17, opt='-O0', mem=1.5)
    for l in ([(1, 1, 1), (2, 1, 0)], [(0, 2, 0), (0, 1, 1)]): job(pid, 'blades-' + tag(l), 'duals.cpp', ['MASK=3', 'PSEUDO=4', S(l)], cost=8, bound='pseudoscalars of sub-spaces: all vectors and bivectors of small integer coefficients')
    job(pid, 'blades-220', 'duals.cpp', ['MASK=3', 'PSEUDO=4', S([(2, 2, 0)])], 'thorough', mem=4)
    groups(pid, 13, '2e 1h 2p 1m 1c 2c', 9)
c13()
def c14():
    pid = 'C14'
    for a, b, c in ((1, 3, 12), (2, 3, 10), (4, 4, 24), (8, 2, 10), (4, 1, 16), (2, 4, 18), (16, 7, 9), (7, 16, 9)):
        job(pid, 'kinds-%d-%d' % (a, b), 'sandwich.cpp', ['PART=1', 'MASKV=%d' % a, 'MASK=%d' % b, S([(1, 1, 0)])], cost=c, opt='-O0', mem=1.8, bound='every representation of the versor and of the argument')
        job(pid, 'kinds02-%d-%d' % (a, b), 'sandwich.cpp', ['PART=1', 'MASKV=%d' % a, 'MASK=%d' % b, S([(0, 2, 0), (1, 0, 1)])], 'thorough', opt='-O0', mem=3)
    for l in ([(2, 1, 0)], [(1, 1, 1)], [(3, 0, 0)], [(0, 2, 1)]): job(pid, 'kinds3-' + tag(l), 'sandwich.cpp', ['PART=1', 'MASKV=2', 'MASK=2', S(l)], 'quick' if l == [(1, 1, 1)] else 'thorough', cost=9, opt='-O0', mem=2)
    job(pid, 'kinds-8-8', 'sandwich.cpp', ['PART=1', 'MASKV=8', 'MASK=8', S([(1, 1, 0)])], 'thorough', opt='-O0', mem=3)
    for l, t in (([(2, 0, 0), (1, 1, 0)], 'quick'), ([(1, 0, 1), (0, 2, 0)], 'quick'), ([(1, 1, 1)], 'thorough'), ([(2, 1, 0)], 'thorough'), ([(3, 0, 0)], 'thorough'), ([(0, 1, 2)], 'thorough')):
        job(pid, 'versors-' + tag(l), 'sandwich.cpp', ['PART=2', S(l), 'VALS={-1,0,2}', 'LEN=%d' % (3 if t == 'quick' else 2)], t, cost=17, opt='-O0' if t == 'quick' else '-O1', mem=2 if t == 'quick' else 5, bound='every product of up to 3 small vectors')
    for l, t, n in (([(1, 1, 0), (2, 0, 0)], 'quick', 3), ([(1, 0, 1), (0, 2, 0)], 'quick', 3), ([(2, 1, 0)], 'thorough', 2), ([(1, 1, 1)], 'thorough', 3), ([(3, 0, 0)], 'thorough', 2)):
        job(pid, 'histories-' + tag(l), 'sandwich.cpp', ['PART=3', S(l), 'VALS={-1,0,2}', 'LEN=%d' % n], t, cost=19, opt='-O0' if t == 'quick' else '-O1', mem=1.5 if t == 'quick' else 5, bound='every sequence of up to %d reflections, stepwise and as one product' % n)
    for l in ([(1, 1, 0), (2, 0, 0)], [(1, 1, 1)]): job(pid, 'isometry-' + tag(l), 'sandwich.cpp', ['PART=4', S(l), 'VALS={-1,0,2}', 'LEN=2'], cost=12, opt='-O0', mem=1.5)
    job(pid, 'isometry-210', 'sandwich.cpp', ['PART=4', S([(2, 1, 0), (0, 2, 1)]), 'VALS={-1,0,2}', 'LEN=2'], 'thorough', mem=4)
    groups(pid, 14, '2e 1h 2p 1m 1c 2c', 9)
    alg(pid, 'versors', '2e 1h', '', group=14, extra=['FULLV'], cost=12); alg(pid, 'versors', '2p 1m 1c 3e 2h', '', 'thorough', group=14, extra=['FULLV'], mem=9)
c14()
def c15():
    pid = 'C15'
    for k, c in ((1, 11), (2, 7), (3, 18)):
        for l in ([(1, 1, 1), (2, 1, 0)], [(2, 0, 0), (1, 1, 0), (0, 1, 1)]): job(pid, 'part%d-%s' % (k, tag(l)), 'expo.cpp', ['PART=%d' % k, S(l)], cost=c, opt='-O0' if k == 3 else '-O1', mem=1.5, bound='every even blade with small coefficients, three tolerances')
        for l in chunks(allsig(1) + allsig(2) + allsig(3), 5): job(pid, 'part%d-%s' % (k, tag(l)), 'expo.cpp', ['PART=%d' % k, S(l)], 'thorough', mem=3)
    for l in ([(4, 0, 0)], [(2, 2, 0)], [(1, 2, 1)]): job(pid, 'dyn-' + tag(l), 'expo.cpp', ['PART=1', S(l)], 'quick' if l == [(1, 2, 1)] else 'thorough', cost=12); job(pid, 'const-' + tag(l), 'expo.cpp', ['PART=2', S(l)], 'quick' if l == [(1, 2, 1)] else 'thorough', cost=12)
    groups(pid, 15, '2e 3e 1h 2p 3p 1m 1c 2c', 6)
c15()

# ---- C16 delta product, meet, join, plunge
def c16():
    pid = 'C16'
    def sub(name, part, defs, tier='quick', **kw): job(pid, name, 'subspaces.cpp', ['PART=%d' % part] + defs, tier, **dict(dict(opt='-O0', cost=12), **kw))
    for a, b, c in ((1, 1, 6), (1, 2, 10), (2, 2, 8), (4, 2, 12), (2, 4, 15)): sub('dp-%d-%d' % (a, b), 1, ['MASKA=%d' % a, 'MASKB=%d' % b, 'TOLS', S([(1, 1, 0)])], cost=c + 6, bound='every pair of representations, three tolerances')
    for a, b in ((2, 2), (4, 4), (8, 4), (4, 1), (1, 4), (16, 7), (8, 8)): sub('dp-%d-%d' % (a, b), 1, ['MASKA=%d' % a, 'MASKB=%d' % b, 'TOLS', S([(1, 0, 1)])], 'thorough', mem=3)
    sub('dp3-2-2', 1, ['MASKA=2', 'MASKB=2', S([(1, 1, 1)])], 'thorough', mem=4)
    for a in range(4):
        for b in range(4):
            q = 'quick' if (a, b) in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (1, 3), (0, 2)) else 'thorough'
            sub('meet3-%d-%d' % (a, b), 2, ['MC_N=3', 'KA=%d' % a, 'KB=%d' % b, 'TA=double', 'TB=double', 'VALS={-1,0,1}'], q, cost=12, bound='all blades spanned by vectors over {-1,0,1} (two scales each): all pairs')
            sub('meet3f-%d-%d' % (a, b), 2, ['MC_N=3', 'KA=%d' % a, 'KB=%d' % b, 'TA=float', 'TB=float', 'VALS={-1,0,1}'], 'thorough')
            sub('meet3i-%d-%d' % (a, b), 2, ['MC_N=3', 'KA=%d' % a, 'KB=%d' % b, 'TA=int', 'TB=long', 'VALS={-1,0,2}'], 'quick' if (a, b) in ((1, 2), (2, 2)) else 'thorough', cost=12)
            sub('plunge3-%d-%d' % (a, b), 4, ['MC_N=3', 'KA=%d' % a, 'KB=%d' % b, 'TB=double', 'VALS={-1,0,1}', S([(2, 1, 0), (0, 3, 0)] if max(a, b) == 3 else [(2, 1, 0), (1, 1, 1)])], 'quick' if (a, b) in ((1, 1), (1, 2), (2, 2)) else 'thorough', cost=13)
            if max(a, b) <= 2: sub('meet2-%d-%d' % (a, b), 2, ['MC_N=2', 'KA=%d' % a, 'KB=%d' % b, 'TA=double', 'TB=int', 'VALS={-3,-1,0,1,2}'], 'quick' if a == b == 1 else 'thorough', cost=6)
    for a, b in ((1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2)): sub('meet4-%d-%d' % (a, b), 2, ['MC_N=4', 'KA=%d' % a, 'KB=%d' % b, 'TA=double', 'TB=double', 'VALS={0,1}'], 'thorough', mem=8, timeout=900)
    for a, b in ((8, 8), (8, 2), (1, 2), (2, 1), (1, 1), (2, 8)): sub('kinds-%d-%d' % (a, b), 3, ['MC_N=2', 'MASKA=%d' % a, 'MASKB=%d' % b], 'quick' if a != 2 and (a, b) != (8, 2) else 'thorough', cost=30 if 8 in (a, b) else 14, mem=2)
    for v in range(16):
        for w in (0, 4, 8, 12): sub('meet4b-%d-%d' % (v, w), 6, ['MC_N=4', 'BLADE_V=%d' % v, 'FROM=%d' % w, 'HOW_MANY=4'], 'quick' if v in (7, 10) and w in (4, 12) else 'thorough', cost=14, mem=3, bound='every pair of basis blades of four dimensions, held in their own types, two scales each; zero operands')
    alg(pid, 'dp', '2e 1h', '', group=16, cost=6); alg(pid, 'dp', rest('2e 1h'), '', 'thorough', group=16, mem=6, timeout=900)
    alg(pid, 'joins', '2e 1h 1m 2p', '', group=16, extra=['JOINS', 'PLUNGES', 'BIV'], cost=14); alg(pid, 'joins', '3e 2h 1c', '', 'thorough', group=16, extra=['JOINS', 'PLUNGES', 'BIV'], mem=6, timeout=900)
c16()

# ---- C18 parameters of flats, rounds, tangents
def c18():
    pid = 'C18'; nm = {1: 'flats', 2: 'dual-flats', 3: 'rounds', 4: 'dual-rounds'}
    def add(ns, conf, d, part, ks, tier='quick', what=7, vals=None, **kw):
        job(pid, '%s%s%d-k%s%s' % (nm[part], '-' + ns + '-' if ns else '-c' if conf else '-m', d, ''.join(map(str, ks)), '-w%d' % what if what != 7 else ''), 'models.cpp',
            ['PART=%d' % part, 'MC_CONF=%d' % conf, 'MC_D=%d' % d, 'WHAT=%d' % what, 'KS=' + ' '.join('O(%d)' % k for k in ks)] + (['NS=' + ns] if ns else []) + (vals or []), tier, **dict(dict(opt='-O0', cost=6), **kw))
    b3 = ['VALS={-1,0,2}', 'DVALS={0,1}']
    B = 'every direction spanned by vectors over {-1,0,1}, every location over {-1,0,2}, squared radii -1,0,1,4, scales 1,-2'
    for part in (1, 2, 3, 4):
        for conf in (1, 0):
            heavy = part >= 3 and not conf
            add('', conf, 1, part, (0, 1), cost=5, bound=B)
            if heavy:
                add('', conf, 2, part, (0,), bound=B); add('', conf, 2, part, (2,), bound=B)
                add('', conf, 2, part, (1,), what=2, mem=2.6, cost=34 if part == 3 else 25, tier='quick' if part == 3 else 'thorough'); add('', conf, 2, part, (1,), what=5, mem=1.2, cost=10)
            else: add('', conf, 2, part, (0, 1, 2), cost=9, bound=B)
            for k in range(4):
                add('', conf, 3, part, (k,), 'quick' if conf and (part, k) in ((1, 3), (2, 1), (3, 0), (4, 3)) else 'thorough', vals=b3, mem=12 if heavy and k in (1, 2) else 2.2, cost=15, timeout=900, bound='three-dimensional base space')
            x = 'c' if conf else 'm'
            for d in (1, 2, 3):
                for k in range(d + 1): add('ga%d%s' % (d, x), conf, d, part, (k,), 'quick' if (d == 1 and k == part % 2) or (d == 2 and conf and k == 1) else 'thorough', vals=b3 if d == 3 else None, mem=12 if heavy and k in (1, 2) and d > 1 else 2.2, cost=5, timeout=900)
    for m, x in ((5, 'c'), (4, 'm')):
        for kinds in ('Int', 'Con', 'Mix', 'Org', 'Sca', 'Dbl'):
            for d in (2, 3):
                for dual in (0, 1):
                    for tg, sh in (('flats', 'flat0 flat1 flat2'), ('spheres', 'round0 round0c tang0'), ('tangents', 'tang1'), ('pairs', 'round1'), ('circles', 'round2')):
                        q = d == 2 and ((kinds, dual) in (('Mix', 0), ('Con', 1)) if m == 5 else (kinds, dual) == ('Mix', 0) and tg in ('flats', 'tangents') or (kinds, dual) == ('Con', 1) and tg in ('spheres', 'pairs'))
                        job(pid, 'written-%s%d-%s-%s%s' % (x, d, tg, kinds, '-dual' if dual else ''), 'objects.cpp', ['MODEL=%d' % m, 'MC_D=%d' % d, 'SHAPES=K(%s) %s }' % (kinds, ' '.join('S(%s)' % s for s in sh.split()))] + ['DUAL'] * dual,
                            'quick' if q else 'thorough', opt='-O0', cost=8, mem=1.5 if m == 5 else 4 if d == 2 else 10, timeout=600, bound='objects written as products of points with %s coordinates, constant blades and scale factors' % kinds)
c18()

# ---- C19 constructors, Euclidean and homogeneous queries
def c19():
    pid = 'C19'; X = ' ehpmc'
    def geo(name, part, model, d, defs=(), tier='quick', ns=False, **kw):
        job(pid, name, kw.pop('src', 'geometry.cpp'), ['PART=%d' % part, 'MODEL=%d' % model, 'MC_D=%d' % d] + (['NS=ga%d%s' % (d, X[model])] if ns else []) + list(defs), tier, **dict(dict(opt='-O0', cost=5), **kw))
    def C(l): return 'COORDS=' + ' '.join('O(%s)' % x for x in l.split())
    for m in range(1, 6):
        geo('coords-%s1' % X[m], 1, m, 1, [C('Int Dbl Flt Sca Con Zer Neg')], bound='every kind of coordinate (integer, floating, run-time scalar, constants), as named objects, const objects and temporaries')
        geo('coords-%s2' % X[m], 1, m, 2, [C('Int Dbl Sca Con Zer')], cost=10, bound='every combination of kinds of coordinates and every value over {-2,0,1}')
        geo('coords-%s2all' % X[m], 1, m, 2, [C('Int Dbl Flt Sca Con Zer Neg')], 'thorough')
        geo('coords-%s3' % X[m], 1, m, 3, [C('Int Con Dbl' if m == 1 else 'Int Con')], cost=7); geo('coords-%s3all' % X[m], 1, m, 3, [C('Int Dbl Sca Con Zer')], 'thorough', mem=4)
        for d in range(1, {1: 6, 2: 5, 3: 5, 4: 4, 5: 4}[m]):
            geo('coords-ga%d%s' % (d, X[m]), 1, m, d, [C('Int Sca Con' if d == 1 else 'Dbl Con')], 'quick' if d in (1, 3) else 'thorough', ns=True, cost=5)
            geo('ranges-%s%d' % (X[m], d), 1, m, d, [], 'quick' if d == 2 else 'thorough'); geo('ranges-ga%d%s' % (d, X[m]), 1, m, d, [], 'quick' if d == 3 else 'thorough', ns=True)
    for n in (2, 3, 4):
        for a in range(n + 1):
            for b in range(n + 1):
                q = 'quick' if (n == 3 and a in (1, 2) and b in (1, 2)) or (n == 2 and a == b == 1) else 'thorough'
                v = ['VALS={-1,0,1}'] if n < 4 else ['VALS={0,1}']
                geo('project%d-%d-%d' % (n, a, b), 2, 1, n, ['KA=%d' % a, 'KB=%d' % b] + v, q, bound='all blades spanned by vectors over {-1,0,1}, all pairs, projected factor by factor', mem=3, timeout=900)
                if n < 4: geo('project-ga%de-%d-%d' % (n, a, b), 2, 1, n, ['KA=%d' % a, 'KB=%d' % b] + v, 'quick' if (a, b) in ((1, 2), (2, 1)) else 'thorough', ns=True, mem=3)
    for a, b, c in ((1, 4, 18), (2, 4, 14), (4, 8, 28), (8, 2, 13), (32, 2, 13), (2, 32, 31), (4, 4, 25)):
        geo('project-kinds-%d-%d' % (a, b), 2, 1, 2, ['MASKA=%d' % a, 'MASKB=%d' % b], 'quick' if c < 20 else 'thorough', cost=c, mem=2)
        geo('project-kinds3-%d-%d' % (a, b), 2, 1, 3, ['MASKA=%d' % a, 'MASKB=%d' % b], 'thorough', mem=6)
    for d in (1, 2, 3, 4):
        for k in range(d + 1):
            v = ['VALS={-1,0,2}', 'DVALS={-1,0,1}' if d < 3 else 'DVALS={0,1}'] if d < 4 else ['VALS={0,1}', 'DVALS={0,1}']
            for ns in (False, True): geo('flats-%s%d-%d' % ('ga' if ns else 'h', d, k), 3, 2, d, ['MC_K=%d' % k] + v, 'quick' if (d == 2 and not ns) or (d == 3 and k == 2) or (d == 1 and ns) or (d == 3 and ns and k == 1) else 'thorough', ns=ns, mem=2, bound='every flat of a small direction, location and scale; translated by every small vector, back and again')
    for kinds in ('Int', 'Con', 'Mix', 'Org', 'Sca', 'Dbl'):
        for d in (2, 3): geo('written-h%d-%s' % (d, kinds), 0, 2, d, ['SHAPES=K(%s) S(points) S(lines) S(planes) }' % kinds], 'quick' if d == 2 and kinds in ('Con', 'Mix', 'Sca') else 'thorough', src='objects.cpp', bound='flats written as products of points with %s coordinates and constant or run-time blades' % kinds)
c19()

# ---- C20 conformal and Minkowski are the same algebra
def c20():
    pid = 'C20'; OPL = 'gp op lcont rcont dot hip sp cp'
    def iso(name, part, d, defs, tier='quick', **kw): job(pid, name, 'isomorph.cpp', ['PART=%d' % part, 'MC_D=%d' % d] + defs, tier, **dict(dict(opt='-O0', cost=6, mem=1.4), **kw))
    full = 'OPS=' + ' '.join('O(%s)' % o for o in OPL.split()) + ' R(rp)'
    def P(l): return 'PAIRS=' + ' '.join('P(%d,%d)' % x for x in l)
    def KS(l): return 'KS=' + ' '.join('P(%d)' % x for x in l)
    for o in OPL.split() + ['rp']: iso('full-%s' % o, 1, 1, ['FULL', 'OPS=%s(%s)' % ('R' if o == 'rp' else 'O', o), P([(0, 0)])], cost=5, bound='all pairs of basis multivectors and all-distinct multivectors')
    for a in range(5):
        for b in range(5):
            iso('kvec2-%d-%d' % (a, b), 1, 2, [full, P([(a, b)])], 'quick' if 0 < a < 4 and 0 < b < 4 and (a + b) % 2 == 0 else 'thorough', cost=9)
    for a in range(6):
        for b in range(6): iso('kvec3-%d-%d' % (a, b), 1, 3, [full, P([(a, b)])], 'thorough', mem=6)
    for o in ('gp', 'lcont'): iso('full2-%s' % o, 1, 2, ['FULL', 'OPS=O(%s)' % o, P([(0, 0)])], 'thorough', mem=4)
    iso('unary1', 2, 1, ['FULL', KS([0])], cost=6); iso('unary2', 2, 2, [KS(range(5))], cost=14, mem=2); iso('unary3', 2, 3, [KS(range(6))], 'thorough', mem=4); iso('unary2-full', 2, 2, ['FULL', KS([0])], 'thorough', mem=6)
    iso('versors1', 3, 1, ['EVEN', KS([0, 1, 2, 3])], cost=15, mem=2, bound='every invertible vector over {-1,0,2}, every pair of them, on every basis element'); iso('versors2', 3, 2, [KS([1, 2, 3]), 'VALS={0,1}'], cost=15, mem=2)
    for k in range(5): iso('versors2-%d' % k, 3, 2, ['EVEN', KS([k]), 'VALS={-1,0,1}'], 'thorough', mem=8)
    for k in range(1, 5): iso('versors3-%d' % k, 3, 3, [KS([k]), 'VALS={0,1}'], 'thorough', mem=8)
    for d in (1, 2, 3):
        iso('declared%d' % d, 4, d, [], cost=5)
        for w in range(1, 6): iso('objects%d-%d' % (d, w), 5, d, ['WHAT=%d' % w, 'VALS={-1,0,2}' if d < 3 else 'VALS={0,2}'], 'quick' if (d == 2 and w != 2) or d == 1 else 'thorough', cost=7, mem=1.2 if w != 2 else 4 if d < 3 else 14, timeout=900, bound='flats, point pairs, dual spheres and planes, tangents spanned by every pair of points over {-1,0,2}')
c20()

# ---- C05 representations
def c05():
    pid = 'C05'; BINS = 'gp op lcont rcont dot hip sp cp rp add sub igp dual undual even odd rotor dp'.split()
    UN1 = 'neg plus reverse involute conjugate inv rnorm_sqr rnorm unit'; UN2 = 'exp grade1 gradec lgrade Rdual grade zero isnull isunit'
    def form(name, n, sig, fa, fb, opl, tier='quick', **kw):
        m = ['MP=%d' % sig[0], 'MQ=%d' % sig[1], 'MR=%d' % sig[2]] if sig != 'c' else ['CONF']
        k = 'V' if fb is None else 'O'
        job(pid, '%s-%dd-%s-%s%s' % (name, n, sig if sig == 'c' else '%d%d%d' % sig, fa, '' if fb is None else 'x%d' % fb), 'forms.cpp', ['MC_N=%d' % n, 'FA=%d' % fa] + ([] if fb is None else ['FB=%d' % fb]) + m + ['OPS=' + ' '.join('%s(%s)' % (k, o) for o in opl.split())], tier, **dict(dict(opt='-O0', cost=15, mem=1.5), **kw))
    for nm, o in (('signs', UN1), ('grades', UN2)):
        form(nm, 2, (1, 1, 0), 127, None, o, cost=20, bound='every form of every value'); form(nm, 1, (1, 0, 0), 127, None, o, cost=10); form(nm, 3, (1, 1, 1), 6, None, o, 'thorough', mem=3); form(nm, 3, (2, 1, 0), 120, None, o, 'thorough', mem=6)
    all_n1 = {'gp': 15, 'op': 13, 'cp': 20, 'igp': 20, 'add': 18, 'lcont': 13}
    for o in BINS: form(o, 1, (1, 0, 0), 127, 127, o, 'quick' if o in all_n1 else 'thorough', cost=all_n1.get(o, 15), bound='every pair of forms of every pair of values'); form(o, 1, (0, 1, 0), 127, 127, o, 'thorough')
    quick = {('gp', 127, 4), ('lcont', 127, 2), ('dual', 4, 4), ('odd', 4, 4), ('rp', 127, 2), ('dp', 8, 4), ('sub', 64, 127), ('sp', 4, 4), ('even', 2, 2), ('hip', 4, 4)}
    for o in BINS:
        for fa in (1, 2, 4, 8, 16, 32, 64):
            for fb in (1, 2, 4, 8, 16, 32, 64): form(o, 2, (1, 1, 0), fa, fb, o, 'quick' if (o, fa, fb) in quick else 'thorough', mem=3)
        for fa, fb in ((127, 4), (127, 2), (64, 127)):
            if (o, fa, fb) in quick: form(o, 2, (1, 1, 0), fa, fb, o, cost=18)
        if o not in ('dp', 'even', 'odd', 'rotor', 'igp', 'dual'):
            for fa, fb in ((4, 2), (2, 4), (8, 1), (1, 8), (16, 4), (4, 16), (2, 16), (4, 4)): form(o, 3, (1, 1, 1), fa, fb, o, 'thorough', mem=4)
    for o in ('gp', 'op', 'lcont', 'rcont', 'dot', 'sp', 'cp', 'hip'):
        form(o, 3, 'c', 2, 8, o, 'quick' if o in ('gp', 'lcont') else 'thorough', cost=14); form(o, 3, 'c', 8, 16, o, 'thorough', mem=4); form(o, 3, 'c', 1, 16, o, 'thorough', mem=3); form(o, 3, 'c', 64, 2, o, 'thorough', mem=3)
    for o in 'gp op lcont rcont dot hip sp cp rp'.split():
        for S in ((4, 3, 1), (2, 1, 5)):
            job(pid, 'many-%s-%d%d%d' % ((o,) + S), 'products.cpp', ['PART=7', sigs([S]), ops(o)], 'quick' if S[2] == 1 and o in ('gp', 'lcont', 'rp') else 'thorough', cost=10, opt='-O0', bound='run-time blades of 8 dimensions against fixed and run-time blades, all pairs')
c05()

# ---- C06 lazy programs
def c06():
    pid = 'C06'
    T = dict(D='full_vector_t<double,2>', Y='scaled_basis_blade_t<int,0,2>', M='full_multivector_t<double,2>', I='full_multivector_t<int,2>', U='unit_basis_blade_t<0,2>', S='cblade<double,0>', L='cblade<long,3>',
        F='full_kvector_t<float,2,1>', V='full_vector_t<int,3>', B='full_kvector_t<double,3,2>', W='scaled_basis_blade_t<double,1,3>', E='scaled_basis_blade_t<int,2>', X='full_multivector_t<double,3>', P='scaled_basis_blade_t<long,1>')
    def lz(part, n, sig, ta, tb, leaves, o1, o2, o3=None, tier='quick', **kw):
        f = lambda l, c: ' '.join('%s(%s)' % (c, x) for x in l.split())
        m = ['CONF'] if sig == 'c' else ['MP=%d' % sig[0], 'MQ=%d' % sig[1], 'MR=%d' % sig[2]]
        d = ['PART=%d' % part, 'MC_N=%d' % n, 'TA=' + T[ta], 'TB=' + T[tb], 'LEAVES=' + ','.join('leaf_' + x for x in leaves), 'OPS1=' + f(o1, 'O' if part == 1 else 'U'), 'OPS2=' + f(o2, 'U' if part == 3 else 'O')] + ([] if o3 is None else ['OPS3=' + f(o3, 'U')]) + m
        short = lambda l: l.replace(' ', '_') if len(l) < 24 else '%s_x%d' % (l.split()[0], len(l.split()))
        job(pid, 'trees%d-%s%s-%s-%s-%s%s' % (part, ta, tb, sig if sig == 'c' else '%d%d%d' % sig, short(o1), short(o2), '' if o3 is None else '-' + short(o3)) + ('' if leaves == 'AB' else '-' + leaves), 'lazy.cpp', d, tier, **dict(dict(opt='-O0', cost=10, mem=1.5), **kw))
    BIN = 'gp op lcont rcont dot hip sp cp rp add ssub'.split(); VER = 'igp apply_even_versor apply_odd_versor apply_rotor dual undual'.split()
    rot = lambda l, k, m: ' '.join((l + l)[k:k + m])
    for i, o in enumerate(BIN):
        lz(1, 2, (1, 1, 0), 'D', 'D', 'AB', o, ' '.join(BIN), cost=17, bound='every tree (x o1 y) o2 z and z o2 (x o1 y) over the leaves A and B, every value of the inputs')
        lz(1, 2, (0, 1, 1), 'Y', 'D', 'AB', o, rot(BIN, i, 2), cost=16)
        lz(1, 2, (2, 0, 0), 'Y', 'D', 'AB', o, ' '.join(BIN), tier='thorough', mem=4)
        for k in range(0, 11, 4):
            lz(1, 2, (1, 0, 1), 'D', 'S', 'ABKZ', o, ' '.join(BIN[k:k + 4]), tier='quick' if k == 0 and o in ('gp', 'add', 'rp', 'hip', 'dot') else 'thorough', cost=18, mem=2, bound='trees with constant leaves')
            lz(1, 2, (1, 1, 0), 'M', 'Y', 'AB', o, ' '.join(BIN[k:k + 4]), tier='thorough', mem=5)
            lz(1, 2, (1, 1, 0), 'U', 'Y', 'ABK', o, ' '.join(BIN[k:k + 4]), tier='thorough', mem=5)
            lz(1, 3, (2, 1, 0), 'V', 'B', 'AB', o, ' '.join(BIN[k:k + 4]), tier='thorough', mem=4)
            lz(1, 3, (1, 1, 1), 'E', 'W', 'AB', o, ' '.join(BIN[k:k + 4]), tier='thorough', mem=5)
            lz(1, 3, 'c', 'V', 'P', 'AB', o, ' '.join(BIN[k:k + 4]), tier='thorough', mem=5)
    lz(1, 3, 'c', 'V', 'V', 'AB', 'gp', 'gp lcont', cost=12); lz(1, 3, (2, 1, 0), 'V', 'B', 'AB', 'gp', 'lcont op', cost=14); lz(1, 3, (1, 1, 1), 'E', 'W', 'AB', 'lcont', 'gp', cost=15)
    lz(1, 2, (1, 1, 0), 'M', 'I', 'AB', 'gp', 'gp add', cost=18, mem=2); lz(1, 2, (1, 1, 0), 'U', 'Y', 'AB', 'op', 'gp ssub', cost=15); lz(1, 2, (1, 0, 1), 'F', 'P', 'AB', 'add', 'gp add rp', cost=15)
    for i, o in enumerate(VER):
        lz(1, 2, (2, 0, 0), 'D', 'L', 'AB', o, 'gp add', cost=20, mem=2); lz(1, 2, (1, 1, 0), 'Y', 'D', 'AB', o, 'add', tier='thorough', mem=4); lz(1, 2, (1, 1, 0), 'D', 'D', 'AB', 'gp', o, cost=18, mem=2, tier='quick' if i in (0, 3, 5) else 'thorough')
        lz(1, 2, (1, 1, 0), 'D', 'S', 'ABKZ', o, 'gp op add', tier='thorough', mem=5); lz(1, 3, (2, 1, 0), 'V', 'B', 'AB', o, 'gp', tier='thorough', mem=8)
    UNA = 'neg reverse involute conjugate grade0 grade1 grade2 inv rnorm_sqr dualI undualI plus twice square half plus3 minus_e1'.split()
    for i in range(0, len(UNA), 3):
        u = ' '.join(UNA[i:i + 3])
        lz(2, 2, (1, 1, 0), 'D', 'Y', 'AB', u, rot(BIN, i, 2), rot(UNA, i + 5, 3), cost=17, mem=2, bound='every tree u2(u1(x) o y) and u2(y o u1(x))'); lz(3, 2, (2, 0, 0), 'Y', 'M', 'AB', u, rot(UNA, i + 3, 3), rot(UNA, i + 8, 2) + ' unit rnorm', tier='quick' if i % 2 else 'thorough', cost=19, mem=2)
        for k in range(0, 11, 3):
            lz(2, 2, (1, 1, 0), 'D', 'Y', 'AB', u, ' '.join(BIN[k:k + 3]), ' '.join(UNA), tier='thorough', mem=8); lz(2, 2, (0, 2, 0), 'I', 'S', 'ABK', u, ' '.join(BIN[k:k + 3]), ' '.join(UNA[:9]), tier='thorough', mem=8)
        for k in range(0, len(UNA), 6): lz(3, 2, (2, 0, 0), 'D', 'Y', 'AB', u, ' '.join(UNA[k:k + 6]), ' '.join(UNA) + ' unit rnorm', tier='thorough', mem=8); lz(3, 3, (1, 1, 1), 'B', 'W', 'AB', u, ' '.join(UNA[k:k + 6]), 'neg grade1 grade2 inv rnorm_sqr square', tier='thorough', mem=6)
    KI = 'vec dyn sca con two uni mix'.split()
    for i, k in enumerate(KI):
        for j, (third, tier) in enumerate(((rot(KI, 2 * i % 7, 3), 'quick'), (rot(KI, (2 * i + 3) % 7, 4), 'thorough'))):
            job(pid, 'contexts-%s-%d' % (k, j), 'lazy.cpp', ['PART=4', 'MC_N=2', 'MP=1', 'MQ=1', 'MR=0', 'TA=' + T['D'], 'TB=' + T['D'], 'FIRST=k_' + k, 'THIRD=' + ' '.join('K(%s)' % x for x in third.split())], tier, opt='-O0', cost=30, mem=2, bound='triples of kinds of inputs; every position; temporaries; copies; nesting')
    for a, b, nn, sig, fl in (('D', 'D', 2, (2, 0, 0), 'BLADE'), ('D', 'Y', 2, (1, 1, 0), 'BLADE'), ('M', 'P', 2, (1, 0, 1), 0), ('Y', 'D', 2, (1, 1, 0), 'DYN'), ('B', 'W', 3, (1, 1, 1), 'BLADE'), ('I', 'M', 2, (0, 2, 0), 0), ('V', 'B', 3, (2, 1, 0), 'BLADE'), ('F', 'D', 2, (1, 0, 1), 'BLADE')):
        job(pid, 'literals-' + a + b, 'lazy.cpp', ['PART=6', 'MC_N=%d' % nn, 'MP=%d' % sig[0], 'MQ=%d' % sig[1], 'MR=%d' % sig[2], 'TA=' + T[a], 'TB=' + T[b]] + ([fl] if fl else []), 'thorough' if a == 'V' else 'quick', opt='-O0', cost=12, mem=2, bound='tolerances and grades which are literals, constants, defaults; expressions which hold values of their own beside the arguments of the context')
    for k in ('vec', 'dyn', 'con'):
        for nin in (4, 5): job(pid, 'inputs%d-%s' % (nin, k), 'lazy.cpp', ['PART=7', 'MC_N=2', 'MP=1', 'MQ=1', 'MR=0', 'TA=' + T['D'], 'TB=' + T['D'], 'FIRST=k_' + k, 'NIN=%d' % nin], 'quick' if nin == 4 else 'thorough', opt='-O0', cost=21 if nin == 4 else 80, mem=1.3 if nin == 4 else 4, bound='contexts of %d inputs of every tuple of kinds; every input, every pair of neighbours in both orders, every sum of all inputs but one' % nin)
    for a, b in ('DY', 'MU', 'VW', 'BE'): job(pid, 'tolerances-' + a + b, 'lazy.cpp', ['PART=5', 'MC_N=%d' % (3 if a in 'VB' else 2), 'MP=1', 'MQ=1', 'MR=%d' % (1 if a in 'VB' else 0), 'TA=' + T[a], 'TB=' + T[b]], opt='-O0', cost=9)
c06()

# ---- scalar formulas: C07
def c07():
    pid = 'C07'
    UN = 'neg sq inv pow2 pow3 powm2 pow0 sqrt cbrt pow2_3 pow3_2 powm1_2 pow4_2 powm1_3 abs exp log cos sin tan cosh sinh tanh plus1 times2 minus npow2 npowh powof rnorm rns ginv addself subself divself'.split()
    CORE = 'neg sq inv sqrt cbrt pow2_3 powm1_2 abs exp log plus1 times2 rnorm'.split()
    BIN = 'add sub mul div pow'.split()
    def sc(part, x, y, leaves, o1, o2, o3='', tier='quick', **kw):
        f = lambda l, m: ' '.join('%s(%s)' % (m, o) for o in l.split())
        m = {1: 'UUU', 2: 'OOO', 3: 'UUO', 4: 'UOU'}[part]
        sh = {'double': 'd', 'int': 'i', 'float': 'f'}
        h = lambda l: l.replace(' ', '.') if len(l) < 26 else l.split()[0] + '..' + l.split()[-1] + str(len(l.split()))
        name = '%s-%s%s-%s-%s-%s-%s' % ({1: 'chain', 2: 'tree', 3: 'pair', 4: 'inner'}[part], sh[x], sh[y], h(leaves), h(o1), h(o2), h(o3))
        job(pid, name.replace('<', '').replace('>', ''), 'scalars.cpp', ['PART=%d' % part, 'TX=' + x, 'TY=' + y, 'LEAVES=' + f(leaves, 'V'), 'OPS1=' + f(o1, m[0]), 'OPS2=' + f(o2, m[1])] + (['OPS3=' + f(o3, m[2])] if o3 else []), tier, opt='-O0', **kw)
    J = ' '.join
    for a in chunks(CORE, 3):
        sc(1, 'double', 'double', 'x_', J(a), J(CORE), J(CORE), cost=17, mem=2, bound='every chain u3(u2(u1(x)))')
        sc(1, 'int', 'double', 'x_', J(a), J(CORE[::2]), J(CORE[1::2]), cost=6, mem=1.5)
        sc(4, 'double', 'double', 'x_ y_', J(a), 'mul pow', J(CORE[1:10:2]), cost=10, mem=2, bound='every u2(u1(x) o y) and u2(y o u1(x))')
    sc(1, 'double', 'double', 'k<2> k<-8> third root2', 'neg sq inv plus1', 'neg inv exp cos abs cbrt sqrt', 'neg inv abs log exp pow2_3', cost=10, mem=2)
    for b in BIN: sc(2, 'double', 'double', 'x_ y_ k<-2>', b, J(BIN), cost=14, mem=2, bound='every tree (l o m) o r and r o (l o m)')
    for i, u in enumerate(chunks(CORE, 3)): sc(3, 'double', 'double', 'x_ y_', J(u), J((CORE + CORE)[4 * i % 13:][:5]), 'mul div add', cost=14, mem=2, bound='every u1(l) o u2(m)')
    T = 'thorough'
    for a in UN:
        for l in ('x_', 'k<2>', 'k<-8>', 'third', 'root2'):
            for u2 in chunks(UN, 9): sc(1, 'double', 'double', l, a, J(u2), J(UN), tier=T, cost=30, mem=4)
        for x in ('int', 'float'): sc(1, x, 'double', 'x_', a, J(UN), J(CORE), tier=T, cost=30, mem=4)
        for u2 in chunks(UN, 12):
            sc(3, 'double', 'double', 'x_ y_', a, J(u2), 'mul div add sub', tier=T, cost=30, mem=4); sc(3, 'int', 'double', 'x_ y_ k<-2>', a, J(u2), 'mul div', tier=T, cost=30, mem=4)
            for b in BIN: sc(4, 'double', 'double', 'x_ y_ k<-2>', a, b, J(u2), tier=T, cost=30, mem=4)
    for b in BIN:
        for c in BIN:
            sc(2, 'double', 'double', 'x_ y_ k<-2> half third root2', b, c, tier=T, cost=60, mem=6)
            sc(2, 'int', 'double', 'x_ y_ k<-2> k<3>', b, c, tier=T, cost=20, mem=4); sc(2, 'float', 'int', 'x_ y_ k<-2> k<3>', b, c, tier=T, cost=20, mem=4)
c07()

# ---- iteration and textual output: C21
def c21():
    pid = 'C21'
    o = lambda name, d, tier='quick', **kw: job(pid, name, 'output.cpp', d, tier, opt='-O0', **kw)
    for m, n, t, c in ((63, 2, 'quick', 7), (7, 3, 'quick', 6), (8, 3, 'quick', 8), (48, 3, 'quick', 5), (127, 3, 'thorough', 30), (7, 4, 'quick', 9), (56, 4, 'thorough', 30), (63, 1, 'quick', 4), (7, 5, 'thorough', 30), (7, 6, 'thorough', 60)):
        o('kinds-%d-%d' % (n, m), ['PART=1', 'MC_N=%d' % n, 'MASK=%d' % m], t, cost=c, mem=2, bound='every representation, every stop position, three sets of names')
    for a, b, t in ((4, 8, 'quick'), (1, 4, 'quick'), (2, 32, 'quick'), (48, 2, 'quick'), (8, 8, 'thorough'), (4, 4, 'quick'), (32, 32, 'thorough'), (7, 63, 'thorough'), (63, 56, 'thorough'), (32, 16, 'quick')):
        o('results-%d-%d' % (a, b), ['PART=2', 'MC_N=2', 'MASK=%d' % a, 'MASKB=%d' % b], t, cost=14, mem=3)
        if a < 32 and b < 32: o('results3-%d-%d' % (a, b), ['PART=2', 'MC_N=3', 'MASK=%d' % a, 'MASKB=%d' % b], 'thorough', cost=40, mem=6)
    o('constants-2', ['PART=3', 'MC_N=2'], cost=20, mem=2); o('constants-3', ['PART=3', 'MC_N=3'], 'thorough', cost=25, mem=3)
    for kind, ds, extra in (('e', range(1, 6), ''), ('h', range(1, 5), 'ep'), ('p', range(1, 5), 'e0'), ('m', range(1, 4), 'ep em'), ('c', range(1, 4), 'no ni')):
        for d in ds:
            names = ['e%d' % (k + 1) for k in range(d)] + extra.split()
            o('names-ga%d%s' % (d, kind), ['PART=4', 'MC_N=%d' % len(names), 'ALG=<gatl/ga%d%s.hpp>' % (d, kind), 'NS=ga%d%s' % (d, kind), 'VECTORS=' + ' '.join('V(%d,%s)' % (k + 1, n) for k, n in enumerate(names)), 'NAMES=' + ','.join('"%s"' % n for n in names)] + (['POINTS=1'] if kind in 'mc' else []), cost=4, mem=1)
    for m in range(1, 8): job(pid, 'declared-%d' % m, 'declared.cpp', ['MC_N=%d' % m], 'quick' if m < 5 else 'thorough', opt='-O0', cost=3 + 2 * m, mem=2, bound='every declared type of multivector, every grade or range of grades, every blade')
    for m in (8, 16, 31, 32, 62, 63): o('highest-%d' % m, ['PART=5', 'GA_MAX_BASIS_VECTOR_INDEX=%d' % m], 'quick' if m in (8, 31, 63) else 'thorough', cost=3)
c21()

# ---- build-time configuration: C22
def c22():
    import re
    pid = 'C22'
    def config(mx=63, i='std::int64_t', f='double', tf='1.0e-8f', td='1.0e-8'):
        tag = 'm%d-%s-%s' % (mx, {'std::int64_t': 'i64', 'std::int32_t': 'i32', 'std::int16_t': 'i16', 'long long': 'll'}[i], {'double': 'd', 'float': 'f', 'long double': 'ld'}[f]) + ('' if (tf, td) == ('1.0e-8f', '1.0e-8') else '-tf%s-td%s' % (tf, td))
        d = (['GA_MAX_BASIS_VECTOR_INDEX=%d' % mx] if mx != 63 else []) + (['GA_DEFAULT_INTEGRAL_TYPE=' + i] if i != 'std::int64_t' else []) + (['GA_DEFAULT_FLOATING_POINT_TYPE=' + f] if f != 'double' else []) + (['MC_FLOAT=true'] if f == 'float' else [])
        t = (['GA_DEFAULT_FLT_TOLERANCE=' + tf] if tf != '1.0e-8f' else []) + (['GA_DEFAULT_DBL_TOLERANCE=' + td] if td != '1.0e-8' else [])
        return tag, d + t, ['EXPECT_MAX=%d' % mx, 'EXPECT_I=' + i, 'EXPECT_F=' + f, 'EXPECT_TF=' + tf, 'EXPECT_TD=' + td]
    def own(tier='quick', parts='1df', **kw):
        tag, d, e = config(**kw)
        if '1' in parts: job(pid, 'types-' + tag, 'config.cpp', ['PART=1'] + d + e, tier, opt='-O0', cost=4, bound='the types and the largest basis vector of this configuration')
        for t in parts.replace('1', ''): job(pid, 'tolerance-%s-%s' % (t, tag), 'config.cpp', ['PART=2', 'TYPE=' + {'d': 'double', 'f': 'float'}[t]] + d + e, tier, opt='-O0', cost=9, bound='every combination of coefficients below, at, above the tolerance, in every function with a default tolerance')
    for n in (2, 3, 4, 7, 8, 15, 16, 31, 32, 62, 63): own('quick', '1', mx=n)
    for i in ('std::int16_t', 'std::int32_t', 'long long'): own('quick', '1', i=i); own('thorough', 'df', i=i)
    for f in ('float', 'long double'): own('quick', '1', f=f); own('thorough', 'df', f=f)
    for k, (tf, td) in enumerate((('1.0e-8f', '1.0e-8'), ('1e-3f', '1e-5'), ('0', '0'), ('1e-5f', '1e-12'), ('1e-10f', '1e-2'))): own('quick', 'df' if k < 3 else '1', tf=tf, td=td); (k > 2 and own('thorough', 'df', tf=tf, td=td))
    def others(sel, tier, **kw):
        tag, d, _ = config(**kw)
        for p in sorted(JOBS):
            for j in JOBS[p]:
                if p != pid and re.search(sel, p + ':' + j['name']):
                    if any(x.startswith('GA_MAX') for x in j['defs']): continue
                    job(pid, '%s-%s-%s' % (p, j['name'], tag), j['src'], j['defs'] + d, tier, **{k: v for k, v in j.items() if k not in ('name', 'src', 'defs', 'tier')})
    Q = 'C01:mixed-210$|C08:grade0-7$|C11:kinds-2d-dyn$|C12:kinds-16$|C13:ga2e-group|C16:meet2-1-1$|C19:coords-e1$|C05:signs-1d|C07:chain-id-x_-neg.sq|C21:kinds-1-63|C06:tolerances-DY'
    T = Q + '|C01:ga3e-declared|C10:runtime-3d|C18:flats-c1-k01|C20:full-gp$|C01:dyn-0|C02:dyn-0|C03:dyn-0|C17:dyn-0|C08:grade|C11:kinds-2d|C12:kinds-|C14:|C15:.*2|C19:coords|C21:kinds-2'
    C = (dict(mx=7, i='std::int16_t', f='float'), dict(mx=15, i='std::int32_t', f='long double'), dict(mx=31, i='long long'), dict(mx=16, i='std::int16_t'))
    for kw in C: others(Q, 'quick', **kw)
    for kw in C + (dict(mx=8), dict(mx=32), dict(mx=62), dict(i='std::int32_t'), dict(f='float'), dict(f='long double')): others(T if kw not in C else '(?!%s)(?:%s)' % (Q, T), 'thorough', **kw)
c22()

# ---- value semantics: C23
def c23():
    pid = 'C23'
    R = lambda l: ' '.join('R(%s)' % o for o in l.split())
    K = lambda l: ' '.join('K(%s)' % k for k in l.split())
    UN = 'plus neg rev revop involute conjugate take1 take0 norm2 gpself times timest plus1 plust minus half half2 dual undual take_largest expr scalarof nabs npow2 npow3 nexp ncos ncbrt inv unit rnorm'
    BI = 'add sub gp op lcont rcont dot hip sp cp rp igp dp even rotor odd nested'
    LA = 'add same sub gp sandwich op3 lcont norm2 half pow2 pow3 pow4 pow3s powm3 div abs sqrt expo'
    ASAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all']
    def add(part, name, sig, extra, tier='quick', ct=None, san=False, cost=8, **kw):
        job(pid, '%s-%s%s%s' % (name, '%d%d%d' % sig, '' if ct is None else '-' + ct, '-san' if san else ''), 'values.cpp', ['PART=%d' % part, 'MP=%d' % sig[0], 'MQ=%d' % sig[1], 'MR=%d' % sig[2]] + ([] if ct is None else ['CT=' + ct]) + extra,
            tier, opt='-O0', flags=ASAN if san else [], cost=cost * (2.5 if san else 1), mem=1.8 if san else 1.2, **kw)
    E2 = (2, 0, 0)
    def unary(kinds, sig, drop='', **kw):
        add(1, 'unary-' + kinds.replace(' ', ''), sig, ['KINDS=' + K(kinds), 'UNARY=' + R(' '.join(o for o in UN.split() if o not in drop.split()))], bound='every value category of the operand of every unary operation', **kw)
    def binary(left, kinds, sig, drop='', **kw):
        add(2, 'binary-%s-%s' % (left, kinds.replace(' ', '')), sig, ['LEFT=K_' + left, 'KINDS=' + K(kinds), 'BINARY=' + R(' '.join(o for o in BI.split() if o not in drop.split()))], bound='every pair of value categories of the operands of every binary operation', **kw)
    def lazily(left, kinds, sig, **kw):
        add(3, 'lazy-%s-%s' % (left, kinds.replace(' ', '')), sig, ['LEFT=K_' + left, 'KINDS=' + K(kinds), 'BINARY=' + R(LA)], bound='every pair of value categories of the inputs of a lazy context, inputs changed or gone at evaluation', **kw)
    for k in ('T S', 'V M', 'D W', 'U E', 'B R', 'C X I', 'P'): unary(k, E2)
    for k in ('V', 'D'): unary(k, E2, ct='double', san=True)
    for l in 'VDST': binary(l, 'T V D', E2)
    binary('V', 'V', E2, ct='double', san=True); binary('D', 'D', E2, ct='double', san=True)
    for l in 'SVDC': lazily(l, 'S V D C', E2)
    lazily('V', 'V', E2, ct='double', san=True)
    for b in range(1, 8): add(4, 'build%d' % b, E2, ['BUILD=%d' % b], bound='every value category of the arguments of every construction, copy, conversion and assignment')
    for b in range(1, 8): add(4, 'build%d' % b, E2, ['BUILD=%d' % b], ct='double', san=True, tier='quick' if b in (1, 4) else 'thorough', bound='every value category of the arguments of every construction, copy, conversion and assignment')
    H = 'every sequence of operations on a scalar, a vector, a multivector and a native up to the depth'
    add(5, 'histories3', E2, ['DEPTH=3'], bound=H, san=True, cost=10)
    add(5, 'histories4', E2, ['DEPTH=4'], bound=H, san=True, tier='thorough', cost=50); add(5, 'histories5', E2, ['DEPTH=5'], bound=H, tier='thorough', cost=400)
    # deeper
    NOR = 'rnorm unit'; DEG = 'rnorm unit dual undual inv'
    for sig, drop in (((3, 0, 0), ''), ((1, 1, 0), NOR), ((0, 2, 0), NOR), ((1, 1, 1), DEG), ((4, 0, 0), '')):
        for k in ('T S', 'V', 'M', 'D W', 'U E', 'B R', 'P'): unary(k, sig, drop, tier='thorough')
    for k in ('T S', 'M W', 'U E', 'B R', 'C X', 'P'): unary(k, E2, ct='double', san=True, tier='thorough')
    for k in ('T S', 'V M', 'D W', 'U E', 'B R', 'P'): unary(k, E2, san=True, tier='thorough')
    for l in 'TSVMDWUBEPR':
        for ks in ('T V D', 'S M W', 'U B E', 'C X I', 'P R'):
            if not (ks == 'T V D' and l in 'VDST'): binary(l, ks, E2, tier='thorough', cost=25)
    for l in 'VDB': binary(l, 'V D B', (1, 1, 0), 'igp even odd', tier='thorough', cost=25); binary(l, 'V D B', (1, 1, 1), 'igp even odd', tier='thorough', cost=25); binary(l, 'T V D B', (3, 0, 0), tier='thorough', cost=30)
    for l in 'VDMP': binary(l, 'V D M P', E2, ct='double', san=True, tier='thorough', cost=30)
    for l in 'SVDMBC':
        for ks in ('S V D C', 'M B'):
            if not (ks == 'S V D C' and l in 'SVDC'): lazily(l, ks, E2, tier='thorough', cost=20)
    for l in 'SVDC': lazily(l, 'S V D C', E2, ct='double', san=True, tier='thorough', cost=25)
c23()

# ---- every overload for plain numbers and scalars, with and without the metric
def natives():
    own = dict(GP='C01', OP='C02', IN='C03', CP='C03', RP='C17', IGP='C12', DP='C16', APPLY='C14', EXP='C15', POW='C07', GRADE='C11', SIGN='C08')
    cost = dict(GP=12, OP=7, IN=24, CP=20, RP=6, IGP=20, DP=14, APPLY=28, EXP=4, POW=4, GRADE=5, SIGN=3)
    for g, pid in own.items():
        for p in (pid, 'C05'): job(p, 'numbers-' + g.lower(), 'natives.cpp', ['N_' + g], 'quick', opt='-O0', cost=cost[g], bound='every pair of number, scalar and multivector operands with at least one number or scalar')
natives()

# ---- results whose basis blade is chosen at run time: the grades admitted by their types
def ranges():
    home = dict(gp='C01', op='C02', rp='C17')
    for i, o in enumerate('gp op lcont rcont dot hip sp cp rp'.split()):
        p = home.get(o, 'C03')
        for j, (lo, hi) in enumerate((a, b) for a in range(4) for b in range(a, 4)):
            sig = ((3, 0, 0), (2, 1, 0), (1, 1, 1), (2, 0, 1))[(i + j) % 4]
            d = lambda n, s: ['MC_N=%d' % n, 'MP=%d' % s[0], 'MQ=%d' % s[1], 'MR=%d' % s[2], 'OP=' + o, 'LEFT=%d,%d' % (lo, hi)]
            bd = 'every pair of ranges of grades of run-time blades (and constant blades) with this one, every blade; then each involution, grade part and outer product of the result'
            quick = (lo, hi) in ((1, 2), (0, 3))
            job(p, 'ranges-3d-%s-%d%d' % (o, lo, hi), 'ranges.cpp', d(3, sig), 'quick' if quick else 'thorough', opt='-O0', cost=10, bound=bd)
            if (lo, hi) in ((0, 2), (1, 3)): job('C05', 'ranges-3d-%s-%d%d' % (o, lo, hi), 'ranges.cpp', d(3, sig), 'quick' if (i + lo) % 2 else 'thorough', opt='-O0', cost=10, bound=bd)
            job(p, 'ranges-4d-%s-%d%d' % (o, lo, hi), 'ranges.cpp', d(4, (sig[0] + 1,) + sig[1:]), 'thorough', opt='-O0', cost=40, bound=bd)
ranges()

NOTE = ('Holds on every state and transition of the enumerated bounded space, executed on the real code (no abstraction between code and verdict). Outside the bounds nothing is claimed. '
        'Trusts g++-11, the reference model (cross-checked at start-up) and the observer that reads stored entries of expressions.')
NOTES = {}
NA = {}
