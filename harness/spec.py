# Which harness configurations and searches decide each property.
def X(cont, elem, alloc='stateful', std='17', debug=0, cc='g++', san='', kind='exec'):
    return dict(kind=kind, cont=cont, elem=elem, alloc=alloc, std=std, debug=debug, cc=cc, san=san)

CB, SO = 0, 1

def jobs(cfgs, modes):
    return [(c, dict(m)) for c in cfgs for m in modes]

def R(cases, t, **k): return dict(mode='rand', cases=cases, time=t, **k)
def EX(cases, t, **k): return dict(mode='exc', cases=cases, time=t, **k)
def EN(maxcap, t, **k): return dict(mode='enum', cases=10**9, time=t, maxcap=maxcap, **k)
def EE(maxcap, t, **k): return dict(mode='enumexc', cases=10**9, time=t, maxcap=maxcap, **k)
def FZ(t, **k): return dict(mode='fuzz', cases=0, time=t, **k)
def shards(m, n):
    return [dict(m, shard='%d/%d' % (i, n)) for i in range(n)]

content_cb = [X(CB, 'copy'), X(CB, 'nmove'), X(CB, 'tmove'), X(CB, 'monly'), X(CB, 'int'), X(CB, 'str', 'std'), X(CB, 'pod'),
              X(CB, 'uchar', 'minimal'), X(CB, 'copy', 'fancy'), X(CB, 'copy', std='03'), X(CB, 'int', 'std', std='03'), X(CB, 'long')]
content_so = [X(SO, 'copy'), X(SO, 'nmove'), X(SO, 'int'), X(SO, 'str', 'std'), X(SO, 'pod', 'fancy'), X(SO, 'int', std='03'), X(SO, 'long', 'std')]
more_cb = [X(CB, 'big'), X(CB, 'nmta'), X(CB, 'copy', cc='clang++', std='20'), X(CB, 'int', 'fancy', std='11'), X(CB, 'str', 'std', san='asan'), X(CB, 'int', 'std', san='asan'),
           X(CB, 'copy', debug=1, std='11'), X(CB, 'int', cc='clang++', std='03')]
more_so = [X(SO, 'tmove'), X(SO, 'monly'), X(SO, 'big'), X(SO, 'nmta'), X(SO, 'copy', std='03'), X(SO, 'copy', cc='clang++', std='20'), X(SO, 'str', 'std', san='asan'),
           X(SO, 'copy', debug=1, std='11')]
fuzzers = lambda conts: [X(c, e, a, cc='clang++', san='fuzz') for c in conts for e, a in (('str', 'std'), ('copy', 'stateful'))]

TRUST = ['the harness, its reference models and the compilers are trusted', 'element and allocator types other than the generated ones behave like one of them',
         'histories are sampled beyond the exhaustively enumerated single operations on small states']

def content(conts, quick_rand=250000, enum=5, must=None, only=None):
    def f(tier):
        cfgs = (content_cb if 0 in conts else []) + (content_so if 1 in conts else [])
        if only: cfgs = [c for c in cfgs if only(c)]
        if tier == 'quick':
            j = jobs(cfgs, [R(quick_rand, 8), EN(enum, 8)])
        else:
            cfgs = cfgs + (more_cb if 0 in conts else []) + (more_so if 1 in conts else [])
            if only: cfgs = [c for c in cfgs if only(c)]
            j = jobs(cfgs, [R(1500000, 90), EN(enum + 2, 60)]) + jobs(fuzzers(conts), shards(FZ(150), 2))
        return dict(level='exploration', jobs=j, must_build=must, assumptions=TRUST)
    return f

def faulty(cfgs_q, cfgs_t, level='fault_enumeration', rand=True, must=None, q=(150000, 6), enum=3, fuzz=None):
    def f(tier):
        if tier == 'quick':
            j = jobs(cfgs_q, ([R(q[0], q[1])] if rand else []) + [EX(4 * q[0], q[1]), EE(enum, q[1])])
        else:
            j = jobs(cfgs_q + cfgs_t, ([R(1500000, 60)] if rand else []) + [EX(10**7, 90), EE(enum + 2, 60)])
            if fuzz: j += jobs(fuzzers(fuzz), shards(FZ(150), 2))
        return dict(level=level, jobs=j, must_build=must, assumptions=TRUST)
    return f

def plain(cfgs_q, cfgs_t, q=(200000, 8), enum=4, level='exploration', must=None, fuzz=None, extra=None):
    def f(tier):
        if tier == 'quick':
            j = jobs(cfgs_q, [R(q[0], q[1]), EN(enum, q[1])])
        else:
            j = jobs(cfgs_q + cfgs_t, [R(2000000, 90), EN(enum + 2, 60)])
            if fuzz: j += jobs(fuzzers(fuzz), shards(FZ(150), 2))
        if extra: j = extra(tier) + j
        return dict(level=level, jobs=j, must_build=must, assumptions=TRUST)
    return f

track = ['copy', 'nmove', 'tmove', 'nmta', 'tmna', 'monly', 'big', 'tasg']
SPECS = {}
SPECS['C01'] = content((0, 1))
SPECS['C02'] = content((0, 1), 200000, 5)
SPECS['C03'] = content((0, 1), 250000, 6)
SPECS['C04'] = content((0, 1), 200000, 5)
SPECS['C05'] = content((0, 1), 250000, 6)
SPECS['C06'] = content((0, 1), 200000, 5)
SPECS['C07'] = content((0, 1), 100000, 6)
SPECS['C08'] = content((0, 1), 250000, 7)
SPECS['C09'] = faulty([X(CB, e) for e in track] + [X(SO, e) for e in ('copy', 'nmove', 'tmove', 'tasg')] + [X(CB, 'copy', 'std', std='03'), X(CB, 'copy', 'fancy')],
                      [X(CB, 'copy', std='11', debug=1), X(SO, 'copy', std='03'), X(SO, 'nmta'), X(SO, 'monly'), X(SO, 'big'), X(CB, 'tmonly'), X(CB, 'str', 'std', san='asan'), X(CB, 'nmove', cc='clang++', std='20')],
                      level='fault_enumeration', q=(150000, 6), fuzz=(0, 1))
SPECS['C10'] = faulty([X(CB, 'copy'), X(CB, 'nmove'), X(CB, 'int'), X(CB, 'copy', 'minimal'), X(CB, 'int', 'minimal'), X(CB, 'nmove', 'fancy'), X(CB, 'int', 'fancy'),
                       X(SO, 'copy'), X(SO, 'int', 'fancy'), X(SO, 'nmove', 'minimal'), X(CB, 'copy', std='03'), X(CB, 'copy', std='20'), X(CB, 'pod'), X(SO, 'pod')],
                      [X(CB, 'int', 'std', san='asan'), X(CB, 'str', 'std', san='asan'), X(SO, 'str', 'std', san='asan'), X(SO, 'int', 'std', san='asan'), X(CB, 'big'), X(CB, 'copy', 'fancy', std='03'),
                       X(SO, 'copy', std='03'), X(CB, 'copy', debug=1), X(SO, 'tmove')],
                      q=(150000, 6), must=lambda c: c['alloc'] in ('fancy', 'minimal'), fuzz=(0, 1))
SPECS['C11'] = faulty([X(CB, e) for e in ('copy', 'nmove', 'tmove', 'nmta', 'tmna', 'monly', 'big', 'tmonly')] + [X(CB, 'int'), X(CB, 'str', 'std'), X(CB, 'copy', 'fancy'), X(CB, 'copy', std='03'), X(CB, 'copy', std='11', debug=1)],
                      [X(CB, 'str', 'std', san='asan'), X(CB, 'copy', 'std', san='asan'), X(CB, 'tmove', std='20', cc='clang++'), X(CB, 'nmove', std='11', debug=1), X(CB, 'copy', 'minimal'), X(CB, 'tasg')], q=(150000, 6), fuzz=(0,))
SPECS['C12'] = faulty([X(CB, e) for e in ('copy', 'nmove', 'tmove', 'nmta', 'tmna', 'int', 'big')] + [X(SO, e) for e in ('copy', 'nmove', 'tmove', 'tmna')] + [X(CB, 'copy', std='03'), X(CB, 'copy', 'fancy')],
                      [X(SO, 'copy', std='03'), X(SO, 'nmta'), X(CB, 'copy', debug=1), X(CB, 'monly'), X(CB, 'tmove', std='20', cc='clang++')], q=(150000, 6), enum=4)
SPECS['C13'] = faulty([X(CB, e) for e in ('copy', 'nmove', 'tmove', 'nmta', 'tmna', 'monly', 'big', 'tmonly')] + [X(SO, e) for e in ('nmove', 'tmove', 'tmna', 'monly', 'big')],
                      [X(SO, 'copy'), X(SO, 'nmta'), X(CB, 'tmove', std='11'), X(CB, 'tmove', std='20', cc='clang++'), X(CB, 'nmove', std='11', cc='clang++')], q=(150000, 6),
                      must=lambda c: c['elem'] in ('monly', 'tmonly'), level='fault_enumeration', fuzz=(0,))
SPECS['C14'] = plain([X(CB, e) for e in ('copy', 'nmove', 'tmove', 'monly', 'int', 'pod')] + [X(CB, 'copy', 'fancy'), X(CB, 'copy', std='03'), X(SO, 'copy'), X(SO, 'int'), X(CB, 'str', 'std')],
                     [X(CB, 'big'), X(CB, 'nmta'), X(CB, 'copy', debug=1, std='11'), X(SO, 'nmove'), X(CB, 'int', 'std', san='asan')], fuzz=(0,))
SPECS['C15'] = plain([X(CB, e) for e in ('copy', 'nmove', 'tmove', 'monly', 'int', 'uchar', 'pod', 'big')] + [X(CB, 'copy', std='03'), X(CB, 'copy', 'fancy'), X(CB, 'int', 'fancy'), X(SO, 'copy'), X(SO, 'nmove')],
                     [X(CB, 'nmta'), X(CB, 'str'), X(CB, 'copy', std='20', cc='clang++')], enum=5)
so_q = [X(SO, e) for e in ('copy', 'nmove', 'tmove', 'int', 'monly', 'pod')] + [X(SO, 'str', 'std'), X(SO, 'copy', 'fancy'), X(SO, 'copy', std='03'), X(SO, 'int', 'minimal')]
so_t = [X(SO, e) for e in ('big', 'nmta', 'tmna', 'uchar')] + [X(SO, 'int', std='03'), X(SO, 'str', 'std', san='asan'), X(SO, 'copy', std='20', cc='clang++'), X(SO, 'copy', debug=1, std='11')]
SPECS['C16'] = plain(so_q, so_t, q=(300000, 10), enum=4, fuzz=(1,))
SPECS['C17'] = plain([c for c in so_q if c['alloc'] != 'std'], so_t, q=(300000, 10), enum=5, fuzz=(1,))
SPECS['C18'] = faulty([X(SO, e) for e in ('copy', 'nmove', 'tmove', 'nmta', 'tmna', 'monly', 'int')] + [X(SO, 'str', 'std'), X(SO, 'copy', 'fancy'), X(SO, 'copy', std='03'), X(SO, 'copy', std='11', debug=1)], so_t, q=(200000, 7), fuzz=(1,))
SPECS['C19'] = plain([X(CB, 'copy', std='17', debug=1), X(CB, 'int', std='03', debug=1), X(CB, 'int', debug=1), X(CB, 'str', 'std', debug=1), X(CB, 'nmove', std='11', debug=1), X(CB, 'monly', debug=1),
                      X(CB, 'int', 'std', debug=1, san='asan'), X(SO, 'copy', debug=1), X(SO, 'int', std='03', debug=1), X(SO, 'int', 'std', debug=1, san='asan')],
                     [X(CB, 'copy', std='20', cc='clang++', debug=1), X(CB, 'tmove', debug=1), X(SO, 'nmove', debug=1, std='11'), X(CB, 'copy', 'fancy', debug=1)], q=(200000, 8), enum=3)
dbg_q = [X(CB, 'copy', debug=1), X(CB, 'int', std='03', debug=1), X(CB, 'nmove', std='11', debug=1), X(CB, 'pod', debug=1), X(CB, 'str', 'std', debug=1), X(SO, 'copy', debug=1), X(SO, 'int', std='03', debug=1), X(SO, 'pod', debug=1), X(CB, 'int', 'fancy', debug=1)]
def misuse_jobs(tier):
    j = []
    for c in (CB, SO):
        for e in ('int', 'str'):
            for std in (('17',) if tier == 'quick' else ('17', '11', '20')):
                j += jobs([X(c, e, std=std, debug=1, kind='misuse')], [R(60000, 8), EN(2, 12)] if tier == 'quick' else [R(3000000, 120), EN(4, 150)])
    if tier != 'quick':
        j += jobs([X(c, e, debug=1, kind='misuse', san='asan') for c in (CB, SO) for e in ('int', 'str')], [R(10**7, 90)])
    return j
SPECS['C20'] = plain(dbg_q, [X(CB, 'copy', std='20', cc='clang++', debug=1), X(CB, 'tmove', debug=1), X(SO, 'nmove', debug=1, std='11')], q=(150000, 6), enum=4, extra=misuse_jobs)
def c22(tier):
    q = tier == 'quick'
    j = []
    for c in (CB, SO):
        for e in ('int', 'str'):
            j += jobs([X(c, e, kind='readonly')], [R(60000, 8), EN(5, 8)] if q else [R(10**7, 100), EN(9, 100)])
            j += jobs([X(c, e, kind='threads', san='tsan')], shards(R(10**7, 9 if q else 240, racy=1, args=['--cpu', '120']), 1))
            j += jobs([X(c, e, kind='threads')], [R(10**7, 5 if q else 60, racy=1)])
    return dict(level='exploration', jobs=j, assumptions=TRUST[:2] + ['thread schedules are those the machine produced; ThreadSanitizer detects races on any of them by happens-before'])
SPECS['C22'] = c22
def c24(tier):
    q = tier == 'quick'
    j = []
    for c in (CB, SO):
        j += jobs([X(c, 'uchar', kind='large')], shards(EN(100, 300, args=['--cpu', '250']), 6))
        for e in ('int', 'uchar', 'long'):
            j += jobs([X(c, e, kind='large')], [R(10**7, 10 if q else 200), EN(5 if q else 9, 8 if q else 200)])
        if not q:
            j += jobs([X(c, 'int', std='11', cc='clang++', kind='large')], [R(10**7, 150)])
    return dict(level='exploration', jobs=j, assumptions=TRUST[:2] + ['large storage is simulated by sparse memory; capacities above 2^41 are exercised only through length errors'])
SPECS['C24'] = c24
SPECS['C25'] = lambda tier: dict(level='exploration', arch=(150, 110) if tier == 'quick' else (6000, 780), jobs=[],
                                 assumptions=['element types, operations and build settings are those the generator composes (harness/arch.py)', 'g++ 13 and clang 18 on x86-64'])
SPECS['C21'] = content((0, 1), 150000, 5)
SPECS['C23'] = content((0, 1), 200000, 5, must=lambda c: c['elem'] == 'int' and c['std'] == '17' and c['alloc'] == 'stateful')

TITLES, RULES = {}, {}
GEN = ('A case is an initial state (capacity, minimum capacity, wrap offset, size, and the same for a second buffer) and a sequence of operations with parameters, run on the real container and on a '
       'reference model in lockstep. ')
WRAP = 'the content wraps around the end of the storage or the buffer is full before such an operation'
MID = 'the buffer is neither empty nor in its initial layout (non-zero offset or contents) before such an operation'
THREW = 'an injected exception (element operation, allocation or source iterator, every point in turn) was actually thrown inside such an operation'
for _id, _n in {'C01': WRAP, 'C02': WRAP, 'C03': WRAP, 'C04': WRAP + ', or it holds elements', 'C05': WRAP, 'C06': WRAP, 'C07': WRAP, 'C08': WRAP, 'C09': MID, 'C10': MID, 'C11': THREW, 'C12': MID, 'C13': MID,
                'C14': MID + ', or iterators obtained before it are held', 'C15': MID, 'C16': MID, 'C17': MID, 'C18': THREW, 'C19': 'iterators obtained before an operation are held across it', 'C20': MID,
                'C21': 'at least one side holds elements or both are empty before a comparison', 'C23': 'a range operation runs on a non-empty or an empty (zero-capacity included) buffer'}.items():
    RULES[_id] = GEN + 'Non-trivial: it contains an operation the property is about and ' + _n + '. Distinct: different state, operations, parameters or configuration (hash of the whole case).'

RULES['C20'] += ' For the misuse search: one documented misuse (or its legal neighbour) is performed on a generated state; every such case is non-trivial.'
RULES['C22'] = ('A case is a buffer state and a script of const operations executed with the object and its storage write-protected, or a state and thread scripts run concurrently (under ThreadSanitizer and without) and compared with '
                'per-thread models. Non-trivial: the protected or shared buffer holds storage. Distinct: different parameters or configuration.')
RULES['C24'] = ('A case is a state (capacity class up to above 2^32, offset, size) and three operations with count classes up to the largest representable value, compared with a sequence model. Non-trivial: the capacity exceeds 255, a count is '
                'at least 255, or a length error is provoked. Distinct: different parameters or configuration.')
RULES['C25'] = ('A case is one element type (a ready-made one or a generated class with a random set of features) with one of the two containers and a set of operations, compiled in a generated program under generated build settings and run on '
                'a pseudo-random history compared with a plain sequence. Non-trivial: at least three operations and the type is not plain int. Distinct: different type features, container, operations or build settings.')
