"""Which harness runs in which configurations for each property."""


def is_release(cfg): return cfg.endswith(('n', 'n3', 'nd')) and 'san' not in cfg or cfg in ('gOs', 'cOz')


class Job:
    def __init__(self, src, cfg, defs=(), tier='qt', scale=(1, 10), args=(), timeout=240, weight=None, same_seed=False, digest=None, valgrind=False):
        # in a build without debug checks what the library makes of OPTION_VERIFY is part of what runs
        if is_release(cfg): defs = tuple(d for d in defs if d != 'MON_VERIFY')
        self.src, self.cfg, self.defs, self.tier, self.scale, self.args = src, cfg, tuple(defs), tier, scale, tuple(args)
        self.timeout, self.same_seed, self.digest = timeout, same_seed, digest
        self.valgrind = valgrind or cfg.startswith('vg')
        self.weight = weight if weight is not None else (3 if cfg.startswith('g') and not cfg.endswith('n') else 1)
        self.name = src.replace('.cpp', '') + (''.join('+' + d for d in defs)) + '/' + cfg

    def scale_for(self, tier): return self.scale[0] if tier == 'quick' else self.scale[1]


def groups(src, gs, quick, thorough, scale=(1, 10), defs=(), **kw):
    """quick: list of cfg-lists cycled over the groups; thorough: cfgs run for every group (in addition)."""
    out = []
    for n, g in enumerate(gs):
        q = quick[n % len(quick)]
        d = ('GROUP=%d' % g,) + tuple(defs)
        for c in q: out.append(Job(src, c, d, 'qt', scale, **kw))
        for c in thorough:
            if c not in q: out.append(Job(src, c, d, 't', scale, **kw))
    return out


ALLCFG = ['g17', 'g20', 'c17', 'c20', 'g17n', 'g20n3', 'c17n3', 'c20n', 'g20o']
PAIRS = [['c17', 'g20n'], ['c20', 'g17n'], ['c17', 'c20n'], ['c20', 'c17n']]

CHECKS = {}

CHECKS['C01'] = dict(
    rule='random histories of 38 kinds of operation over 4 guarded option slots per element type, each step compared with a nullable-value model; '
         'distinct = different (element type, operation, both operand states and value ids, aliasing) observed',
    jobs=groups('c01.cpp', range(11), [['c17', 'g20n'], ['c20', 'g17n']], ALLCFG, scale=(6, 120), timeout=400),
)
CHECKS['C02'] = dict(
    rule='random histories of 96 operations over 3 options (plus temporaries) of element types that register every construction, destruction and use by address; '
         'after each operation the set of live registered objects is compared with what the options claim to hold; distinct = (type, operation, pre-states, aliasing, moved-from, number live)',
    jobs=groups('c02.cpp', range(8), [['c17', 'g20n'], ['c20', 'g17n'], ['g17', 'c20n']], ALLCFG + ['vg'], scale=(1, 40), defs=('HIST',), timeout=800),
)
CHECKS['C03'] = dict(
    rule='every operation of the table x pre-states of both operands x storage fill x user-code point: the k-th point (construction, copy, move, assignment, conversion, comparison, callback) throws, '
         'for k = 0, 1, ... until the operation completes without the fault; distinct = (type, operation, pre-state, k) that threw',
    level='fault_enumeration',
    jobs=groups('c02.cpp', range(8), [['c17', 'g20n'], ['c20', 'g17n'], ['g17', 'c20n']], ALLCFG, scale=(1, 1), defs=('FAULT',), timeout=400),
)
CHECKS['C04'] = dict(
    rule='each operation in each const/ref-qualified form x pre-states, on element types that count and mark every copy, move and assignment: counts compared with the permitted ones, '
         'sources of lvalue operations compared before/after, object identity (address and birth serial) of contained objects; distinct = (type, operation, pre-state)',
    jobs=groups('c04.cpp', range(9), [['c17', 'g20n'], ['c20', 'g17n']], ALLCFG, scale=(1, 1), timeout=200)
        + groups('c04.cpp', (9, 10, 11, 12), [['g20n'], ['c17'], ['c20'], ['g17n']], ALLCFG, scale=(1, 1), timeout=200),
)
CHECKS['C05'] = dict(
    rule='each combinator x receiver (&, const&, &&, const&&) x callable passed as (&, const&, &&, const&&) x state x value, with callables that log calls, argument address, category and their own category; '
         'random combinator chains against a model; member pointers, reference wrappers, plain functions of every exact signature; distinct = (type, combinator, receiver form, callable form, state, value)',
    jobs=groups('c05.cpp', range(8), [['c17', 'g20n'], ['c20'], ['c17'], ['c20', 'g17n']], ALLCFG, scale=(2, 100), timeout=300),
)

PFR = ('OPTION_USE_PFR=1', 'OPTION_PFR_FILE=<boost/pfr.hpp>')
CHECKS['C06'] = dict(
    rule='documented level count of about 120 types; every level (all when at most 1100, else every boundary and a sample) written over four garbage patterns between guard bytes and read back, over another level, and compared with '
         'every genuine, moved-from and nested value; every state of 1..8 (eight types 24, thorough 60) nested options; every position of the last enumerator of 8-bit and a sweep for wider enumerations; '
         'distinct = (type, level, fill) and (type, depth, state) and enumerations',
    jobs=groups('c06.cpp', range(7), [['c17', 'g20n'], ['c20', 'g17n']], ALLCFG, scale=(1, 8), timeout=400)
        + [Job('c06.cpp', c, ('GROUP=7',) + PFR, 'qt' if c in ('g20n', 'c17') else 't', (1, 8)) for c in ALLCFG]
        + [Job('c06.cpp', c, ('GROUP=9', 'DEPTH=4'), 'qt' if c in ('g20n', 'c17') else 't', (1, 8)) for c in ALLCFG]
        + [Job('c06.cpp', c, ('GROUP=8', 'DEPTH=60'), 't', (1, 4), timeout=800) for c in ALLCFG]
        + [Job('c06.cpp', c, ('GROUP=8', 'DEPTH=24'), 'q', (1, 4)) for c in ('c20', 'g20n')],
)

CHECKS['C07'] = dict(
    rule='every one of the 2^32 float patterns outside the 256 reserved ones through construction, copy, assignment and nesting; float/double specials (every exponent, NaN payloads next to and one bit from the reserved range), values produced by arithmetic, '
         'random patterns, addresses of every canonical form, member pointers, integers, enumerators, strings/vectors/containers of every edge size and moved-from state through a battery of 30 operations, bits compared and '
         'floating-point exception flags read after each block; distinct = values (floats of the full sweep counted by their upper 16 bits)',
    jobs=[Job('c07.cpp', c, ('GROUP=0',), 'qt' if c == 'c17n3' else 't', (1, 1), weight=8, timeout=800) for c in ('c17n3', 'g20n3', 'g17n', 'c20n')]
        + [Job('c07.cpp', c, ('GROUP=0', 'OPTION_USE_QUIET_NAN=1'), 't', (1, 1), weight=8, timeout=800) for c in ('c17n3', 'g20n')]
        + groups('c07.cpp', range(1, 6), [['c17', 'g20n'], ['c20', 'g17n'], ['g17', 'c20n']], ALLCFG, scale=(2, 60), timeout=600)
        + groups('c07.cpp', (1, 2), [['g20', 'c17n']], ALLCFG, scale=(1, 20), defs=('OPTION_USE_QUIET_NAN=1',), timeout=600)
        + groups('c07.cpp', (3, 4, 5), [['g20n'], ['c17']], ['c20', 'g17'], scale=(1, 20), defs=('OPTION_USE_BUILTIN_TRAITS=0',), timeout=600),
)

CHECKS['C08'] = dict(
    rule='every pair of states of two equally deep options x depth x 16 operations applied at that depth, then random histories over three options, against a (number of engaged levels, value) model read through has_value/==/bool/ptr_or_null at each depth; '
         'depths 2..9 for 40 element types, every state of single options past the last spare pattern (100..270 deep); distinct = (type, depth of nesting, operation, depth, states)',
    jobs=groups('c08.cpp', range(5), PAIRS, ALLCFG, scale=(2, 100), timeout=600)
        + [Job('c08.cpp', c, ('GROUP=5', 'DEEP=%d' % d, 'DEEP_TYPE=' + t, 'DEEP_NAME="%s"' % t), 'qt' if (c, t, d) in (('g17d', 'bool', 257), ('g17d', 'int', 258)) else 't', (1, 2), timeout=800, weight=2)
           for t, d in (('bool', 257), ('bool', 255), ('int', 258), ('std::string', 270), ('double', 270), ('int*', 260), ('Empty', 257)) for c in ('g17', 'g17d')]
        + [Job('c08.cpp', 'g17d', ('GROUP=5', 'DEEP_FULL', 'DEEP=257', 'DEEP_TYPE=bool', 'DEEP_NAME="bool"'), 't', (1, 1), timeout=800)],
)

CHECKS['C09'] = dict(
    rule='random histories of 37 operations over three options of a mutable and two of a const reference to pools of six objects of 15 referent types, each option checked through 16 access paths after every step, referents compared byte by byte and by '
         'special-member call counts; ten derived-to-base relations (second, third, virtual bases) x all state pairs x 20 conversions; rvalue references; function, volatile and incomplete referents; distinct = (type, operation, states, referent, aliasing, answer)',
    jobs=groups('c09.cpp', range(4), PAIRS, ALLCFG, scale=(1, 60), timeout=600),
)

CHECKS['C10'] = dict(
    rule='six operators x operand forms (lvalue/const/rvalue, both orders, option/value/none/reference option/nested option) x all pairs of states and values: element type whose six operators are unrelated tables logging operator and operand addresses, '
         'partially ordered, mixed and throwing elements, 20 real types; hash against equality, the value hash and call counts; sorting and (un)ordered sets; distinct = (type pair, operand pair)',
    jobs=groups('c10.cpp', range(4), [['c17', 'c20'], ['g17', 'c20n'], ['g20', 'c17n'], ['c17', 'g20n']], ALLCFG, scale=(1, 1), timeout=300),
)

CHECKS['C11'] = dict(
    rule='zip/zip_with of 0..5 options (6 to 17 with one empty) x every subset of empty operands x operand forms (all 4^n up to two operands) x callable forms (also functions and pointers to members) and result kinds; unzip of 20 tuple-like types x forms; flatten of depth 1..5 x engaged levels x forms; '
         'option_cast, from_nullable, as_option, make_option tables; 35 conversions x construction/assignment forms x states; laws connecting them over random values; distinct = (types, states, forms) and law inputs',
    jobs=groups('c11.cpp', range(7), PAIRS, ALLCFG, scale=(4, 100), timeout=600),
)

CHECKS['C12'] = dict(
    rule='at/at_front/at_back of 20 container kinds (sizes 0..1000, sequences of length up to 2^64-1, size() of narrow types) x all near and boundary indices up to SIZE_MAX x forms; lookup of 43 keys in 13 associative containers; '
         'get of tuple-likes, user types, variants (valueless too) and options of them x forms x states; output and input of 13 types x 8 stream set-ups compared with the plain operators on a twin stream; distinct = (container, size, index) / (type, form, state)',
    jobs=groups('c12.cpp', range(5), PAIRS, ALLCFG, scale=(1, 30), timeout=600) + [Job('c12.cpp', 'g20o', ('GROUP=0',), 'q', (1, 30))],
)

CHECKS['C13'] = dict(
    rule='| ^ & |= x operand forms (&, const&, &&, const&&) x operand states x pairs of values for 40 element types (also references, const, move-only), fallback values and none, laws over random triples, copy counts; '
         'results, both operands afterwards and returned references compared with the truth table; distinct = (type, forms, states)',
    jobs=groups('c13.cpp', range(5), PAIRS, ALLCFG, scale=(2, 60), timeout=600),
)

CHECKS['C14'] = dict(
    rule='the history of C01 run in lockstep over storage that held five different byte patterns (observations compared step by step) in three placements (guarded, adjacent array elements, packed members), all bytes outside the two operands compared '
         'after every step; neighbours in the tail padding of an option (base class, no_unique_address member); the same histories under valgrind memcheck and 41 types under MemorySanitizer with the storage marked undefined before each construction; '
         'distinct = (type, operation, states, values)',
    jobs=groups('c14.cpp', range(7), [['c17', 'g20n'], ['c20', 'g17n']], ALLCFG, scale=(3, 60), timeout=600)
        + groups('c14.cpp', range(6), [['vg'], ['vgc']], ['vg', 'vgc'], scale=(4, 100), defs=('VG',), timeout=800)
        + [Job('c14m.cpp', c, d, 'qt', (2, 100), timeout=600) for c, d in (('msan', ()), ('msan20', ()), ('msan20', PFR))],
)

CHECKS['C15'] = dict(
    rule='breaches: every accessor and iterator operation that designates a value, in every way of being empty (9 histories), for 35 element types and 6 reference types, nested options, and every way of storing a value equal to a reserved pattern, each in a child process '
         'with the default diagnostic and with a user-defined OPTION_VERIFY; conforming: the same operations in the states where they are allowed, and the conforming workloads of C01, C04, C05, C08-C13 with every debug check evaluated and recorded; '
         'distinct = (type, state, operation) of the child runs plus the coverage of the conforming workloads',
    jobs=groups('c15.cpp', range(4), [['c17', 'g20o'], ['g17d', 'c20']], ['g17d', 'g17o', 'g20o', 'c20d', 'c17', 'c20', 'g17'], scale=(1, 1), timeout=600)
        + groups('c15.cpp', range(4), [['g20o'], ['c20d'], ['g17o'], ['c20d']], ['g17d', 'g17o', 'g20o', 'c20d', 'c17'], scale=(1, 1), defs=('HOOK',), timeout=600)
        + [j for src, gs, sc in (('c01.cpp', range(11), (3, 100)), ('c04.cpp', range(13), (1, 1)), ('c05.cpp', range(8), (1, 40)), ('c08.cpp', range(5), (1, 60)), ('c09.cpp', range(4), (1, 20)), ('c10.cpp', range(4), (1, 10)), ('c11.cpp', range(7), (1, 10)), ('c12.cpp', range(4), (1, 4)), ('c13.cpp', range(5), (1, 20)))
           for j in groups(src, gs, [['g20o'], ['c20d'], ['g17o']] if src in ('c01.cpp', 'c09.cpp', 'c12.cpp') else [[]], ['g17d', 'c20d', 'g20o'], scale=sc, defs=('MON_VERIFY',), timeout=600)],
)

# C16: the same seeded programs in many configurations, their digests compared per group
C16_MAIN = [('g20n3', ()), ('c17n3', ()), ('c20', ()), ('g17o', ())]
C16_MORE = [('g17n', ('OPTION_USE_BUILTIN_TRAITS=0',)), ('c20n', PFR), ('g20n', ('OPTION_USE_QUIET_NAN=1',)), ('c17n', ('_GLIBCXX_DEBUG',)), ('gOs', ()), ('cOz', ()),
            ('g17n', ('_GLIBCXX_USE_CXX11_ABI=0',)), ('c20n', ('OPTION_FORWARD_DECLARE_STD=0', '_GLIBCXX_ASSERTIONS')), ('g23', ()), ('c26', ('OPTION_CONSUMED_ANNOTATION_CHECKING=1',)),
            ('guc', ()), ('cuc', ('OPTION_USE_BUILTIN_TRAITS=0',)), ('glto', ()), ('c17f', ()), ('g17z', ()), ('g20o', PFR), ('c17', ('OPTION_USE_BUILTIN_TRAITS=0', 'OPTION_USE_QUIET_NAN=1')),
            ('g17', ('OPTION_FORWARD_DECLARE_STD=0', '_GLIBCXX_DEBUG')), ('c20n', ('_GLIBCXX_USE_CXX11_ABI=0',)), ('g20n', ('OPTION_VERIFY(a,b)=((void)0)',)), ('c17n3', ('OPTION_USE_PFR=1',))]
def no_patterns(src, g, d): # enforce<int> and the like ask for the built-in patterns
    return 'OPTION_USE_BUILTIN_TRAITS=0' in d and (src, g) in (('c01.cpp', 3), ('c08.cpp', 3), ('c11.cpp', 4), ('c19.cpp', 3))
def c16():
    out = []
    for g in range(6):
        for k, (c, d) in enumerate(C16_MAIN + C16_MORE):
            q = k < 3 or (k - 4) % 6 == g
            kw = dict(same_seed=True, digest='C16-programs-%d' % g, timeout=600)
            if q: out.append(Job('c16.cpp', c, ('GROUP=%d' % g, 'SEQS=10') + d, 'q', (4, 100), **kw))
            out.append(Job('c16.cpp', c, ('GROUP=%d' % g, 'SEQS=40') + d, 't', (4, 100), **kw))
    for g in range(9):
        for k, (c, d) in enumerate(C16_MAIN[:2] + C16_MORE):
            if no_patterns('c01.cpp', g, d): continue
            q = (k < 1 or (k - 2) % 18 == g or (k == 1 and g % 3 == 0)) and g % 3 != 1
            out.append(Job('c01.cpp', c, ('GROUP=%d' % g,) + d, 'qt' if q else 't', (2, 40), same_seed=True, digest='C16-histories-%d' % g, timeout=600))
    for src, gs in (('c05.cpp', range(8)), ('c08.cpp', range(5)), ('c09.cpp', range(4)), ('c10.cpp', range(4)), ('c11.cpp', range(7)), ('c12.cpp', range(5)), ('c13.cpp', range(5)), ('c19.cpp', range(6)), ('c20.cpp', (5,))):
        for g in gs:
            for k, (c, d) in enumerate(C16_MORE):
                if c in ('gOs', 'cOz') or no_patterns(src, g, d): continue
                q = (src, g) in (('c12.cpp', 0), ('c12.cpp', 2), ('c12.cpp', 3), ('c13.cpp', 1), ('c13.cpp', 4), ('c19.cpp', 1), ('c19.cpp', 4), ('c20.cpp', 5)) and k == (0, 1, 3, 2)[g % 4] or src == 'c20.cpp' and c in ('g23', 'c26') or (src, g, c) in (('c05.cpp', 2, 'c26'), ('c12.cpp', 1, 'g23'), ('c13.cpp', 0, 'c26'))
                out.append(Job(src, c, ('GROUP=%d' % g,) + d, 'qt' if q else 't', (1, 2), timeout=600))
    return out
CHECKS['C16'] = dict(
    rule='13 programs written in user style and 200 (thorough 800) generated straight-line operation sequences over 20 element types, fully inlined, each run on seeded inputs with the library and with a plain optional in the same build, and the digests of all observations compared '
         'across builds: two compilers, C++17/20/23/26, -O0..-O3/-Os/-Oz/LTO, checks on/off/replaced, built-in patterns off, quiet NaN, reflection, libstdc++ debug mode and old string ABI, unsigned char and short enumerations, auto-variable initialisation; '
         'the same for the random histories of C01; distinct = different observation digests',
    jobs=c16(),
)

CHECKS['C18'] = dict(
    rule='6 threads under ThreadSanitizer (clang -O1 and -O2 NDEBUG, gcc -O1) and natively: 40 kinds of const operation on shared options of 60 element types, results compared with the same sequence run sequentially; the histories of C01 on options interleaved '
         'element by element in one array; option members side by side and members in the tail padding of an option; reference options to one referent; lookups in shared containers; random yields between operations and inside user code; '
         'distinct = windows of four operations begun by different threads (who began what after whom)',
    jobs=[Job('c18.cpp', c, ('GROUP=%d' % g,), 'qt' if k == g % 3 or k == 3 + g % 2 else 't', (2, 60), timeout=800, weight=3) for g in range(5) for k, c in enumerate(['tsan', 'gtsan', 'tsann', 'c17n3', 'g20n3'])],
)
CHECKS['C19'] = dict(
    rule='every path to the contained object (get, *, ->, get_unchecked, value, value_or_throw, ptr_or_null, iterators, spans) x four operand forms for 70 element types and 11 referent types in four placements: type, address, exceptions; all pairs of iterator positions x '
         'all operators; C++17 algorithms and C++20 ranges over the range of an option; fallbacks of value_or and value_or_construct with conversion and construction counts; distinct = (type, path, state, position)',
    jobs=groups('c19.cpp', range(6), PAIRS, ALLCFG, scale=(3, 100), defs=('MON_VERIFY',), timeout=600),
)

CHECKS['C17'] = dict(
    rule='histories and const-operation sweeps over options, nested up to three deep beyond the offered levels, of types whose traits are instrumented: every call of get_level/set_level is judged (never on uninitialised storage, never a level >= max_level, never over a '
         'live object); the same through member, enforce, sentinel, sentinel_f, tuple-like, pair, tuple, array and aggregates; all values of 8- and 16-bit and sampled values of wider sentinels written under an option of depth 1..3 and read back; traits chosen by SFINAE, disabled, '
         'sentinel_option_traits, the traits of the guide; wrapper mimicry; distinct = (type, level or operation, state)',
    jobs=groups('c17.cpp', range(8), PAIRS, ALLCFG, scale=(8, 300), defs=('MON_VERIFY',), timeout=600)
    + groups('c17.cpp', [4], [['c20', 'g20n']], ['g17', 'g20', 'c17', 'g17n', 'c20n'], scale=(8, 300), defs=('MON_VERIFY',) + PFR, timeout=600),
)
CHECKS['C20'] = dict(
    rule='programs of 60 random operations (58 kinds, in every const and reference qualification; 16 on reference options) over options of 16 literal element types, each evaluated by the compiler (which refuses undefined behaviour, leaks and uses of ended lifetimes) and by the machine, and both against a nullable-value model; '
         '66 further forms, one per remaining overload of the documented interface, in both; distinct = (type, operation, state), form and programs; further programs at run time only',
    jobs=groups('c20.cpp', range(6), [['c17', 'g20n'], ['c20', 'g17n'], ['g17', 'c20n'], ['g20', 'c20'], ['c17', 'g20n', 'g17', 'c20n'], ['c17', 'g20', 'g17n', 'c20n']], [], scale=(4, 4), defs=('SEEDS=24', 'MON_VERIFY'), timeout=600)
    + groups('c20.cpp', range(6), [[]], ['g17', 'g20', 'c17', 'c20', 'g20n3', 'c17n3'], scale=(50, 50), defs=('SEEDS=200',), timeout=900),
)
CHECKS['C21'] = dict(
    rule='all 256 combinations of absent/trivial/noexcept/throwing copy and move construction and assignment x 3 kinds of destructor, as element, as nested option and with documented empty states: every special-member trait against the documentation, and which member of the element each '
         'operation of the option calls; every conversion (construction and assignment, value and reference forms, option forms) between 13 x 26 value types and 9 x 13 referent types against what the documentation says exists, is explicit, is noexcept; byte copies of trivially copyable options '
         'at depths 1, 2, 3, 5; distinct = (type, relation or state)',
    jobs=groups('c21.cpp', range(6), [['c17nd', 'g20nd'], ['c20nd', 'g17nd']], ['c17', 'c20', 'g17', 'g20', 'c20n', 'g17n'], scale=(1, 2), defs=('MON_VERIFY',), timeout=900, weight=2)
    + groups('c21.cpp', [6, 7], PAIRS, ALLCFG, scale=(1, 20), defs=('MON_VERIFY',), timeout=600),
)
# technique and level note per property (for MANIFEST.json)
SANNOTE = 'held on the executions observed (counts in the evidence file); no claim about unobserved inputs or element types'
NOTES = {
    'C01': ('online model-conformance monitor over random operation histories, under ASan/UBSan and optimised builds', SANNOTE),
    'C02': ('live-object registry audited after every operation, with ASan/LSan/UBSan', SANNOTE),
    'C03': ('exhaustive single-fault injection at every user-code point with a live-object registry, under ASan/UBSan', 'all single faults of the listed operations, pre-states and element types; one fault per operation'),
    'C04': ('copy/move/assignment counters and identity marks on instrumented element types, checked after each operation', SANNOTE),
    'C06': ('level-encoding monitor: round trip of every advertised level on guarded, garbage-filled storage against an independent table of documented levels and sizes, with ASan/UBSan', 'all advertised levels when at most 1100, boundaries and samples beyond; the types listed in the harness; nesting up to 8 (24 for eight types, thorough 60)'),
    'C07': ('exhaustive and biased bit-pattern sweep with a representation-comparing oracle and floating-point exception flag monitor, under ASan/UBSan and optimised builds', 'complete for float patterns and operations of the short battery; samples and boundaries for wider types; reserved payloads are excluded by definition'),
    'C08': ('online model-conformance monitor (number of engaged levels + value) over exhaustive state pairs and random histories at every depth, under ASan/UBSan and optimised builds', 'all state pairs at the listed depths for the listed element types; histories sampled'),
    'C09': ('referent-identity monitor: addresses through every access path, referent bytes and special-member counters after every step of random histories, under ASan/UBSan and optimised builds', SANNOTE),
    'C10': ('oracle comparison over all pairs of a state/value pool with operator-logging elements, under ASan/UBSan and optimised builds in C++17 and C++20', 'all pairs of the pools listed; no claim beyond those element types'),
    'C11': ('oracle comparison of every result against the documented image of its operands (states, values, addresses of references, call logs), under ASan/UBSan and optimised builds', 'all operand states and forms listed; values sampled; no claim about other element types'),
    'C12': ('oracle comparison of every lookup with the container queried directly (state, element address, container snapshot) and of stream operations with a twin stream, under ASan/UBSan and optimised builds', 'all listed sizes, boundary indices and forms; other container types not claimed'),
    'C13': ('truth-table and algebraic-law monitor over all operand states and forms, with identity and copy counters, under ASan/UBSan and optimised builds', 'all states and forms of the listed element types; values sampled'),
    'C14': ('lockstep garbage-fill differential with whole-block snapshots, valgrind memcheck, MemorySanitizer with poisoned storage, ASan/UBSan', SANNOTE),
    'C15': ('contract-breach probes in child processes with a use-of-result tripwire, and conforming workloads with every OPTION_VERIFY evaluation recorded', SANNOTE),
    'C16': ('differential execution: seeded programs and histories compared with a plain optional inside each build and by observation digest across builds, sanitised and optimised', SANNOTE),
    'C18': ('ThreadSanitizer over concurrent workloads with a sequential-result oracle, and the same workloads run natively', 'the schedules observed (counted in the evidence file); no claim about other interleavings'),
    'C19': ('path-identity monitor: address, type, exception and evaluation count of every access path, fallback and iterator expression, under ASan/UBSan and optimised builds', 'all forms, states and iterator positions of the listed element types; values sampled'),
    'C17': ('protocol monitor inside instrumented option_traits, backed by a register of live objects, plus a value-reading oracle for sentinels and designated members, under ASan/UBSan and optimised builds', 'histories sampled; 8- and 16-bit sentinels exhaustive, wider sampled with all neighbours of designated values; depth up to 3 beyond the offered levels'),
    'C20': ('differential execution: the same program under the constant evaluators of two compilers (acting as undefined-behaviour interpreters) and at run time, digests compared, both against a model', '24 (thorough 200) programs of 60 operations per type and configuration; element types whose traits are constexpr or that have none'),
    'C21': ('type-trait and call-count monitor against tables derived from the documentation, byte-copy round trips, under ASan/UBSan and optimised builds', SANNOTE),
    'C05': ('call-log monitor: instrumented callables record every invocation and are compared with the documented calls, under ASan/UBSan', SANNOTE),
}
