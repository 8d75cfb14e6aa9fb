"""What each check builds and runs. Pure data; run.py interprets it."""
ALL_TARGETS = ['SSE2', 'SSSE3', 'SSE4', 'AVX2', 'AVX3', 'AVX3_DL', 'AVX3_ZEN4', 'AVX3_SPR', 'EMU128', 'SCALAR']
CXX = ['-std=c++17', '-ffp-contract=off', '-w']

class Obj:
    def __init__(self, src, flags, cc='g++', cost=1): self.src, self.flags, self.cc, self.cost = src, flags, cc, cost
class Run:
    def __init__(self, name='main', args=(), env=None, timeout=300, cores=8, quick_seeds=1, thorough_seeds=4):
        self.name, self.args, self.env, self.timeout, self.cores = name, list(args), env or {}, timeout, cores
        self.quick_seeds, self.thorough_seeds = quick_seeds, thorough_seeds
class Unit:
    def __init__(self, name, objs, runs=None, linker='g++', ldflags=('-lpthread',), env=None, prefix=(), thorough_only=False):
        self.name, self.objs, self.runs, self.linker, self.ldflags = name, objs, runs or [Run()], linker, list(ldflags)
        self.env, self.prefix, self.thorough_only = env or {}, list(prefix), thorough_only

def target_flags(t, cc='g++', opt='-O1'):
    """Compiles a translation unit for exactly one Highway target."""
    f = CXX + [opt]
    if t == 'EMU128': return 'clang++', f + ['-DHWY_COMPILE_ONLY_EMU128']
    if t == 'SCALAR': return cc, f + ['-DHWY_COMPILE_ONLY_SCALAR']
    return cc, f + ['-DHWY_BASELINE_TARGETS=HWY_' + t, '-DHWY_COMPILE_ONLY_STATIC']

def repo_lib(flags=('-O1',), cc='g++', names=('targets', 'abort', 'per_target')):
    return [Obj('$REPO/hwy/%s.cc' % n, CXX + list(flags), cc) for n in names]

def vec_objs(src, targets=ALL_TARGETS, cc='g++', opt='-O1', extra=(), cost=10):
    r = []
    for t in targets:
        c, f = target_flags(t, cc, opt)
        r.append(Obj(src, f + list(extra), c, cost + (10 if t.startswith('AVX3') else 0)))
    return r

def ops_units(group, runs=None):
    """Quick: gcc -O1 for every target. Thorough adds clang -O2 and gcc -O3."""
    units = []
    for suffix, cc, opt in (('', 'g++', '-O1'), ('_clang', 'clang++', '-O2'), ('_gccO3', 'g++', '-O3')):
        objs = vec_objs('ops/%s.vec.cc' % group, cc=cc, opt=opt)
        objs += [Obj('ops/%s.ref.cc' % group, CXX + ['-O1'], cost=9), Obj('ops/main.cc', CXX + ['-O2'], cost=9)] + repo_lib()
        units.append(Unit('ops_' + group + suffix, objs, [Run(args=['--threads', '8'], timeout=400)], thorough_only=bool(suffix)))
    return units

OPS_RULE = ('Each evaluation is one lane (or one scalar result) that a compiled Highway op produced on one target and that the independent scalar reference '
            'checked. Inputs: random, boundary-heavy (integer limits, one-bit, float specials, k+0.5, type limits), exhaustive 8-bit pairs and 16-bit '
            'values for lane-wise ops, for every op x lane type x vector size (fractions, full, multiples). distinct_nontrivial counts the distinct '
            'expected result vectors per op/type/size.')
OPS_ASSUME = ['The reference in harness/ops/*.ref.cc states the documented meaning (g++_quick_reference.md and op comments).',
              'Only targets this CPU can run are executed; the others are listed in targets_unsupported_here.']
CHECKS = {}
NOT_APPLICABLE = []
HOOKS = None

def add(pid, units, technique, level_note, rule, assumptions=()):
    CHECKS[pid] = dict(units=units, technique=technique, level_note=level_note, rule=rule, assumptions=list(assumptions))

OPS_T = 'runtime monitoring: per-lane differential oracle on every SIMD op executed on all x86, EMU128 and SCALAR targets'
OPS_NOTE = 'Every listed op is executed for each lane type, vector size and target; each produced lane is compared to an exact scalar reference. Inputs are sampled (exhaustive for 8-bit pairs / 16-bit unary).'
add('P01', ops_units('arith'), OPS_T, OPS_NOTE, OPS_RULE, OPS_ASSUME)
add('P02', ops_units('bits') + ops_units('masks'), OPS_T, OPS_NOTE, OPS_RULE, OPS_ASSUME)
add('P03', ops_units('perm') + ops_units('table'), OPS_T, OPS_NOTE, OPS_RULE, OPS_ASSUME)
add('P04', ops_units('conv'), OPS_T, OPS_NOTE, OPS_RULE, OPS_ASSUME)
def mem_units():
    units = []
    for suffix, cc, opt in (('', 'g++', '-O1'), ('_clang', 'clang++', '-O2'), ('_gccO3', 'g++', '-O3')):
        objs = vec_objs('ops/mem.vec.cc', cc=cc, opt=opt) + [Obj('ops/mem_main.cc', CXX + ['-O2'], cost=9)] + repo_lib()
        units.append(Unit('ops_mem' + suffix, objs, [Run(args=['--threads', '8'], timeout=400)], thorough_only=bool(suffix)))
    return units
add('P05', mem_units(), 'runtime monitoring: guard-page arena plus byte-exact footprint oracle around every memory op on all targets',
    'Every memory op runs at every distance to an inaccessible page with canary bytes; lanes read, bytes written and bytes left untouched are compared to the documented footprint.',
    'Each evaluation is one memory-op execution (op x type x size x target x count x offset) whose accessed bytes and results were checked against the documented footprint; distinct_nontrivial counts distinct (case, count, offset) behaviours.', OPS_ASSUME)
add('P06', ops_units('reduce'), OPS_T, OPS_NOTE, OPS_RULE, OPS_ASSUME)

# ---------------------------------------------------------------- sort
def sort_units(op):
    """Every key type on every target (static interface), plus the public dispatched interface."""
    which = ['sort', 'select'][op]
    units = []
    for suffix, cc, opt in (('', 'g++', '-O1'), ('_clang', 'clang++', '-O2')):
        objs = []
        for part in (0, 1, 2): objs += vec_objs('sort/sort.vec.cc', cc=cc, opt=opt, extra=['-DSORT_PART=%d' % part, '-DSORT_OP=%d' % op], cost=30)
        objs += [Obj('sort/main.cc', CXX + ['-O2', '-DVT_OWN_ENTROPY'])] + repo_lib()
        units.append(Unit('sort_%s%s' % (which, suffix), objs, [Run(args=['--threads', '8', '--only', which], timeout=600)], thorough_only=bool(suffix)))
    san = ['-fsanitize=address,undefined', '-fno-sanitize=alignment', '-fno-sanitize-recover=all', '-g1']
    objs = []
    for part in (0, 1, 2): objs += vec_objs('sort/sort.vec.cc', ['AVX2', 'AVX3'], extra=san + ['-DSORT_PART=%d' % part, '-DSORT_OP=%d' % op], cost=60)
    objs += [Obj('sort/main.cc', CXX + ['-O2', '-DVT_OWN_ENTROPY'] + san)] + repo_lib(['-O1'] + san)
    units.append(Unit('sort_%s_asan' % which, objs, [Run(args=['--threads', '4', '--only', which], env={'VT_SCALE': '0.05'}, cores=4, timeout=600)], ldflags=['-lpthread', '-fsanitize=address,undefined']))
    files = ['vqsort'] + ['vqsort_%s%s' % (t, o) for t in ('u16', 'i16', 'f16', 'u32', 'i32', 'f32', 'u64', 'i64', 'f64', '128', 'kv64', 'kv128') for o in 'ad']
    f = CXX + ['-O1', '-DHWY_DISABLED_TARGETS=(HWY_AVX3_DL|HWY_AVX3_ZEN4|HWY_AVX3|HWY_SSE4|HWY_SSSE3)']
    objs = [Obj('$REPO/hwy/contrib/sort/%s.cc' % n, f, cost=20) for n in files]
    objs += [Obj('sort/dispatch.cc', f), Obj('sort/main.cc', CXX + ['-O2'])] + repo_lib(f)
    units.append(Unit('sort_dispatch', objs, [Run(args=['--threads', '8', '--only', which], timeout=600)]))
    return units
SORT_RULE = ('Each evaluation is one sort/partial-sort/select call whose result was checked in full: order, multiset of raw elements, selected positions, bytes outside the array '
             '(guard page on one side, canaries on the other). Inputs: 23 distributions, every length up to beyond the base case, exhaustive 0-1 inputs of short lengths, larger random lengths, '
             'every key type x order x target; the entropy source is replaced by a seeded one. distinct_nontrivial counts distinct input arrays with n >= 2.')
add('P08', sort_units(0), 'runtime monitoring: order + multiset + guard-page oracle on every VQSort variant of every target and on the dispatched API', 'All key types, orders and targets; lengths exhaustive up to beyond the base case, then sampled up to 60000.', SORT_RULE,
    ['NaN keys may be replaced by the canonical NaN; equivalent keys may be reordered.'])
add('P09', sort_units(1), 'runtime monitoring: k-th element, partition, prefix order and multiset oracle with guard pages on every VQPartialSort/VQSelect variant', 'All key types, orders and targets; positions sampled incl. 0, 1, middle, last and k == n.', SORT_RULE,
    ['k is valid: k <= n for partial sort, k < n for select.'])

# ---------------------------------------------------------------- threads
TSAN = ['-fsanitize=thread', '-g1']
ASAN = ['-fsanitize=address,undefined', '-fno-sanitize=alignment', '-fno-sanitize-recover=all', '-g1']
def san_ld(san): return ['-lpthread'] + [f for f in san if f.startswith('-fsanitize=')]
def pool_unit(suffix, cc, flags, ld, runs, env=None):
    f = ['-O1'] + flags
    objs = [Obj('pool/pool_main.cc', CXX + f, cc, 9), Obj('common/entropy.cc', CXX + f, cc)]
    objs += repo_lib(f, cc, ('targets', 'abort', 'per_target', 'timer', 'stats', 'aligned_allocator', 'contrib/thread_pool/topology'))
    objs += [Obj('$REPO/hwy/contrib/sort/vqsort_f64a.cc', CXX + f + ['-DHWY_COMPILE_ONLY_STATIC'], cc, 9)]
    return Unit('pool' + suffix, objs, runs, linker=cc, ldflags=ld, env=env)
POOL_RULE = ('Each evaluation is one ThreadPool::Run whose every task call was recorded: hits per task, worker indices, calls outside the range or after return, '
             'plain-memory values seen by tasks and by the caller. distinct_nontrivial counts distinct runs with more than one task and worker, identified by the '
             'order in which threads performed their atomic operations (chaos runs) or the split of tasks among workers.')
add('P10', [pool_unit('', 'g++', ['-DNDEBUG'], ['-lpthread'], [Run('stress', ['--only', 'stress'], timeout=400), Run('big', ['--only', 'big'], timeout=400),
                                                               Run('straggler', ['--only', 'straggler'], cores=1, quick_seeds=6, thorough_seeds=16, timeout=500)]),
            pool_unit('_asan', 'g++', ASAN, san_ld(ASAN), [Run('stress', ['--only', 'stress'], {'VT_SCALE': '0.5'}, timeout=400), Run('big', ['--only', 'big'], {'VT_SCALE': '0.5'}, timeout=400)])],
    'runtime monitoring: exactly-once / worker-index / completion monitor over stress runs with delays injected at every atomic operation',
    'Pools of 0..63 threads, all wait/barrier/spin candidates the tuner visits, ranges incl. both ends of 64-bit, nested runs, mode switches, stragglers; schedules are sampled, not enumerated.', POOL_RULE,
    ['std::atomic in the pool headers is replaced by a wrapper that only adds delays.', 'User-mode monitor/wait is used by the pool only where the CPU has it.'])
add('P11', [pool_unit('_tsan', 'clang++', TSAN, san_ld(TSAN), [Run('stress', ['--only', 'stress'], timeout=400), Run('big', ['--only', 'big'], {'VT_SCALE': '0.6'}, timeout=400)]),
            pool_unit('', 'g++', ['-DNDEBUG'], ['-lpthread'], [Run('stress', ['--only', 'stress'], timeout=400)])],
    'ThreadSanitizer plus a plain-memory visibility monitor (values written before Run, by tasks and by earlier runs) over stress runs with injected delays',
    'The monitor itself uses relaxed atomics only, so every happens-before edge TSan sees comes from the pool.', POOL_RULE,
    ['ThreadSanitizer does not model atomic_thread_fence; the pool does not need its fences on the paths exercised.'])
def spin_unit(suffix, cc, flags, ld, env=None):
    f = CXX + ['-O1'] + flags
    return Unit('spin' + suffix, [Obj('pool/spin_main.cc', f, cc)] + repo_lib(f, cc), [Run(cores=4, timeout=400)], linker=cc, ldflags=ld, env=env)
add('P27', [spin_unit('', 'g++', ['-DNDEBUG'], ['-lpthread']), spin_unit('_debug', 'g++', ['-DHWY_IS_DEBUG_BUILD=1'], ['-lpthread'], {'VT_SCALE': '0.3'}),
            spin_unit('_tsan', 'clang++', TSAN, san_ld(TSAN), {'VT_SCALE': '0.3'})],
    'runtime monitoring of broadcast rounds over every wait primitive (futex, Pause, emulated MONITORX/UMONITOR) with injected delays and signals; ThreadSanitizer for publication',
    'Readers must see every stored value in turn; a wait that never returns is reported by the watchdog after it reproduced.',
    'Each evaluation is one wait that returned and whose value and published data were checked, or one NanoSleep/DetectSpin call. distinct_nontrivial counts distinct broadcast histories (order of atomic operations).',
    ['MONITORX/UMONITOR are emulated: armed on the value at MONITOR time, woken when it differs.'])

# ---------------------------------------------------------------- memory management
def simple_units(name, src, lib, runs=None, san_env=None, extra=(), extra_objs=(), san=True, plain_flags=('-O1', '-DNDEBUG'), debug=False):
    """A driver plus library files: plain build and ASan+UBSan build."""
    def mk(suffix, cc, flags, ld, env=None):
        f = list(flags) + list(extra)
        return Unit(name + suffix, [Obj(src, CXX + f, cc, 5)] + [Obj(s, CXX + f, cc, 5) for s in extra_objs] + repo_lib(f, cc, lib), runs or [Run(cores=2)], linker=cc, ldflags=ld, env=env)
    u = [mk('', 'g++', plain_flags, ['-lpthread'])]
    if san: u.append(mk('_asan', 'g++', ['-O1'] + ASAN, san_ld(ASAN), san_env or {'VT_SCALE': '0.3'}))
    return u
BASE_LIB = ('targets', 'abort', 'per_target', 'aligned_allocator')
add('P12', simple_units('alloc', 'base/alloc_main.cc', BASE_LIB),
    'runtime monitoring with a recording allocator (every misalignment, canaries, guard pages), lifetime-counting elements, live-set overlap monitor; AddressSanitizer',
    'Sizes, misalignments, exhausted and overflowing requests are sampled; all 128 misalignments of the underlying memory occur.',
    'Each evaluation is one allocation, release, smart-pointer lifetime or vector operation checked by the monitor; distinct_nontrivial counts distinct (size, misalignment, interface) combinations.',
    ['Sizes are nonzero (the implementation asserts this).'])
add('P13', simple_units('image', 'base/image_main.cc', BASE_LIB + ('contrib/image/image',)) +
    [Unit('image_scalar', [Obj('base/image_main.cc', CXX + ['-O1', '-DHWY_COMPILE_ONLY_SCALAR'] )] + repo_lib(['-O1', '-DHWY_COMPILE_ONLY_SCALAR'], 'g++', BASE_LIB + ('contrib/image/image',)), [Run(cores=1)]),
     Unit('image_msan', [Obj('base/image_msan.cc', CXX + ['-O1', '-fsanitize=memory', '-g1'], 'clang++')] + repo_lib(['-O1', '-fsanitize=memory', '-g1'], 'clang++', BASE_LIB + ('contrib/image/image',)), [Run(cores=1)], linker='clang++', ldflags=['-lpthread', '-fsanitize=memory'])],
    'runtime monitoring of row addresses and pixel contents with whole-vector accesses under AddressSanitizer, padding initialisation under MemorySanitizer',
    'Image sizes around vector, cache-line and 2 KiB boundaries for every vector size the dispatcher can select; overflowing sizes in a child process.',
    'Each evaluation is one image, array or rectangle whose addresses, padding and contents were checked; distinct_nontrivial counts distinct (size, element size, vector size).')

# ---------------------------------------------------------------- scalar helpers
add('P21', simple_units('bitset', 'scalar/bitset_main.cc', BASE_LIB),
    'runtime monitoring: model-based operation sequences on every bit set type against std::set, objects between canaries; ASan+UBSan',
    'Random operation sequences; every capacity of the multi-word set that matters (multiples of 64 and not).',
    'Each evaluation is one bit-set operation or query compared with the model set; distinct_nontrivial counts distinct resulting sets.')
STATIC = ['-DHWY_COMPILE_ONLY_STATIC']
add('P22', simple_units('tune', 'scalar/tune_main.cc', BASE_LIB, extra=STATIC, extra_objs=['common/entropy.cc', '$REPO/hwy/contrib/sort/vqsort_f64a.cc']),
    'runtime monitoring: trace checker over AutoTune histories driven by adversarial, noisy, extreme and clear-winner cost streams',
    'Candidate counts 1..300, seven kMinSamples values, twelve cost styles; histories are sampled.',
    'Each evaluation is one NotifyCost/NextConfig step, cost estimate or circular-list step that was checked; distinct_nontrivial counts distinct histories (proposals and costs).')
add('P23', simple_units('stats', 'scalar/stats_main.cc', BASE_LIB + ('stats',)),
    'runtime monitoring: every statistic after every sample set, merge, continued accumulation and reset compared with a two-pass long double reference, sorted copies and a counted histogram; ASan+UBSan',
    'Sample sets of 0..71000 floats in eleven shapes and nine scales; unsigned integers of every width for the robust estimators.',
    'Each evaluation is one statistic, histogram or robust estimate compared with its reference; distinct_nontrivial counts distinct sample sets.',
    ['Samples are finite floats with moderate magnitude (higher moments do not overflow).', 'Median and mode of an even number of integers round the average of the two middle values up.'])
def topo_unit(suffix, flags, ld, env=None):
    f = CXX + flags
    return Unit('topology' + suffix, [Obj('topology/topology_main.cc', f, cost=5)] + repo_lib(flags, 'g++', BASE_LIB + ('contrib/thread_pool/topology',)), [Run(cores=2)], ldflags=ld + ['-ldl', '-rdynamic'], env=env)
add('P25', [topo_unit('', ['-O1', '-DNDEBUG'], ['-lpthread']), topo_unit('_asan', ['-O1'] + ASAN, san_ld(ASAN), {'VT_SCALE': '0.5'})],
    'runtime monitoring: Topology and DataCaches executed on simulated machines (redirected sysfs with injected interrupts and short reads) and on this one; affinity round trips checked against the kernel; ASan+UBSan',
    'Random machines (packages, clusters, cores, SMT, NUMA nodes, numbering schemes, opaque ids, incomplete sysfs, memory-only nodes) of up to 1024 processors; random affinity subsets in concurrent threads.',
    'Each evaluation is one index, processor set, cache field or affinity round trip compared with the model of the machine or with the kernel; distinct_nontrivial counts distinct machines and affinity sets.',
    ['Only Linux; cache associativity 0 is not simulated.'])
# ---------------------------------------------------------------- array kernels
def arr_units(name, vec, main, quick_san=('AVX2', 'AVX3'), extra_objs=(), lib=('targets', 'abort', 'per_target'), cost=20, plain=('-DNDEBUG',)):
    """Per-target kernels called by one driver; ASan/UBSan build for some targets; clang and -O3 in thorough."""
    units = []
    for suffix, cc, opt in (('', 'g++', '-O1'), ('_clang', 'clang++', '-O2'), ('_gccO3', 'g++', '-O3')):
        objs = vec_objs(vec, cc=cc, opt=opt, extra=plain, cost=cost) + [Obj(main, CXX + ['-O2'])] + [Obj(s, CXX + ['-O1'] + list(plain) + STATIC) for s in extra_objs] + repo_lib(['-O1'] + list(plain), names=lib)
        units.append(Unit(name + suffix, objs, [Run(args=['--threads', '8'], timeout=400)], thorough_only=bool(suffix)))
    if quick_san:
        objs = vec_objs(vec, quick_san, extra=ASAN, cost=2 * cost) + [Obj(main, CXX + ['-O2'] + ASAN)] + [Obj(s, CXX + ['-O1'] + ASAN + STATIC) for s in extra_objs] + repo_lib(['-O1'] + ASAN, names=lib)
        units.append(Unit(name + '_asan', objs, [Run(args=['--threads', '8'], timeout=400)], ldflags=san_ld(ASAN), env={'VT_SCALE': '0.3'}))
    return units
ARR_T = 'runtime monitoring: scalar-loop oracle plus guard pages and canaries around every array; UBSan/ASan and debug assertions on two targets'
add('P14', arr_units('algo', 'arrays/algo.vec.cc', 'arrays/algo_main.cc'), ARR_T,
    'Every algorithm x ten element types x all targets x two vector sizes; every length up to three vectors plus three, then sampled up to 1900; contents sampled.',
    'Each evaluation is one algorithm call whose result, output bytes, untouched bytes and inputs were checked; distinct_nontrivial counts distinct expected outcomes.', ['CopyIf output has one vector of slack.'])
add('P26', arr_units('unroll', 'arrays/unroll.vec.cc', 'arrays/unroll_main.cc', cost=40), ARR_T,
    'Maps (one and two inputs, equal, wider and narrower output types), sums, minima, dot products and early-exit searches; every length up to nine vectors plus three, then sampled up to 1900.',
    'Each evaluation is one unrolled kernel run whose outputs, untouched bytes and inputs were checked; distinct_nontrivial counts distinct expected outcomes.', ['Input values are small integers, so every float sum is exact.'])
add('P16', arr_units('dot', 'arrays/dot.vec.cc', 'arrays/dot_main.cc', cost=60, extra_objs=['common/entropy.cc', '$REPO/hwy/contrib/sort/vqsort_f64a.cc'], lib=('targets', 'abort', 'per_target', 'timer', 'stats', 'aligned_allocator', 'contrib/thread_pool/topology')),
    'runtime monitoring: __float128 reference sums with a proven rounding bound, exact integer-valued inputs, NaN/infinity tracers, guard pages and canaries around every array; UBSan/ASan and debug assertions on two targets',
    'Six element type combinations x eight assumption flag sets x two vector sizes; every length up to five vectors plus three that the flags allow, then sampled up to 1900; nine matrix shapes x four type combinations, with and without addend, on pools of 0, 2 and 4 workers.',
    'Each evaluation is one product whose result, inputs and surroundings were checked; distinct_nontrivial counts distinct inputs.',
    ['Accumulation may flush subnormal bfloat16 products.', 'Integer inputs do not overflow 32 bits.'])
add('P17', arr_units('pack', 'arrays/pack.vec.cc', 'arrays/pack_main.cc', cost=60, quick_san=()),
    'runtime monitoring: round trip of every bit width with guard pages and canaries around raw and packed blocks',
    'All bit widths of the four packers, both block packing types, two vector sizes; contents sampled plus one-value and one-bit patterns.',
    'Each evaluation is one pack and unpack of a whole block; distinct_nontrivial counts distinct packed blocks.', ['With a frame of reference, raw minus reference fits in the bit width.'])
add('P18', arr_units('rng', 'arrays/rng.vec.cc', 'arrays/rng_main.cc', lib=BASE_LIB),
    'runtime monitoring: every value, and the state after every call of random histories, against xoshiro256++ with jumps computed as matrix powers; ASan+UBSan on two targets',
    'Seeds, thread numbers up to 199, batch sizes (any remainder) and call orders are sampled on all targets.',
    'Each evaluation is one generated value compared with the reference stream; distinct_nontrivial counts distinct histories (seed, thread, calls).')
add('P15', arr_units('math', 'arrays/math.vec.cc', 'arrays/math_main.cc', cost=40),
    'runtime monitoring: results of every target against the C library evaluated in a wider format, error in ulp against the documented bound; reruns with permuted neighbours; UBSan/ASan and debug assertions on two targets',
    'All 20 functions, float and double, two vector sizes, all targets; inputs spread over every exponent of the documented range plus neighbours of multiples of pi/4, branch points and range ends.',
    'Each evaluation is one result whose error was measured (or compared bit by bit with its rerun); distinct_nontrivial counts distinct inputs (one in 16 is counted).', ['The C library is accurate to much better than one float ulp in double, and one double ulp in long double.'])
def f16_units():
    units = []
    soft = ['-DHWY_HAVE_SCALAR_F16_TYPE=0', '-DHWY_SSE2_HAVE_SCALAR_BF16_TYPE=0']
    for name, cc, f, ld, env in (('soft', 'g++', ['-O2', '-DNDEBUG'] + soft, ['-lpthread'], None), ('soft_ubsan', 'g++', ['-O1'] + ASAN + soft, san_ld(ASAN), {'VT_STEP': '97'}),
                                 ('native', 'g++', ['-O1', '-DNDEBUG', '-DVT_ARITH=3'], ['-lpthread'], {'VT_STEP': '31'}), ('native_clang', 'clang++', ['-O2', '-DNDEBUG', '-DVT_ARITH=1'], ['-lpthread'], {'VT_STEP': '31'})):
        units.append(Unit('f16_' + name, [Obj('scalar/f16_main.cc', CXX + f + STATIC, cc)] + repo_lib(f, cc, ('abort',)), [Run(args=['--threads', '8'], timeout=600)], linker=cc, ldflags=ld, env=env))
    f = ['-O2', '-mf16c', '-mavx2', '-DNDEBUG', '-DVT_ARITH=3']
    units.append(Unit('f16_native_f16c', [Obj('scalar/f16_main.cc', CXX + f + STATIC, 'g++')] + repo_lib(f, 'g++', ('abort',)), [Run(args=['--threads', '8'], timeout=600)], thorough_only=True))
    return units
add('P19', f16_units(),
    'runtime monitoring: every float bit pattern converted and compared with exact rounding boundaries, doubles around every boundary, all 65536 values back, operators against double arithmetic; ASan+UBSan and debug assertions',
    'float to 16-bit: exhaustive for the portable code (quick: every 31st pattern for the compiler types); double inputs around every eighth boundary per run plus random; operand pairs sampled.',
    'Each evaluation is one conversion or operator result compared with its exact value; distinct_nontrivial counts distinct 16-bit values and (one in 64) operand pairs.', ['NaN payloads are not compared.'])
def helper_units():
    units = []
    for name, cc, f, ld, env in (('', 'g++', ['-O1', '-DNDEBUG'], ['-lpthread'], None), ('_portable', 'g++', ['-O2', '-DNDEBUG', '-U__SIZEOF_INT128__', '-DVT_SMALL'], ['-lpthread'], {'VT_SCALE': '0.3'}),
                                 ('_ubsan', 'g++', ['-O1'] + ASAN, san_ld(ASAN), {'VT_SCALE': '0.1'}), ('_clang', 'clang++', ['-O2', '-DNDEBUG'], ['-lpthread'], {'VT_SCALE': '0.5'})):
        units.append(Unit('helpers' + name, [Obj('scalar/helpers_main.cc', CXX + f + STATIC, cc)] + repo_lib(f, cc, ('abort',)), [Run(args=['--threads', '8'], timeout=400)], linker=cc, ldflags=ld, env=env))
    return units
add('P20', helper_units(),
    'runtime monitoring: every helper against 128-bit and bit-by-bit reference arithmetic, in builds with and without native 128-bit integers; ASan+UBSan and debug assertions',
    '32-bit divisors: every 61st of all (thorough: every one) with the numerators around their multiples, eight divisors with all 2^32 numerators; 64-bit operands sampled near powers of two and multiples; 8- and 16-bit operands exhaustive for bit helpers.',
    'Each evaluation is one helper result compared with its definition; distinct_nontrivial counts distinct operand pairs and divisors.', ['Rounded-up quotients are only requested where a + b - 1 is representable; logarithms of positive values.'])

# ---------------------------------------------------------------- abort / warn
def abort_units():
    units = []
    for name, cc, f, ld, runs in (('', 'g++', ['-O1', '-DNDEBUG'], ['-lpthread'], [Run('serial', ['--only', 'serial'], cores=4), Run('threads', ['--only', 'threads'])]),
                                  ('_debug', 'g++', ['-O1', '-DHWY_IS_DEBUG_BUILD=1'], ['-lpthread'], [Run('serial', ['--only', 'serial'], {'VT_SCALE': '0.2'}, cores=4)]),
                                  ('_asan', 'g++', ['-O1'] + ASAN, san_ld(ASAN), [Run('serial', ['--only', 'serial'], {'VT_SCALE': '0.15'}, cores=4)]),
                                  ('_tsan', 'clang++', ['-O1'] + TSAN, san_ld(TSAN), [Run('threads', ['--only', 'threads'], {'VT_SCALE': '0.3'})])):
        units.append(Unit('abort' + name, [Obj('abort/abort_main.cc', CXX + f, cc)] + repo_lib(f, cc, ('abort',)), runs, linker=cc, ldflags=ld))
    return units
add('P24', abort_units(), 'runtime monitoring: every abort runs in a forked child whose handler events, stderr and exit status are judged; handler histories against a register model; interval checker and ThreadSanitizer over concurrent histories',
    'Messages up to 8000 characters, every kind of handler (returning, leaving, chaining, warning, replacing itself), random histories, 4-8 threads installing and reporting.',
    'Each evaluation is one abort or warning (or handler exchange) whose deliveries, file, line, text, default report and termination were checked; distinct_nontrivial counts distinct histories, messages and exchange orders.',
    ['The deprecated, documented thread-hostile GetWarnFunc/GetAbortFunc are only called from one thread.', 'Messages may be cut after at least 400 characters.'])

# ---------------------------------------------------------------- tags / printing
def tag_units():
    units = []
    for suffix, cc, f, ld, env in (('', 'g++', [], ['-lpthread'], None), ('_asan', 'g++', ASAN, san_ld(ASAN), {'VT_SCALE': '0.3'})):
        t = ALL_TARGETS if not suffix else ['SSE4', 'AVX2', 'AVX3']
        objs = vec_objs('tags/tags.vec.cc', t, extra=f, cost=40) + [Obj('tags/tags_main.cc', CXX + ['-O1'] + f)] + repo_lib(['-O1'] + f, 'g++', ('targets', 'abort', 'print'))
        units.append(Unit('tags' + suffix, objs, [Run(cores=2)], ldflags=ld, env=env))
    return units
add('P28', tag_units(), 'runtime monitoring: every tag is stored and loaded through poisoned memory and its reported metadata compared with the bytes observed; printed text is parsed back and compared with the stored bits',
    'All lane types; full, capped, fixed and fractional tags and all tags derived from them, on all targets; text for all 8- and 16-bit values and sampled wider ones.',
    'Each evaluation is one reported quantity or printed text compared with the stored bytes; distinct_nontrivial counts distinct tags and printed values.', ['Floating-point text may round to the printed number of decimals.'])

# ---------------------------------------------------------------- dispatch
def disp_unit(suffix, cc, flags, ld, runs, env=None, lib_extra=(), real_extra=()):
    """Modules with different target sets and language standards in one program."""
    base = ['-ffp-contract=off', '-w', '-O1'] + list(flags)
    cfg = [('lib', cc, '17', list(lib_extra)), ('all17', cc, '17', ['-DHWY_COMPILE_ALL_ATTAINABLE']), ('all14', cc, '14', ['-DHWY_COMPILE_ALL_ATTAINABLE']), ('def11', cc, '11', []),
           ('sub17', cc, '17', ['-DHWY_COMPILE_ALL_ATTAINABLE', '-DHWY_DISABLED_TARGETS=(HWY_AVX3_DL|HWY_AVX3|HWY_SSE4)']), ('sub11', cc, '11', ['-DHWY_DISABLED_TARGETS=(HWY_AVX3_SPR|HWY_AVX2|HWY_SSSE3)']),
           ('two17', cc, '17', ['-DHWY_DISABLED_TARGETS=(HWY_AVX3_SPR|HWY_AVX3_ZEN4|HWY_AVX3_DL|HWY_AVX3|HWY_SSE4|HWY_SSSE3)']), ('static', cc, '17', ['-DHWY_COMPILE_ONLY_STATIC']), ('scalar14', cc, '14', ['-DHWY_COMPILE_ONLY_SCALAR']),
           ('avx10', cc, '17', ['-DHWY_COMPILE_ALL_ATTAINABLE', '-DHWY_ATTAINABLE_TARGETS_X86=(HWY_BASELINE_SCALAR|HWY_SSE2|HWY_AVX2|HWY_AVX3|HWY_AVX3_SPR|HWY_AVX10_2|HWY_AVX10_2_512)']),
           ('avx10_14', cc, '14', ['-DHWY_ATTAINABLE_TARGETS_X86=(HWY_BASELINE_SCALAR|HWY_SSE2|HWY_SSE4|HWY_AVX3_ZEN4|HWY_AVX10_2|HWY_AVX10_2_512)']),
           ('emu17', 'clang++', '17', ['-DHWY_COMPILE_ALL_ATTAINABLE'])]
    objs = [Obj('dispatch/mod.cc', base + ['-std=c++' + std, '-DMOD=' + n] + x, c, 5) for n, c, std, x in cfg]
    slim = ['-DHWY_DISABLED_TARGETS=(HWY_AVX3_ZEN4|HWY_AVX3_DL|HWY_SSSE3)']
    objs += [Obj('dispatch/real.cc', base + ['-std=c++17', '-DMOD=real_all', '-DVT_ATTR', '-DHWY_COMPILE_ALL_ATTAINABLE'] + list(real_extra), cc, 60), Obj('dispatch/real.cc', base + ['-std=c++11', '-DMOD=real_11'] + slim, cc, 40)]
    objs += [Obj('dispatch/disp_main.cc', CXX + ['-O1'] + list(flags), cc, 10)] + repo_lib(['-O1'] + list(flags) + list(lib_extra), cc)
    return Unit('disp' + suffix, objs, runs, linker=cc, ldflags=ld, env=env)
add('P07', [disp_unit('', 'g++', ['-DNDEBUG'], ['-lpthread'], [Run('fresh', ['--only', 'fresh'], cores=1), Run('histories', ['--only', 'histories'], cores=1), Run('races', ['--only', 'races']), Run('machines', ['--only', 'machines']), Run('interleave', ['--only', 'interleave'], cores=2)]),
            disp_unit('_tsan', 'clang++', ['-DNDEBUG'] + TSAN, san_ld(TSAN), [Run('races', ['--only', 'races'], {'VT_SCALE': '0.15'})])],
    'runtime monitoring: every dispatched call reports which version ran; histories against a reference model; first calls raced from eight threads (ThreadSanitizer) and observed by a second thread after every single instruction; SupportedTargets single-stepped on simulated CPUs (CPUID and XGETBV emulated)',
    '14 modules with different target sets and language standards; random masks, histories of 30 steps, simulated CPUs drawn from nine generations with up to three features removed and all OS register-state variants.',
    'Each evaluation is one dispatched call, supported-target query or observed would-be call compared with the model; distinct_nontrivial counts distinct histories, simulated machines and interleaving traces.',
    ['DisableTargets and SetSupportedTargetsForTest are ordered before or after other calls (they are not thread-safe).', 'Only 64-bit x86.'])

# ---------------------------------------------------------------- measurement tools
def profiler_unit(suffix, cc, flags, ld, runs, env=None):
    f = ['-O1', '-w'] + flags + ['-DHWY_COMPILE_ONLY_STATIC']
    objs = [Obj('tools/profiler_main.cc', CXX + f, cc, 5), Obj('common/entropy.cc', CXX + f, cc), Obj('$REPO/hwy/contrib/sort/vqsort_128d.cc', CXX + f, cc, 9)]
    objs += [Obj('tools/profiler_unit.cc', CXX + f + ['-fno-merge-constants', '-DUNIT=kUnit%d' % n, '-DUNITNO=%d' % n], cc) for n in (1, 2)]
    objs += repo_lib(f, cc, ('aligned_allocator', 'targets', 'abort', 'timer', 'per_target', 'print'))
    return Unit('profiler' + suffix, objs, runs, linker=cc, ldflags=ld, env=env)
add('P29', [profiler_unit('', 'g++', ['-DNDEBUG'], ['-lpthread'], [Run(timeout=300)]),
            profiler_unit('_asan', 'g++', ASAN, san_ld(ASAN), [Run(env={'VT_SCALE': '0.08', 'ASAN_OPTIONS': 'handle_segv=0:detect_leaks=0:use_sigaltstack=0:detect_stack_use_after_return=0'}, timeout=300)]),
            profiler_unit('_tsan', 'clang++', TSAN, san_ld(TSAN), [Run(env={'VT_SCALE': '0.05', 'VT_REAL': '1'}, timeout=300)])],
    'runtime monitoring: random zone trees run on a scripted clock (trapped RDTSC), report text parsed and compared with the calls and ticks the driver spent; ASan+UBSan with debug assertions, ThreadSanitizer',
    'Random trees up to the documented depth and number of zones on 1-6 threads, names repeated in other functions and translation units, packet storage filled up to three times, clocks that wrap.',
    'Each evaluation is one zone of a report whose presence, calls, self time and position were checked; distinct_nontrivial counts distinct zone trees.',
    ['Up to 200000 ticks per zone may be deducted as observer overhead.', 'Results are printed once, after all zones are exited.'])
def nano_unit(suffix, flags, ld, scale):
    f = ['-O1', '-w'] + flags
    return Unit('nano' + suffix, [Obj('tools/nano_main.cc', CXX + f, 'g++', 5)] + repo_lib(f, 'g++', ('aligned_allocator', 'targets', 'abort', 'timer', 'nanobenchmark')), [Run('measure', ['--only', 'measure'], {'VT_SCALE': scale}, cores=6, timeout=300), Run('timers', ['--only', 'timers'], {'VT_SCALE': scale}, cores=2, timeout=300)],
                linker='g++', ldflags=ld, env={'ASAN_OPTIONS': 'handle_segv=0:detect_leaks=0:use_sigaltstack=0:detect_stack_use_after_return=0'} if flags != ['-DNDEBUG'] else None)
add('P30', [nano_unit('', ['-DNDEBUG'], ['-lpthread'], '1'), nano_unit('_asan', ASAN, san_ld(ASAN), '0.15')],
    'runtime monitoring: functions with known cost measured on a scripted clock (trapped RDTSC) with injected interruptions, every call and timed region observed; CPU detection single-stepped with emulated CPUID',
    'Random input sets, costs from 0 to 16000 ticks, clock steps, parameters; costs that vary or drift; 15% of regions interrupted; simulated CPUs with and without brand string and RDTSCP.',
    'Each evaluation is one judged measurement, result, clock reading or simulated CPU; distinct_nontrivial counts distinct measurement setups and clock pairs.', ['Measured durations of functions with varying cost are only checked for plausibility.'])
def perf_unit(suffix, flags, ld, scale):
    f = ['-O1', '-w'] + flags
    return Unit('perf' + suffix, [Obj('tools/perf_main.cc', CXX + f, 'g++', 5)] + repo_lib(f, 'g++', ('abort', 'timer', 'perf_counters')), [Run(env={'VT_SCALE': scale}, timeout=300)], linker='g++', ldflags=ld + ['-ldl'])
add('P31', [perf_unit('', ['-DNDEBUG'], ['-lpthread'], '2'), perf_unit('_asan', ASAN, san_ld(ASAN), '0.3')],
    'runtime monitoring: the perf system calls of the process are answered by a simulated kernel, whose events the values read are compared with; interrupted calls, short reads, refused events and read errors injected',
    'Random kernels (group capacity, missing events, permissions, multiplexing, versions) and call sequences up to 25 steps.',
    'Each evaluation is one counter value, validity or state compared with the simulated kernel; distinct_nontrivial counts distinct kernels and call sequences.', ['At most ten consecutive interruptions of one system call.'])
# ---------------------------------------------------------------- undefined behaviour
UB_FLAGS = ['-fsanitize=undefined,float-cast-overflow', '-fno-sanitize=vptr,function,alignment', '-g1']
# Checks of pointers in driver code would triple the compile time; they are kept for kernels and in the thorough tier.
UB_OP_FLAGS = ['-fsanitize=undefined,float-cast-overflow', '-fno-sanitize=vptr,function,alignment,null,object-size,pointer-overflow', '-g1']
UB_ENV = {'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=0', 'MSAN_OPTIONS': 'poison_in_malloc=0:poison_in_free=0:poison_in_dtor=0:intercept_memcmp=0:intercept_strlen=0:intercept_strcmp=0:exitcode=77'}
def ub_objs(src, targets, extra, cost):
    """Clang for every target, because its sanitizers combine."""
    r = []
    for t in targets:
        c, f = target_flags(t, 'clang++')
        r.append(Obj(src, f + extra, 'clang++', cost))
    return r
def ub_units():
    units = []
    # Only the vector code is instrumented; the driver checks the shadow of every result lane.
    for suffix, targets in (('', ['EMU128', 'SCALAR', 'AVX2']), ('_more', ['SSE2', 'SSE4'])):
        msan = ['-fsanitize=memory'] + (UB_FLAGS if suffix else UB_OP_FLAGS)
        for g in ('arith', 'bits', 'masks', 'perm', 'table', 'conv', 'reduce'):
            objs = ub_objs('ops/%s.vec.cc' % g, targets, msan, 60 if g == 'perm' else 40) + [Obj('ops/%s.ref.cc' % g, CXX + ['-O1'], cost=9), Obj('ops/main.cc', CXX + ['-O2'], cost=9)] + repo_lib()
            units.append(Unit('ub_%s%s' % (g, suffix), objs, [Run(args=['--threads', '8'], timeout=400, thorough_seeds=1)], linker='clang++', ldflags=['-lpthread', '-fsanitize=memory,undefined'],
                              env=dict(UB_ENV, VT_SCALE='0.15' if not suffix else '0.02'), thorough_only=bool(suffix)))
    ld = ['-lpthread', '-fsanitize=undefined']
    for suffix, targets in (('', ['EMU128', 'SCALAR', 'AVX2']), ('_more', ['SSE2', 'SSSE3', 'SSE4', 'AVX3'])):
        units.append(Unit('ub_mem' + suffix, ub_objs('ops/mem.vec.cc', targets, UB_FLAGS, 30) + [Obj('ops/mem_main.cc', CXX + ['-O2'], cost=9)] + repo_lib(), [Run(args=['--threads', '8'], timeout=400, thorough_seeds=1)], linker='clang++', ldflags=ld, env=UB_ENV, thorough_only=bool(suffix)))
    std = ('targets', 'abort', 'per_target')
    for name, targets, lib, extra in (('algo', ['EMU128', 'SCALAR'], std, ()), ('unroll', ['EMU128'], std, ()), ('math', ['EMU128', 'SCALAR', 'AVX2'], std, ()), ('pack', ['EMU128'], std, ()), ('rng', ['EMU128', 'SCALAR'], BASE_LIB, ()),
                                      ('dot', ['EMU128'], ('targets', 'abort', 'per_target', 'timer', 'stats', 'aligned_allocator', 'contrib/thread_pool/topology'), ('common/entropy.cc', '$REPO/hwy/contrib/sort/vqsort_f64a.cc'))):
        objs = ub_objs('arrays/%s.vec.cc' % name, targets, UB_FLAGS + ['-DNDEBUG'], 40) + [Obj('arrays/%s_main.cc' % name, CXX + ['-O2'])] + [Obj(s, CXX + ['-O1', '-DNDEBUG'] + STATIC) for s in extra] + repo_lib(['-O1', '-DNDEBUG'], names=lib)
        units.append(Unit('ub_' + name, objs, [Run(args=['--threads', '8'], timeout=400, thorough_seeds=1)], linker='clang++', ldflags=ld, env=dict(UB_ENV, VT_SCALE='0.2')))
    return units
add('P32', ub_units(),
    'runtime monitoring: UndefinedBehaviorSanitizer on every vector operation and array kernel of the portable and AVX2 targets while the workloads of P01-P06 and P14-P18 run; MemorySanitizer shadow of every documented result lane of every operation',
    'Inputs are those of the other properties, at smaller scale: every op, lane type and vector size, all kernels. Other targets (SSE2, SSSE3, SSE4, AVX3) in the thorough tier.',
    'Each evaluation is one result lane, memory access or kernel run executed under the sanitizers (and compared with its reference); elements_checked_for_initialisation counts result lanes whose shadow was inspected; distinct_nontrivial counts distinct expected results.',
    ['Alignment is judged by P05 (drivers pass byte-aligned outputs).', 'Vector intrinsics are modelled by the sanitizers as their compiler built-ins.'])
