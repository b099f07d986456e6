"""Which simulated scenarios decide which property."""


def _cmake(*defs):
    def f(root, d):
        return [['cmake', '-S', root + '/sim', '-B', d, '-G', 'Ninja'] + list(defs), ['ninja', '-C', d]]
    return f


VARIANTS = {
    'st': {'build': _cmake('-DSIM_MT=OFF'), 'run': lambda d: [d + '/sim']},
    'mt': {'build': _cmake('-DSIM_MT=ON'), 'run': lambda d: [d + '/sim']},
    # managed library
    'cs': {'build': lambda root, d: [['bash', root + '/csim/build.sh', d]], 'run': lambda d: ['mono', '--runtime=v4.0.30319', d + '/sim.exe']},
}
ENGINE = 'core/src and core/lib of /repo, compiled unmodified (in mt stages with memory-access instrumentation)'
FS = 'file system (in-memory, page-cache semantics of a killed process)'
SCHED = 'thread scheduler and pthread primitives (fibers)'
MANAGED = 'UtyMap.Unity of /repo compiled from source, UtyRx, UtyDepend and UnityEngine as shipped (IL redirected to the seams, memory accesses of UtyMap.Unity instrumented)'
CS_STUBS = ['native engine (documents what it was asked for; tile content by formula)', 'file system (in-memory)', 'network', 'clock and timers', 'threads, locks, thread pool',
            'internal calls of UnityEngine']

TRUST = ('Seeded exploration, not proof: passing means no violation in the runs made. Trusts the simulator (fiber scheduler, '
         'in-memory file system, allocator seam) and the reference model of the scenario. ')

PROPS = {
    'C01': {
        'technique': 'seeded fiber scheduling of concurrent callers + happens-before race detection, reference map of handed-out ids',
        'note': TRUST + 'Interleavings at locks, atomics, file and stream calls; sequentially consistent memory, races reported by vector clocks.',
        'stages': [
            {'variant': 'mt', 'scenario': 'strings', 'quick': 6000, 'thorough': 200000},
        ],
        'probes': ['op.unassigned', 'op.bulk', 'sched.contended'],
        'real': [ENGINE], 'stubs': [FS, SCHED],
    },
    'C02': {
        'technique': 'process kill / torn write / disk error at seeded I/O operations, ids checked against everything acknowledged before',
        'note': TRUST + 'Kill semantics: what was handed to the kernel survives, user-space buffers are lost, the write in flight may be torn at a page boundary (no power-loss model: the engine never syncs and promises none).',
        'stages': [
            {'variant': 'st', 'scenario': 'strings_crash', 'quick': 40000, 'thorough': 1500000},
        ],
        'probes': ['crash.recovered', 'op.reportedError', 'op.openRejected'],
        'real': [ENGINE], 'stubs': [FS, SCHED],
    },
    'C03': {
        'technique': 'seeded histories of operations, tile searches and reopens on the real stores over the simulated file system with short and interrupted reads and writes, against a map of tile to elements',
        'note': TRUST + 'Elements have at most 65539 points; histories up to ~100 operations plus bulk saves of up to 400 elements, up to 4 sessions.',
        'stages': [
            {'variant': 'st', 'scenario': 'stores', 'quick': 15000, 'thorough': 800000},
        ],
        'probes': ['op.searchTileHits', 'op.erase', 'op.bulk', 'op.saveHuge', 'op.cancelledSearch'],
        'real': [ENGINE], 'stubs': [FS, SCHED],
    },
    'C04': {
        'technique': 'seeded histories of saves, erases, reopens and term searches on the real stores over the simulated file system with short and interrupted reads and writes, against a word-matching reference',
        'note': TRUST + 'Words are split as the documentation of the index says; an or-term which no element of a tile has may be ignored next to and-terms.',
        'stages': [
            {'variant': 'st', 'scenario': 'stores_text', 'quick': 15000, 'thorough': 800000},
        ],
        'probes': ['op.textHits', 'op.erase', 'op.bulk'],
        'real': [ENGINE], 'stubs': [FS, SCHED],
    },
    'C05': {
        'technique': 'process kill / torn write at seeded I/O operations, elements checked against everything acknowledged before',
        'note': TRUST + 'Kill semantics: what was handed to the kernel survives, user-space buffers are lost, the write in flight may be torn (no power-loss model: the engine never syncs and promises none).',
        'stages': [
            {'variant': 'st', 'scenario': 'stores_crash', 'quick': 40000, 'thorough': 1500000},
        ],
        'probes': ['crash.recovered', 'op.searchTileHits', 'op.textHits'],
        'real': [ENGINE], 'stubs': [FS, SCHED],
    },
    'C06': {
        'technique': 'seeded disk errors (open, read, write, rename, unlink, full disk) and kills, answers checked against everything acknowledged before',
        'note': TRUST + 'An operation which met an error has no definite effect until the next successful look at the tile; erase stays all-or-nothing.',
        'stages': [
            {'variant': 'st', 'scenario': 'stores_err', 'quick': 60000, 'thorough': 2000000},
        ],
        'probes': ['op.reportedError', 'op.searchTileHits', 'op.textHits'],
        'real': [ENGINE], 'stubs': [FS, SCHED],
    },
    'C07': {
        'technique': 'seeded import histories with missing, cut and unreadable files, failing allocations and cancellation at seeded steps; tiles compared with a fresh engine which made only the acknowledged imports',
        'note': TRUST + 'With failures: the reference is the engine itself in a fault-free run with only the acknowledged imports. Without: an independent model of what the file says (scenario content).',
        'stages': [
            {'variant': 'st', 'scenario': 'imports', 'quick': 7000, 'thorough': 500000},
            {'variant': 'st', 'scenario': 'content', 'quick': 2500, 'thorough': 150000},
        ],
        'probes': ['op.import', 'op.importFailed', 'op.importCancelled', 'op.rolledBack', 'op.untouched', 'fault.cutFile', 'fault.lostNode', 'op.wholeElement'],
        'real': [ENGINE], 'stubs': [FS, SCHED],
    },
    'C15': {
        'technique': 'open handles of the simulated file system counted after imports with seeded faults and cancellation',
        'note': TRUST,
        'stages': [
            {'variant': 'st', 'scenario': 'imports_handles', 'quick': 9000, 'thorough': 500000},
        ],
        'probes': ['op.import', 'op.importFailed', 'op.importCancelled', 'fault.damagedFile'],
        'real': [ENGINE], 'stubs': [FS, SCHED],
    },
    'C17': {
        'technique': 'seeded histories of imports of generated map data over the simulated file system with short reads and restarts; every tile compared with an independent model of the map data (members, rings, clipping by plain geometry)',
        'note': TRUST + 'Geometry which only touches a tile border within 3e-7 degrees may or may not be stored; clipped pieces are judged by tags, containment and their length and area, not by orientation.',
        'stages': [
            {'variant': 'st', 'scenario': 'content', 'quick': 8000, 'thorough': 400000},
        ],
        'probes': ['op.import', 'op.clippedElement', 'op.wholeElement', 'op.restart', 'fault.read_partial'],
        'real': [ENGINE], 'stubs': [FS, SCHED],
    },
    'C08': {
        'technique': 'seeded histories of requests with the mesh cache over the simulated file system, each compared with a fresh engine without cache',
        'note': TRUST + 'Data of a tile do not change once it is cached: the cache has no invalidation and documents none. The reference is the engine itself without cache.',
        'stages': [
            {'variant': 'st', 'scenario': 'cache', 'quick': 5000, 'thorough': 250000},
        ],
        'probes': ['op.request', 'op.cancelledRequest', 'op.restart'],
        'real': [ENGINE], 'stubs': [FS, SCHED],
    },
    'C09': {
        'technique': 'process kill / torn write / disk error at seeded I/O operations on the cache and seeded interleavings of requests for one tile, results compared with a fresh engine without cache',
        'note': TRUST + 'Kill semantics as for C05. Threads: interleavings at locks, atomics, file operations and shared memory accesses.',
        'stages': [
            {'variant': 'st', 'scenario': 'cache_faults', 'quick': 5000, 'thorough': 250000},
            {'variant': 'mt', 'scenario': 'threads_cache', 'quick': 3000, 'thorough': 120000},
        ],
        'probes': ['op.request', 'crash.recovered', 'sched.contended'],
        'real': [ENGINE], 'stubs': [FS, SCHED],
    },
    'C10': {
        'technique': 'cancellation at seeded callbacks, scheduling steps and from other fibers; results compared with a fresh engine, bound on results after cancellation',
        'note': TRUST + 'Stops soon: at most 12 results after the token was cancelled, on tiles with more than a thousand elements.',
        'stages': [
            {'variant': 'st', 'scenario': 'cancel', 'quick': 5000, 'thorough': 250000},
            {'variant': 'mt', 'scenario': 'threads_cancel', 'quick': 2000, 'thorough': 100000},
        ],
        'probes': ['op.cancelledRequest', 'cancel.atStep', 'cancel.fromOther'],
        'real': [ENGINE], 'stubs': [FS, SCHED],
    },
    'C11': {
        'technique': 'seeded sequences of bad input, damaged files, failing allocations and I/O errors, each followed by healthy requests compared with a fresh engine',
        'note': TRUST + 'Damage of map files leaves coordinates alone: an element over half of the world is legal and takes minutes. Content accepted from a damaged but still readable file is not judged.',
        'stages': [
            {'variant': 'st', 'scenario': 'errors', 'quick': 8000, 'thorough': 300000},
        ],
        'probes': ['bad.style0', 'bad.import', 'bad.flippedFile', 'bad.element0', 'bad.tile', 'bad.memory', 'bad.io', 'bad.text', 'bad.faultyStyle', 'bad.elevation'],
        'real': [ENGINE], 'stubs': [FS, SCHED],
    },
    'C12': {
        'technique': 'seeded fiber scheduling of concurrent requests + happens-before race detection, each compared with a fresh engine which made this request only',
        'note': TRUST + 'Interleavings at locks, atomics, file operations and shared memory accesses; sequentially consistent memory, races reported by vector clocks.',
        'stages': [
            {'variant': 'mt', 'scenario': 'threads', 'quick': 5000, 'thorough': 250000},
        ],
        'probes': ['op.request', 'sched.contended', 'sched.preempt'],
        'real': [ENGINE], 'stubs': [FS, SCHED],
    },
    'C13': {
        'technique': 'seeded fiber scheduling of imports and requests + happens-before race detection, results between those of a fresh engine with the imports acknowledged before and with all imports',
        'note': TRUST + 'Meshes of the ground are compared after the imports only (they depend on all elements at once).',
        'stages': [
            {'variant': 'mt', 'scenario': 'threads_import', 'quick': 4000, 'thorough': 200000},
        ],
        'probes': ['op.import', 'op.duringImport', 'sched.contended'],
        'real': [ENGINE], 'stubs': [FS, SCHED],
    },
    'C14': {
        'technique': 'seeded histories and interleavings of elevation queries with missing, damaged and repaired files and I/O errors, against an interpolation model',
        'note': TRUST + 'A file which may have been read does not change until the engine is restarted.',
        'stages': [
            {'variant': 'st', 'scenario': 'elevation', 'quick': 8000, 'thorough': 400000},
            {'variant': 'mt', 'scenario': 'elevation_threads', 'quick': 4000, 'thorough': 200000},
        ],
        'probes': ['op.known', 'op.unknown', 'op.srtm', 'sched.contended'],
        'real': [ENGINE], 'stubs': [FS, SCHED],
    },
    'C16': {
        'technique': 'seeded histories of imports, requests, searches, cancellations and restarts, each answer compared with a fresh engine which made the imports only',
        'note': TRUST + 'The reference is the engine itself with the shorter history, so wrong but repeatable content is not seen here.',
        'stages': [
            {'variant': 'st', 'scenario': 'history', 'quick': 5000, 'thorough': 250000},
        ],
        'probes': ['op.request', 'op.import', 'op.restart', 'op.cancelledRequest'],
        'real': [ENGINE], 'stubs': [FS, SCHED],
    },
    'C18': {
        'technique': 'kill, torn write, full disk, disk and network errors and garbage at seeded I/O operations of seeded histories on the managed library; every file the engine is handed judged against what the server gave',
        'note': TRUST + 'The native engine is a stub here; servers answer with recorded garbage, errors, late or never.',
        'stages': [
            {'variant': 'cs', 'scenario': 'tiles', 'quick': 2000, 'thorough': 60000, 'par': {'judge': 18, 'faults': 1}},
            {'variant': 'cs', 'scenario': 'tiles', 'quick': 1500, 'thorough': 40000, 'par': {'judge': 18, 'kills': 1}},
        ],
        'probes': ['op.tile', 'op.import', 'op.crash', 'fault.kill', 'fault.net_garbage', 'fault.net_error'],
        'real': [MANAGED], 'stubs': CS_STUBS,
    },
    'C19': {
        'technique': 'seeded interleavings, delays, network and disk faults and restarts on the managed library; what each subscriber got counted and compared with what the engine and the servers gave',
        'note': TRUST + 'The native engine is a stub here. Requests touched by a fault may fail; all others must be answered within 60 simulated seconds.',
        'stages': [
            {'variant': 'cs', 'scenario': 'tiles', 'quick': 4000, 'thorough': 90000, 'par': {'judge': 19}},
        ],
        'probes': ['op.tile', 'op.find', 'op.place', 'op.dispose', 'op.crash', 'fault.net_never', 'sched.preempt', 'sched.slow', 'check.tile'],
        'real': [MANAGED], 'stubs': CS_STUBS,
    },
    'C20': {
        'technique': 'seeded interleavings of the pool threads, timers and callers of the managed library + happens-before race detection; registry and stylesheet use checked as invariants',
        'note': TRUST + 'Interleavings at locks, timers, files, network, volatile and shared memory accesses of UtyMap.Unity; accesses inside UtyRx count at its locks only.',
        'stages': [
            {'variant': 'cs', 'scenario': 'tiles', 'quick': 3000, 'thorough': 60000, 'par': {'judge': 20}},
            {'variant': 'cs', 'scenario': 'registry', 'quick': 4000, 'thorough': 100000, 'par': {'judge': 20}},
        ],
        'probes': ['op.tile', 'op.dispose', 'check.id', 'sched.preempt', 'sched.slow'],
        'real': [MANAGED], 'stubs': CS_STUBS,
    },
    'C21': {
        'technique': 'seeded concurrent histories of imports, requests, searches and restarts on generated stylesheets and map data with short reads, every answer judged by an independent model of the stylesheet language and the map data + happens-before race detection',
        'note': TRUST + 'Generated stylesheets use names, zoom ranges, the four comparisons, several selectors and builders, element rules, imports and overriding declarations; evaluated expressions and the look of real builders are judged by other properties.',
        'stages': [
            {'variant': 'mt', 'scenario': 'delivery', 'quick': 5000, 'thorough': 300000},
        ],
        'probes': ['op.request', 'op.styled', 'op.clipped', 'op.relation', 'op.found', 'op.height', 'op.element', 'op.restart', 'sched.preempt'],
        'real': [ENGINE], 'stubs': [FS, SCHED],
    },
    'C22': {
        'technique': 'seeded concurrent histories of imports, tile requests and restarts on generated ground elements and stylesheets with short reads; every delivered ground judged against an independent geometric model of the covered places + happens-before race detection',
        'note': TRUST + 'Places are sampled (60 per tile) away from the borders of elements; total area, containment and winding are judged for the whole tile. Noise of heights and colors is switched off by the stylesheet, and so is the mesh cache, which stores single precision by design.',
        'stages': [
            {'variant': 'mt', 'scenario': 'ground', 'quick': 4000, 'thorough': 40000},
        ],
        'probes': ['op.request', 'op.mesh', 'op.restart', 'check.canvas', 'check.thing', 'check.stacked', 'check.height', 'sched.preempt'],
        'real': [ENGINE], 'stubs': [FS, SCHED],
    },
}

NOT_APPLICABLE = {
}
