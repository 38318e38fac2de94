"""What is built and which explorations decide which property."""
TARGETS = {
    'cluster': {
        'dir': 'cluster',
        'harness': ['rt/rt.cpp', 'rt/explore.cpp', 'cluster/world.cpp', 'cluster/main.cpp'],
        'skip': [],
    },
    'fslog': {
        'dir': 'fslog',
        'harness': ['rt/rt.cpp', 'rt/explore.cpp', 'rt/harness.cpp', 'rt/vfs.cpp', 'fslog/main.cpp'],
        'sut': ['fs_log_store.cxx', 'buffer.cxx'],
    },
    'fsthr': {
        'dir': 'fslog', 'tsan': True,
        'harness': ['rt/rt.cpp', 'rt/explore.cpp', 'rt/harness.cpp', 'rt/vfs.cpp', 'fslog/main.cpp'],
        'sut': ['fs_log_store.cxx', 'buffer.cxx'],
    },
    'ser': {
        'dir': 'ser',
        'harness': ['rt/rt.cpp', 'rt/explore.cpp', 'rt/harness.cpp', 'ser/main.cpp'],
        'sut': ['buffer.cxx', 'cluster_config.cxx', 'snapshot.cxx', 'snapshot_sync_req.cxx', 'srv_config.cxx'],
    },
    'svc': {
        'dir': 'svc', 'tsan': True, 'as_sut': [],
        'harness': ['rt/rt.cpp', 'rt/explore.cpp', 'rt/harness.cpp', 'rt/vfs.cpp', 'rt/vnet.cpp', 'svc/main.cpp'],
        'sut': ['asio_service.cxx', 'buffer.cxx'], 'sutflags': ['-DASIO_DISABLE_EPOLL', '-DASIO_DISABLE_EVENTFD'],
        'flags': ['-DASIO_DISABLE_EPOLL', '-DASIO_DISABLE_EVENTFD'],
    },
    'conc': {
        'dir': 'conc', 'tsan': True, 'as_sut': ['conc/main.cpp'],
        'harness': ['rt/rt.cpp', 'rt/explore.cpp', 'rt/harness.cpp', 'conc/main.cpp'],
        'sut': ['buffer.cxx', 'cluster_config.cxx', 'peer.cxx', 'raft_server.cxx', 'raft_server_req_handlers.cxx',
                'raft_server_resp_handlers.cxx', 'snapshot.cxx', 'snapshot_sync_req.cxx', 'srv_config.cxx'],
    },
    'threads': {
        'dir': 'threads', 'tsan': True, 'as_sut': ['threads/main.cpp'],
        'harness': ['rt/rt.cpp', 'rt/explore.cpp', 'rt/harness.cpp', 'threads/main.cpp'],
        'sut': ['buffer.cxx', 'cluster_config.cxx', 'peer.cxx', 'raft_server.cxx', 'raft_server_req_handlers.cxx',
                'raft_server_resp_handlers.cxx', 'snapshot.cxx', 'snapshot_sync_req.cxx', 'srv_config.cxx'],
    },
}


def C(*names):
    return [('cluster', n) for n in names]


def T(*names):
    return [('threads', n) for n in names]


def S(*names):
    return [('ser', n) for n in names]


def V(*names):
    return [('svc', n) for n in names]


def F(*names):
    return [('fslog', n) for n in names]


def N(*names):
    return [('conc', 'conc' + n) for n in names]


SNAPC = C('snapcrash0', 'snapcrash1', 'snapcrash2', 'snapcrash3')
SNAPL = C('snaplate0', 'snaplate1', 'snaplate2', 'snaplate3')
SNAP = C('snap0', 'snap1', 'snap2', 'snap3')
SNAPA = C('snapasync0', 'snapasync1', 'snapasync2', 'snapasync3')
MEMB = C('memb-add', 'memb-snap', 'memb-crash', 'memb-1to2', 'memb-rm')
PREV = C('prevote', 'prevote-part', 'prevote-def', 'prevote-def-part')
AWAY = C('away0', 'away1', 'away2', 'away3', 'away4', 'away5')
LEASE = C('lease', 'lease2', 'lease4', 'lease5')
CORE = C('elect', 'repl', 'part', 'crash', 'five')
ALLC = CORE + PREV + SNAP + SNAPL + SNAPC + SNAPA + MEMB + LEASE + C('client', 'client-new', 'client-lazy', 'prevote-five')

PLAN = {
    'C01': {'quick': C('elect', 'part', 'crash', 'prevote', 'memb-rm', 'memb-add') + N('1-2'), 'more': ALLC},
    'C02': {'quick': C('elect', 'part', 'crash', 'prevote-def-part', 'snapcrash0', 'memb-add', 'memb-crash') + N('0-2', '1-2', '6-2'), 'more': ALLC},
    'C03': {'quick': C('repl', 'part', 'crash', 'snap0', 'snapcrash1', 'memb-snap', 'memb-crash') + N('2-2', '7-2'), 'more': ALLC},
    'C04': {'quick': C('repl', 'part', 'crash', 'five', 'snaplate1', 'snapcrash0', 'memb-rm', 'memb-crash') + N('2-2', '9-2'), 'more': ALLC},
    'C05': {'quick': C('repl', 'part', 'crash', 'snap0', 'snap1', 'snapasync0', 'memb-snap', 'client-lazy') + N('2-2', '7-2', '8-2'), 'more': ALLC},
    'C06': {'quick': C('repl', 'part', 'crash', 'snap0', 'snapasync0', 'client', 'client-lazy') + N('0-2', '2-2'), 'more': ALLC},
    'C07': {'quick': MEMB + N('3-2', '4-2', '5-2', '10-2'), 'more': ALLC},
    'C08': {'quick': SNAP + SNAPC + C('snapasync0', 'snapasync1', 'memb-snap') + N('7-2', '8-2', '9-2', '10-2'), 'more': SNAPL + SNAPA + MEMB},
    'C09': {'quick': C('repl', 'part', 'crash', 'prevote-def', 'snapcrash0', 'snapcrash1', 'snap0', 'memb-crash', 'memb-1to2') + AWAY, 'more': ALLC},
    'C10': {'quick': C('elect', 'part', 'crash', 'prevote-def', 'snap0', 'snap1', 'snapcrash1', 'snapcrash2', 'snapasync1', 'memb-add', 'memb-snap') + N(*['%d-2' % k for k in range(11)]), 'more': ALLC},
    'C11': {'quick': PREV + C('prevote-five', 'prevote-five-part'), 'more': []},
    'C12': {'quick': LEASE, 'more': C('part')},
    'C13': {'quick': C('client', 'client-new', 'client-lazy', 'memb-rm') + N('2-2', '3-2'), 'more': C('part', 'crash', 'memb-add')},
    'C14': {'group': 'threads', 'quick': T('async-2', 'async-3'), 'more': []},
    'C15': {'group': 'threads', 'quick': T(*['srv%d-%s' % (k, v) for k in range(8) for v in ('idle', 'destroy', 'destroy+')]) + N('2-2', '7-2'),
            'more': T(*['srv%d-idle+' % k for k in range(8)])},
    'C16': {'group': 'fslog', 'quick': F(*['seq-r%dc%d' % (r, c) for r in range(4) for c in (1, 2, 9)]) + F('seq-r0c2d', 'seq-r1c1d', 'seq-r2c2d'),
            'more': F('seq-r3c1d')},
    'C17': {'group': 'threads', 'quick': [('fsthr', 'thr-r%d%s' % (r, c)) for r in (1, 2, 3) for c in ('c1', 'c2', 'c9')] + [('fsthr', 'thr-r1c1t'), ('fsthr', 'thr-r3c2t')],
            'more': [('fsthr', 'thr-r%d%s' % (r, c)) for r in (1, 2, 3) for c in ('c1t', 'c2t')]},
    'C18': {'group': 'fslog', 'quick': F(*['fault-r%dc%d' % (r, c) for r in range(4) for c in (1, 2, 9)]), 'more': []},
    'C23': {'group': 'fslog', 'quick': F('crash-r0c1', 'crash-r0c9', 'crash-r1c2', 'crash-r2c1', 'crash-r3c2', 'crash-r3c9'), 'more': F('crash-r0c2', 'crash-r1c1', 'crash-r1c9', 'crash-r2c2', 'crash-r2c9', 'crash-r3c1')},
    'C19': {'group': 'ser', 'quick': S(*['buf-%d%s' % (i, v) for i in range(14) for v in ('', 'f')]) + S(*['buf-%de' % i for i in range(8, 14)]) +
            S(*['%s-%s' % (a, k) for a in ('rt', 'cut') for k in ('srv', 'conf', 'snap', 'sync', 'log')]), 'more': [],
            'note': 'Explored directly on the compiled implementation, compared with a byte-array model of a buffer after every operation; allocations end at an inaccessible page.'},
    'C20': {'group': 'svc', 'quick': V('echo-001', 'echo-011', 'echo-021', 'echo-002', 'echo-101', 'echo-201', 'echo-301', 'echo-401', 'echo-501', 'raw-all', 'raw-cut', 'peer-all',
                                       'rpcthr-11', 'rpcthr-12', 'rpcthr-22', 'rpcthr-12f', 'rpcthr-22f', 'rpcthr-12+', 'rpcthr-22+'), 'more': []},
    'C21': {'group': 'svc', 'quick': V('timer-11', 'timer-12', 'timer-21', 'timer-11s', 'timer-21x', 'timer-22x', 'timer-11l', 'timer-12l'), 'more': []},
    'C22': {'group': 'svc', 'quick': V('stop-110', 'stop-111', 'stop-112', 'stop-210', 'stop-211', 'stop-121', 'stop-110t', 'stop-110+', 'stop-111k', 'lines-1'), 'more': []},
    'C24': {'group': 'conc', 'quick': N(*['%d-%s' % (k, v) for k in range(11) for v in ('2', '2+', '3')]), 'more': N(*['%d-3+' % k for k in range(11)])},
}
CLUSTER_ASSUME = [
    'deterministic harness: the state machine, log store, state manager, RPC and scheduler handed to raft_server are in-memory implementations of the public interfaces; a crash loses everything but what was handed to state manager, log store and snapshot before',
    'one server handles one event at a time in these explorations; interleavings inside one server are explored by the scenarios conc*, which are part of most of these checks, and by the checks C15 and C24',
    'a server that is added starts with an empty log; one that crashes before it became a member is not restarted as it is',
]
ASSUME = {
    'all': ['bounds as listed per scenario: the number of deviations of each kind from the fault-free schedule'],
}
for _p in ['C%02d' % i for i in range(1, 14)]:
    ASSUME[_p] = list(CLUSTER_ASSUME)

THREAD_ASSUME = ['sequentially consistent memory: threads are switched at synchronisation calls and at the accesses to the watched objects (compiler instrumentation), weaker orderings of the hardware are not explored']
FS_ASSUME = ['the file system is an in-memory stand-in for the system calls the store makes, without other users of the files']
for _p in ('C14', 'C15'):
    ASSUME[_p] = list(THREAD_ASSUME)
ASSUME['C15'].append('log store, state machine, state manager, RPC and scheduler are in-memory implementations of the public interfaces')
ASSUME['C16'] = FS_ASSUME + ['cache of at least one entry']
ASSUME['C17'] = THREAD_ASSUME + FS_ASSUME + ['one writing thread, as in the server, which serialises its writers']
ASSUME['C23'] = FS_ASSUME + ['what a completed file operation wrote survives; a single write of up to a few kilobytes happens completely or not at all']
ASSUME['C18'] = FS_ASSUME + ['one or two failing operations per compaction, or one and all that follow it']

ASSUME['C19'] = ['strings without zero bytes inside', 'log entries that have a buffer']
NET_ASSUME = ['sockets, name resolution, clock and files are in-memory stand-ins for the system calls; asio is built with its select reactor instead of epoll']
ASSUME['C20'] = NET_ASSUME + THREAD_ASSUME + ['messages below the 16 MB limit of the receiver', 'a peer sends no more than one response per request']
ASSUME['C21'] = NET_ASSUME + THREAD_ASSUME + ['the caller serialises its calls on one task']
ASSUME['C22'] = NET_ASSUME + THREAD_ASSUME
ASSUME['C24'] = THREAD_ASSUME + ['log store, state machine, state manager, RPC and scheduler are in-memory implementations of the public interfaces',
                 'a timer event may come to nothing when a call at the same time cancels its timer; a client call that is made while the leader changes may be refused',
                 'one answer per request']
TECH = {
    'conc': 'stateless model checking of the implementation: all schedules up to a preemption bound of two or three concurrent calls on a real raft_server under a controlled scheduler (user-space threads, interposed pthreads, instrumented memory accesses), with checkpoints and state hashing; the oracle is the set of results of all sequential executions of the same calls, which is enumerated first',
    'svc': 'model checking of the implementation: the real asio service on a virtual network, file system and clock under a controlled scheduler; all call sequences, network events (partial deliveries, failures at every point) and thread schedules within the stated bounds, with checkpoints and state hashing',
    'ser': 'bounded exhaustive enumeration on the implementation: all operation sequences up to a depth on buffers of all boundary sizes against a byte-array model, all combinations of boundary field values of every serialised type, every truncation and single-byte change, with memory guarded by inaccessible pages',
    'threads': 'stateless model checking of the implementation: all thread schedules up to a preemption bound of the real code under a controlled scheduler (user-space threads, interposed pthreads, instrumented memory accesses), with checkpoints and state hashing',
    'fslog': 'explicit-state model checking of the implementation: all operation sequences up to a depth, and a failure or the end of the process at every file operation, on the real file log store over an in-memory file system, compared with a list model after every step',
    'cluster': 'explicit-state model checking of the implementation: depth-first exploration of real raft_server objects under a deterministic runtime (memory checkpoints, canonical state hashing, per-kind deviation bounds), with monitors on every state',
}
NOTE = {
    'conc': 'exhaustive within the stated preemption bounds, starting states and sets of calls, for sequentially consistent memory',
    'svc': 'exhaustive within the stated bounds on preemptions, partial deliveries, failures and calls, for sequentially consistent memory',
    'ser': 'exhaustive for the stated sizes, operations, depth and boundary values',
    'threads': 'exhaustive within the stated preemption bounds and thread scenarios, for sequentially consistent memory',
    'fslog': 'exhaustive for the stated operation alphabet, depth and starting states',
    'cluster': 'exhaustive within the stated bounds on servers, timeouts, lost messages, crashes, partitions and client calls; deeper histories are not covered',
}
NA = {}
