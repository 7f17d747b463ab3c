# property -> harness. FS, PLAIN, wraps, ASAN, FSWRAP are injected by ../check (dummies when imported by mkmanifest).
import os
g = globals()
for _n in ('FS', 'PLAIN', 'ASAN', 'FSWRAP', 'SCHED'): g.setdefault(_n, {})
g.setdefault('wraps', lambda l: [])
REAL = 'executes the real code; '
TABLE = {
    'V01': dict(src='vmem_list.cpp', kind=FS, split=7, level='model_checking', tech='explicit-state breadth-first search over the page layouts of the real containers, against a sequence model',
        note=REAL + 'closed state space for page capacities 1..5 and every balance policy; trusts the fake file system and the layout abstraction (item values never influence placement)'),
    'V02': dict(src='vmem_map.cpp', kind=FS, split=8, level='model_checking', tech='explicit-state breadth-first search over the reachable B-trees of the real map, against a dictionary model',
        note=REAL + 'closed state space for small key universes with 2..6 keys per key page and 1..4 items per value page; trusts the fake file system and the tree canonicalisation'),
}
TABLE.update({
    'V03': dict(src='vmem_linked.cpp', kind=FS, level='model_checking', tech='explicit-state breadth-first search over every arrangement of pages in two lists and the free list, on the real code, against sequences',
        note=REAL + 'closed state space for up to 4 (thorough 5) pages including stale link fields; trusts the fake file system'),
})
TABLE.update({
    'V06': dict(src='vmem_handles.cpp', kind=FS, level='model_checking', tech='exhaustive enumeration of handle operation sequences on the real pool, every page address checked against the intercepted mappings',
        note=REAL + 'exact to a depth, and closed over an abstraction (handles, page ownership, mapped pages); trusts the fake file system'),
})
W = dict(src='vmem_world.cpp', kind=FS, split=8, level='model_checking')
TABLE.update({
    'V04': dict(W, tech='breadth-first search over operation histories of all container kinds sharing one real pool; every state is drained and refilled to count the obtainable pages',
        note=REAL + 'every history to a depth over several alphabets, states merged by file content; trusts the fake file system'),
    'V05': dict(W, tech='enumeration of crash points: every state of a breadth-first search over histories is cut by close or sudden death and reopened under every pair of memory limits',
        note=REAL + 'process death between operations only (not power loss); trusts that the fake file keeps what a shared mapping keeps'),
    'V08': dict(W, tech='fault enumeration: every intercepted system call of the last operation of every history in a breadth-first search fails once',
        note=REAL + 'one fault per execution; trusts the fake file system'),
})
TABLE.update({
    'V09': dict(src='vmem_stream.cpp', kind=FS, level='model_checking', tech='exhaustive enumeration of stream operation sequences on a real persistent string against a byte queue',
        note=REAL + 'every sequence to a depth from short prefixes, and short ones at every length around page ends; trusts the fake file system'),
})
TABLE.update({
    'V10': dict(src='vmem_density.cpp', kind=FS, split=8, level='model_checking', tech='explicit-state breadth-first search over the page layouts of the real containers; the fill of every page is checked in each',
        note=REAL + 'closed state space of layouts for page capacities 1..5; long build and drain histories'),
})
TABLE.update({
    'V07': dict(src='vmem_open.cpp', kind=FS, level='model_checking', tech='exhaustive enumeration of file contents: every value of every identification byte, every file size; the file, descriptors and mappings are compared after each open',
        note=REAL + 'every single-byte change and every pair of bit changes of the identification, every size up to 12300 bytes; trusts the fake file system'),
})
JS = dict(src='json.cpp', kind=PLAIN, level='model_checking')
TABLE.update({
    'J01': dict(JS, tech='exhaustive enumeration of texts over token, string, number and nesting alphabets; each is read by the real reader and by a reference parser', note=REAL + 'every text of bounded families; trusts the reference parser'),
    'J02': dict(JS, tech='exhaustive enumeration of texts, cut points and buffer sizes under AddressSanitizer with exactly sized buffers', note=REAL + 'every text of bounded families, every cut point, every buffer size'),
    'J03': dict(JS, tech='exhaustive enumeration of writer call sequences against a pushdown automaton; the output is read by a reference parser and by the real reader', note=REAL + 'every call sequence to a depth; trusts the reference parser'),
    'J04': dict(JS, tech='exhaustive enumeration of texts and skip positions against a reference parser', note=REAL + 'every text of bounded families and every value position in it'),
})
HT = dict(src='http.cpp', kind=PLAIN, level='model_checking')
TABLE.update({
    'H01': dict(HT, tech='exhaustive enumeration of messages over start-line, header and value alphabets; each is read by the real readers and by a reference parser', note=REAL + 'every text of bounded families; trusts the reference parser'),
    'H02': dict(HT, tech='exhaustive enumeration of texts, cut points and buffer sizes under AddressSanitizer with exactly sized buffers, against a reference parser', note=REAL + 'every text of bounded families, every cut point, every small buffer size'),
    'H03': dict(HT, tech='exhaustive enumeration of message parts over alphabets; the bytes written are compared with a reference writer and read back by the real reader', note=REAL + 'every part of bounded families, every output size'),
    'H04': dict(HT, tech='exhaustive enumeration of call sequences on every HTTP stream against the protocol automaton', note=REAL + 'every call sequence to a depth, from the start and after every partial message'),
    'H05': dict(HT, tech='exhaustive enumeration of resource strings against a reference splitter under AddressSanitizer', note=REAL + 'every string over an alphabet to a length'),
})
TX = dict(src='text.cpp', kind=PLAIN, level='model_checking')
TABLE.update({
    'A01': dict(TX, tech='exhaustive enumeration of all characters and of pairs of strings, under AddressSanitizer with exactly sized buffers', note=REAL + 'every character; every pair of strings over an alphabet to a length'),
    'B01': dict(TX, tech='exhaustive enumeration of operation sequences over window sizes against a model of two cursors, under AddressSanitizer', note=REAL + 'every operation sequence to a depth'),
    'L01': dict(TX, tech='exhaustive enumeration of value kinds and lengths around every line capacity, under AddressSanitizer, against the ideal text', note=REAL + 'every combination of up to three values of bounded families'),
    'L02': dict(TX, tech='exhaustive enumeration of severities and filter levels', note=REAL + 'all 65536 pairs in the thorough run'),
    'L03': dict(TX, tech='exhaustive enumeration of buffer lengths and byte values; the dump is parsed back', note=REAL + 'every length to a bound, every byte value in every column'),
    'T01': dict(TX, tech='exhaustive enumeration of all days and seconds against an independent calendar', note=REAL + 'every day of the clock range, every second of a day'),
})
TABLE.update({
    'F01': dict(src='multifile.cpp', kind=PLAIN, level='model_checking', tech='exhaustive enumeration of operation sequences with clock steps, every write failing once, over rotation limits, against a model of the directory', note=REAL + 'every operation sequence to a depth, every position of a failing write; the clock does not go back'),
})
NETWRAP = 'socket close shutdown setsockopt bind connect listen accept accept4 recv recvfrom send sendto getaddrinfo freeaddrinfo'.split()
NT = dict(src='sock.cpp', kind=PLAIN, level='model_checking', libs=wraps(NETWRAP))
TABLE.update({
    'N01': dict(NT, tech='exhaustive enumeration of stream operation sequences over every input text, end and send failure, at the system call boundary, under AddressSanitizer', note=REAL + 'every operation sequence to a depth, every byte value, every failing send'),
    'N02': dict(NT, tech='exhaustive enumeration of socket operation histories with every system call failing once, against a descriptor table', note=REAL + 'every operation sequence to a depth, every failing call'),
    'N03': dict(NT, tech='exhaustive enumeration of TLS socket histories with every TLS and system call failing once, against a table of TLS objects and descriptors', note=REAL + 'every operation sequence to a depth, every failing call; OpenSSL is a stand-in that records'),
    'N04': dict(NT, tech='exhaustive enumeration of datagram sizes, buffer sizes and address families at the system call boundary', note=REAL + 'every size to a bound'),
})
EP = dict(src='endpoint.cpp', kind=PLAIN, level='model_checking', libs=wraps('socket close shutdown setsockopt bind listen accept accept4 recv send getaddrinfo freeaddrinfo'.split()))
TABLE.update({
    'E01': dict(EP, tech='exhaustive enumeration of requests, file sizes, extensions, kinds of targets and growth points; every response of the real endpoint is compared with the files', note=REAL + 'every request of bounded families; one connection at a time; trusts the stand-in network'),
    'E04': dict(EP, tech='exhaustive enumeration of request paths over an alphabet of path segments against a tree whose outside is marked', note=REAL + 'every path of bounded length over the alphabet; symbolic links inside the root are followed'),
    'E05': dict(EP, tech='exhaustive enumeration of disconnection points, garbage texts, failing calls and throwing handlers, each followed by a request that must be served', note=REAL + 'every cut point, every text of bounded families; a client that keeps the connection open without reading is not limited by the server'),
})
EM = dict(src='endpoint_mt.cpp', kind=SCHED, level='model_checking', parts=[('sched.cpp', ['-O2'])], libs=wraps('socket close shutdown setsockopt bind listen accept accept4 recv send getaddrinfo freeaddrinfo'.split()))
TABLE.update({
    'E02': dict(EM, tech='stateless model checking of the real server threads under a controlled scheduler (all schedules up to a preemption bound) with happens-before race detection', note=REAL + 'preemption bound 2 (thorough 3), up to three connections; sequentially consistent executions; trusts the stand-in network and the scheduler'),
    'E03': dict(EM, tech='stateless model checking of the real server threads under a controlled scheduler (all schedules up to a preemption bound)', note=REAL + 'preemption bound 2-3 (thorough 3-4), up to three connections and two further shutdown requests; the endpoint object outlives the signal'),
})
GM = dict(src='gpio_mt.cpp', kind=SCHED, level='model_checking', parts=[('sched.cpp', ['-O2'])], libs=wraps('open open64 close ioctl'.split()))
TABLE.update({
    'G01': dict(GM, tech='stateless model checking of the real bus class under a controlled scheduler (all schedules up to a preemption bound), with every device call failing once', note=REAL + 'two or three threads with one or two transfers, preemption bound 2-3; sequentially consistent executions; trusts the stand-in devices and the scheduler'),
    'G02': dict(GM, tech='stateless model checking of the real background threads under a controlled scheduler with virtual time (all schedules up to a preemption bound)', note=REAL + 'preemption bound 2 (thorough 3), short control histories; virtual time; trusts the stand-in devices and the scheduler'),
})
GP = dict(src='gpio.cpp', kind=PLAIN, level='model_checking', libs=wraps('open open64 close ioctl'.split()))
TABLE.update({
    'G03': dict(GP, tech='exhaustive enumeration of histories of device objects with every device call failing once, against a table of descriptors, under AddressSanitizer', note=REAL + 'every history to a depth, every failing call; trusts the stand-in devices'),
    'G04': dict(GP, tech='exhaustive enumeration of values, frequencies, duty cycles, block sizes and echo timings against the arithmetic of the devices, under a virtual clock', note=REAL + 'all words and measurements, all frequencies at one clock; grids of echo timings; trusts the stand-in devices'),
})
SM = dict(src='samples.cpp', kind=PLAIN, split=3, level='model_checking', libs=['-rdynamic', '-ldl'])
TABLE.update({
    'X01': dict(SM, tech='exhaustive enumeration of the histories of the board games against independent rules; every move on and around the board is tried in every position, every move is undone', note=REAL + 'complete for tictactoe; every history to a depth, every line of four and every end game continuation for connect4'),
    'X02': dict(SM, tech='exhaustive enumeration of request histories, request bodies and headers on the real services against reference models', note=REAL + 'every history to a depth; engine threads run at chosen points; trusts the reference JSON parser'),
    'X04': dict(SM, tech='exhaustive enumeration of positions, learned scores and random numbers for the engines of the games; every move is checked against independent rules', note=REAL + 'all tictactoe positions; late connect4 positions; std::rand() is enumerated'),
})

TABLE['X06'] = dict(src='games_mt.cpp', kind=SCHED, level='model_checking', split=3, parts=[('sched.cpp', ['-O2', '-DSCHED_MAXT=26'])], tech='stateless model checking of the real game services and their engine threads under a controlled scheduler (all schedules up to a preemption bound); responses checked for linearizability against the rules', note=REAL + 'two or three clients with one to four requests, preemption bound 2 (1 with engines; thorough one more); sequentially consistent executions; trusts the scheduler')

TABLE['X05'] = dict(src='car_mt.cpp', kind=SCHED, level='model_checking', parts=[('sched.cpp', ['-O2'])], libs=wraps('open open64 close ioctl'.split()), tech='stateless model checking of the real car service and its background threads under a controlled scheduler with virtual time (all schedules up to a preemption bound), and enumeration of request families, against a model of the vehicle', note=REAL + 'every pair of settings (thorough: every triple), every value from -130 to 130, every truncation; two or three clients, preemption bound 1 (thorough 2); virtual time; trusts the stand-in devices and the scheduler')

TABLE['S01'] = dict(src='suite.cpp', kind=PLAIN, level='model_checking', tech='exhaustive execution of every small suite of outcomes on the real test framework, and of comparisons and exceptions over bounded families', note=REAL + 'suites of up to three categories; rand() is a chosen function of the seed')
def _x03(src, prop, what, kind, modes, cap=None, first=None, **k):
    d = dict(k, src=src, prop=prop, what=what, kind=kind, extra=['-DX03'], modes=modes, thorough_modes=[0, 1, 2, 3, 4, 5])
    if cap: d['cap'] = cap
    if first: d['first'] = first
    return d
TABLE['X03'] = dict(level='model_checking', tech='the bounded exhaustive explorations of nine other properties, repeated on the real code under six kinds of logs; a case whose verdict depends on the log is a violation', note=REAL + 'smaller bounds than the properties it repeats; the threads of endpoint, devices and games run without a log here (the checks of their properties attach one)', multi=[
    _x03('vmem_world.cpp', 'V08', 'pools, pages and containers with failing system calls', FS, [4], split=8),
    _x03('vmem_stream.cpp', 'V09', 'persistent strings', FS, [3], cap=[5000, 1 << 62]),
    _x03('vmem_open.cpp', 'V07', 'opening pool files', FS, [1]),
    _x03('json.cpp', 'J02', 'JSON reader', PLAIN, [4], cap=[3000, 3000], first=[20, 30]),
    _x03('json.cpp', 'J04', 'JSON reader, skipping', PLAIN, [3], cap=[3000, 3000], first=[20, 30]),
    _x03('json.cpp', 'J03', 'JSON writer', PLAIN, [1], cap=[3000, 3000], first=[20, 30]),
    _x03('http.cpp', 'H02', 'HTTP readers', PLAIN, [4], cap=[3000, 3000], first=[20, 30]),
    _x03('http.cpp', 'H03', 'HTTP writers', PLAIN, [3], cap=[3000, 3000], first=[20, 30]),
    _x03('http.cpp', 'H04', 'HTTP call order', PLAIN, [4], cap=[3000, 3000], first=[20, 30]),
    _x03('sock.cpp', 'N01', 'socket streams', PLAIN, [3], libs=wraps(NETWRAP), cap=[20000, 20000], first=[20, 30]),
    _x03('sock.cpp', 'N02', 'sockets with failing system calls', PLAIN, [4], libs=wraps(NETWRAP), cap=[20000, 20000], first=[20, 30]),
    _x03('sock.cpp', 'N03', 'TLS sockets with failing calls', PLAIN, [1], libs=wraps(NETWRAP), cap=[20000, 20000], first=[20, 30]),
    _x03('multifile.cpp', 'F01', 'rotating files', PLAIN, [4], first=[20, 30]),
    _x03('endpoint.cpp', 'E01', 'file requests', PLAIN, [1], libs=EP['libs']),
    _x03('endpoint.cpp', 'E05', 'broken clients', PLAIN, [3], libs=EP['libs']),
    _x03('gpio.cpp', 'G03', 'devices with failing calls', PLAIN, [1], libs=GP['libs']),
    _x03('samples.cpp', 'X02', 'sample services', PLAIN, [1], split=3, libs=SM['libs'], first=[20, 30]),
])
