"""Which contract units and which replay harnesses decide which property."""
import random
from engine import Unit

MSG = ['lib/src/coap_msg.c']
LC = ['vp_memcpy', 'vp_memset']


class H:
    """a dual-mode replay harness (harness/*.c): native search, and bounded run in the verifier"""

    def __init__(self, file, defines=(), sources=(), max_len=300, n=12, unwind=14, cflags=(), ldflags=(),
                 seeds=None, cbmc=False, asan=True):
        self.__dict__.update(locals())
        del self.__dict__['self']
        self.name = file[:-2] + ''.join('_' + d for d in defines).replace('=', '')


def _noise():
    r = random.Random(7)
    return [bytes(r.choice((0, 1, 2, 31, 255, r.randrange(256))) if r.random() < d else r.randrange(31) for _ in range(160)) for d in (0, .02, .1, .3) for _ in range(40)]


UNITS = {}


def unit(name, *a, **k):
    UNITS[name] = Unit(name, *a, **k)


unit('parse_op', 'u_parse_op.c', MSG, 'coap_msg_parse_op', LC)
unit('parse_ops', 'u_parse_ops.c', MSG, 'coap_msg_parse_ops', ['coap_msg_parse_op'], loops=['coap_msg_parse_ops_0'])
unit('parse', 'u_parse.c', MSG, 'coap_msg_parse', ['coap_msg_parse_ops', 'coap_msg_destroy'] + LC)
unit('type_id', 'u_type_id.c', MSG, 'coap_msg_parse_type_msg_id')
unit('format_op', 'u_format_op.c', MSG, 'coap_msg_format_op', LC)
unit('format_ops', 'u_format_ops.c', MSG, 'coap_msg_format_ops', ['coap_msg_format_op'], loops=['coap_msg_format_ops_0'])
unit('format', 'u_format.c', MSG, 'coap_msg_format', LC + ['coap_msg_format_ops'])
unit('rt_op', 'u_rt_op.c', MSG, None, LC)
unit('list_add', 'u_list_add.c', MSG, 'coap_msg_add_op', LC, loops=['coap_msg_op_list_add_0'])
unit('destroy', 'u_destroy.c', MSG, 'coap_msg_destroy', LC, loops=['coap_msg_op_list_destroy_0'])
unit('reset', 'u_destroy.c', MSG, 'coap_msg_reset', LC, loops=['coap_msg_op_list_destroy_0'], defines=['VP_RESET'])
unit('copy', 'u_copy.c', MSG, 'coap_msg_copy', LC + ['coap_msg_add_op'], loops=['coap_msg_copy_0'])
unit('critical', 'u_critical.c', MSG, 'coap_msg_check_critical_ops', [], loops=['coap_msg_check_critical_ops_0'])
unit('unsafe', 'u_critical.c', MSG, 'coap_msg_check_unsafe_ops', [], loops=['coap_msg_check_unsafe_ops_0'],
     defines=['VP_UNSAFE'])
for _n, _f in dict(TYPE='type', CODE='code', ID='msg_id', TOKEN='token', PAYLOAD='payload').items():
    unit('set_' + _f, 'u_set.c', MSG, 'coap_msg_set_' + _f, LC, defines=['VP_' + _n])
unit('clear_payload', 'u_set.c', MSG, 'coap_msg_clear_payload', LC, defines=['VP_CLEAR'])
unit('block_parse', 'u_block.c', MSG, 'coap_msg_op_parse_block_val', [], defines=['VP_PARSE'])
unit('block_format', 'u_block.c', MSG, 'coap_msg_op_format_block_val', [], defines=['VP_FORMAT'])
unit('block_szx', 'u_block.c', MSG, 'coap_msg_op_calc_block_szx', [], defines=['VP_SZX'])
unit('block_op', 'u_block.c', MSG, 'coap_msg_parse_block_op', ['coap_msg_op_parse_block_val'],
     loops=['coap_msg_parse_block_op_0'], defines=['VP_OP'])
unit('uripath', 'u_uripath.c', MSG, 'coap_msg_uri_path_to_str', [], loops=['coap_msg_uri_path_to_str_0'])

MEM = ['lib/src/coap_mem.c']
for _l in (None, 1, 24, 64, 1024, 1152):
    for _fn in ('alloc', 'free'):
        unit('mem_%s_%s' % (_fn, _l or 'sym'), 'u_mem.c', MEM, 'coap_mem_' + _fn, [], loops=['coap_mem_%s_0' % _fn],
             pre_unwind={'coap_mem_%s.0' % _fn: 9}, timeout=250,
             defines=['VP_' + _fn.upper()] + (['VP_LEN=%d' % _l, 'VP_NUM=%s' % ('65536' if _l == 1152 else '(1ull<<40)')] if _l else []))
for _l in (None, 1, 24, 64, 1152, 1 << 40):
    unit('mem_create_%s' % (_l or 'sym'), 'u_mem.c', MEM, 'coap_mem_create', [], defines=['VP_CREATE'] + (['VP_LEN=%d' % _l] if _l else []))
unit('mem_wrap', 'u_mem_wrap.c', MEM, None, ['coap_mem_create', 'coap_mem_destroy', 'coap_mem_alloc', 'coap_mem_free'],
     checks=['--object-bits', '12'])

A_POOL = ('the block allocators return NULL or a fresh block of their fixed length (stub bodies in contracts/msg_spec.h; '
          'the real allocator is verified against this by C06)')
A_LIBC = 'memcpy/memset follow their C library contracts (contracts/libc_spec.h)'
A_LEN = 'buffers and option values are at most 70000 bytes (a UDP datagram and an encodable option are shorter)'
A_LIST = ('option lists are modelled by an unbounded window of two alternating nodes holding arbitrary values '
          '(contracts/list_spec.h); each loop step is proved for an arbitrary position in a list of arbitrary length')
A_LOG = 'logging calls have no effect on the state'
A_MACH = 'machine integers are bit-precise (LP64, two\'s complement); nothing is treated as mathematical'


def msg_seeds():
    out = []
    for cfg in (0, 1, 2, 4, 12, 64):
        for ops in ([], [(11, 3)], [(1, 12), (60, 13)], [(11, 14)], [(300, 268)], [(13, 269)], [(269, 300)], [(268, 20), (65000, 1)]):
            for pl in (0, 1, 17, 1100):
                b = bytearray([cfg, 0x42, 1, 0x12, 0x34, 0xaa, 0xbb])
                prev = 0
                for num, ln in ops:
                    d, prev = num - prev, num
                    nib = lambda v: v if v < 13 else 13 if v < 269 else 14
                    ext = lambda v: b'' if v < 13 else bytes([v - 13]) if v < 269 else (v - 269).to_bytes(2, 'big')
                    b += bytes([nib(d) << 4 | nib(ln)]) + ext(d) + ext(ln) + bytes(i & 255 for i in range(ln))
                if pl:
                    b += b'\xff' + b'x' * pl
                out.append(bytes(b))
    return out


S = ['safety', 'requires', 'frame', 'loop']     # classes of obligations that decide memory safety
F = None                                        # every obligation

P = {}
P['C01'] = dict(
    units=[('parse_op', S), ('parse_ops', S), ('parse', S), ('type_id', S), ('destroy', S), ('list_add', S)],
    harness=[H('h_parse.c', [], MSG, max_len=1500, n=11, seeds=msg_seeds)],
    assume=[A_POOL, A_LIBC, A_LEN, A_LIST, A_LOG, A_MACH])
P['C02'] = dict(
    units=[('parse_op', F), ('parse_ops', F), ('parse', F), ('type_id', F)],
    harness=[H('h_parse.c', ['VP_FUNC'], MSG, max_len=1500, n=11, seeds=msg_seeds)],
    assume=[A_POOL, A_LIBC, A_LEN, A_LOG, A_MACH])
P['C03'] = dict(
    units=[('format_op', F), ('format_ops', F), ('format', F)],
    harness=[H('h_msg.c', ['VP_GROUP=1'], MSG, n=14)],
    assume=[A_LIBC, A_LEN, A_LIST, A_LOG, A_MACH])
P['C04'] = dict(
    units=[('rt_op', F), ('parse_op', F), ('parse_ops', F), ('parse', F), ('format_op', F), ('format_ops', F), ('format', F)],
    harness=[H('h_msg.c', ['VP_GROUP=2'], MSG, n=14), H('h_parse.c', ['VP_FUNC'], MSG, max_len=1500, n=11, seeds=msg_seeds),
             H('h_msg.c', ['VP_GROUP=1'], MSG, n=14)],
    assume=[A_POOL, A_LIBC, A_LEN, A_LIST, A_LOG, A_MACH])
P['C05'] = dict(
    units=[('list_add', F), ('set_type', F), ('set_code', F), ('set_msg_id', F), ('set_token', F), ('set_payload', F),
           ('clear_payload', F), ('copy', F), ('uripath', F)],
    harness=[H('h_msg.c', ['VP_GROUP=3'], MSG, n=14), H('h_msg.c', ['VP_GROUP=6'], MSG, n=14)],
    assume=[A_POOL, A_LIBC, A_LEN, A_LIST, A_LOG, A_MACH])
P['C07'] = dict(
    units=[('parse_op', F), ('list_add', F), ('destroy', F), ('reset', F), ('copy', F), ('set_payload', F), ('clear_payload', F), ('parse', F)],
    harness=[H('h_msg.c', ['VP_GROUP=4'], MSG, n=14), H('h_parse.c', ['VP_LEAK'], MSG, max_len=1500, n=11, seeds=msg_seeds)],
    assume=[A_POOL, A_LIBC, A_LEN, A_LIST, A_LOG, A_MACH])
P['C08'] = dict(
    units=[('block_parse', F), ('block_format', F), ('block_szx', F), ('block_op', F)],
    harness=[H('h_block.c', [], MSG, max_len=40, n=16, cbmc=True)],
    assume=[A_LIST, A_LOG, A_MACH])
P['C09'] = dict(
    units=[('critical', F), ('unsafe', F)],
    harness=[H('h_msg.c', ['VP_GROUP=5'], MSG, n=14)],
    assume=[A_LIST, A_LOG, A_MACH])

P['C06'] = dict(
    units=[(n, F) for n in UNITS if n.startswith('mem_')],
    harness=[H('h_mem.c', [], [], max_len=400)],
    assume=['pool dimensions: number of blocks below 2^40 for block lengths 1, 24, 64 and 1024, at most 65536 for length 1152, at most 64 for '
            'a symbolic length of at most 64 bytes (creation: any number, the lengths 1, 24, 64, 1152, 2^40 and every length below 256); the code '
            'is uniform in the length',
            'malloc, calloc and free follow their C library contracts (CBMC models; any call may fail)', A_MACH])

SRV = ['lib/src/coap_server.c']
RS = ['coap_server_find_trans', 'coap_server_find_empty_trans', 'coap_server_find_oldest_trans', 'coap_server_path_list_match',
      'coap_server_trans_handle_next_block']
PL = ['--object-bits', '12', '--nondet-static']
for _k in range(8):
    unit('srv_exchange_%d' % _k, 'u_srv_exchange.c', SRV, 'coap_server_exchange', [], stubs=RS, need=RS, defines=['VP_K=%d' % _k], timeout=800,
         checks=PL + ['--no-standard-checks'], nocontract=True, unwind={'*': 4}, tier='quick' if _k in (0, 4, 7) else 'thorough')
unit('srv_exchange_safe', 'u_srv_exchange.c', SRV, 'coap_server_exchange', [], stubs=RS, need=RS, defines=['VP_K=5', 'VP_SAFE'], timeout=800,
     checks=PL, nocontract=True, unwind={'*': 4})
unit('srv_find', 'u_srv_misc.c', SRV, 'coap_server_find_trans', [], defines=['VP_FIND'], nocontract=True, checks=PL,
     need=['coap_server_find_empty_trans', 'coap_server_find_oldest_trans'], unwind={'*': 9})
unit('srv_timeout', 'u_srv_misc.c', SRV, 'coap_server_trans_handle_ack_timeout', [], defines=['VP_TIMEOUT'], nocontract=True, checks=PL, unwind={'*': 9})
unit('srv_listen', 'u_srv_misc.c', SRV, 'coap_server_listen', [], defines=['VP_LISTEN'], nocontract=True, checks=PL,
     stubs=['coap_server_trans_handle_ack_timeout'], need=['coap_server_trans_handle_ack_timeout'], unwind={'*': 9})
unit('srv_msgid', 'u_srv_misc.c', SRV, 'coap_server_get_next_msg_id', [], defines=['VP_MSGID'], nocontract=True, checks=PL, unwind={'*': 3})

A_NET = ('sockets, timers and the clock are stubs (contracts/srv_spec.h) in which every call may fail; rand() returns any value; the datagram '
         'at the head of the queue does not change between a peek and the read that follows')
A_AMSG = ('messages are abstract values (contracts/amsg_spec.h): option lists and payloads are opaque identities, copying, resetting and '
          'destroying them follow the contracts verified for lib/src/coap_msg.c (C02, C03, C05, C07)')
A_PLAIN = ('the functions have no unbounded loop: every loop is unwound completely and the unwinding is itself an obligation; the waiting loop of '
           'coap_server_listen is proved by one arbitrary iteration from an arbitrary state')
A_NODTLS = 'the library is verified as built without DTLS; the record layer of GnuTLS takes the place of sendto/recvfrom in the other build'
A_BLK = 'the block-wise step (coap_server_trans_handle_next_block) is replaced by a contract that lets it return any response'


def dg(client=0, type=0, code=0, id=1, ops=0x41, tok=None, x=None, pl=0, plan=0, seed=7, fi=0):
    code = {1: 0, 2: 1, 3: 2, 4: 3, 0: 4, 0x45: 5, 0x84: 6}[code]
    b = [0, client, type | code << 2, id, ops]
    n = ops & 7
    b += list(tok or range(0x30, 0x30 + n))[:n]
    if ops & 0x80:
        b.append(x or 0)
    return bytes(b + [pl, 0, plan, seed, fi])


def srv_seeds():
    t = lambda d: bytes([0x80, d, 0])
    sep, oth = 0x61 - 0x60 + 0x20, 0x42
    # ops>>5 & 3 selects the path: 1 -> "a", 2 -> "b", 3 -> "sepx"; "sep" needs ops & 0x60 == 0, so the path "/b/y" is used
    by = dict(ops=0xc2, x=0)
    h = bytes([2, 0x12, 0x34])
    out = []
    G = dict(code=1)
    out.append(h + dg(**G) + dg(**G) + dg(type=1, id=3, **G) + dg(type=1, id=3, **G))
    out.append(h + dg(**by, **G) + b''.join(t(0x80 | 3 << i) for i in range(5)) + dg(id=2, **G))
    out.append(h + dg(**by, **G) + dg(type=2, code=0, id=0xa0, ops=0) + t(0xff))
    out.append(h + dg(**by, **G) + dg(type=3, code=0, id=0xa0, ops=0) + t(0xff))
    out.append(h + dg(**by, **G) + dg(id=2, **G) + t(0xff))
    out.append(h + dg(**by, **G) + dg(**by, **G) + t(0xff))
    out.append(h + dg(type=2, code=0, id=9, ops=0) + dg(type=3, code=0, id=9, ops=0) + dg(code=0, id=9, ops=0) + dg(code=0x45, id=9, ops=0))
    out.append(h + b''.join(dg(client=c, **G) + t(50) for c in range(10)))
    out.append(h + b''.join(dg(client=c, id=c, plan=0x30 | c << 1, **G) + t(50) for c in (0, 1, 2, 3, 4, 5, 6, 7, 0, 8, 9, 1)))
    out.append(h + dg(ops=0xc1, x=1, **G) + dg(id=2, ops=0xc1, x=3, **G) + dg(id=2, ops=0xc1, x=5, **G))
    out.append(bytes([3]) + b''.join(dg(type=1, id=i & 7, ops=0x48 | 1, **G) for i in range(6)))
    for fi in (0xc0, 0xc4, 0xc5, 0xc8, 0xcc, 0xd0, 0xd4, 0xd5, 0xd6, 0xd7, 0xf4, 0xf5):
        out.append(h + dg(fi=fi, **G) + dg(id=2, **G) + dg(id=3, **by, fi=fi, **G) + t(0x90))
    return out


H_SRV = H('h_server.c', [], MSG, max_len=500, seeds=srv_seeds)
EX = [('srv_exchange_%d' % k, F) for k in range(8)] + [('srv_exchange_safe', F)]
P['C10'] = dict(units=EX + [('srv_msgid', F), ('srv_find', F)], harness=[H_SRV], assume=[A_NET, A_AMSG, A_PLAIN, A_NODTLS, A_BLK, A_LOG, A_MACH])
P['C14'] = dict(units=[('srv_timeout', F), ('srv_listen', F)] + EX, harness=[H_SRV], assume=[A_NET, A_AMSG, A_PLAIN, A_NODTLS, A_BLK, A_LOG, A_MACH])
P['C15'] = dict(units=[('srv_find', F), ('srv_timeout', F)] + EX, harness=[H_SRV], assume=[A_NET, A_AMSG, A_PLAIN, A_NODTLS, A_BLK, A_LOG, A_MACH])

_HB = 'coap_server_trans_handle_next_block'
unit('srv_block', 'u_srv_block.c', SRV, _HB, [], stubs=[_HB], need=[_HB], unwind={'*': 4}, nocontract=True, checks=PL)
unit('srv_block_first', 'u_srv_block.c', SRV, 'coap_server_trans_handle_blockwise', [], stubs=[_HB], need=[_HB], defines=['VP_FIRST'],
     unwind={'*': 4}, nocontract=True, checks=PL)


def blk_seeds():
    import random
    r = random.Random(5)
    out = []
    for cfg in range(8):
        for m in (0, 1, 2):                     # GET, PUT, POST
            for k in (0, 1, 2, 9, 18, 27, 0x24):
                b = bytes([cfg, 0 | m << 2, 1, 8 | (k & 3), k & 3, k, 0xa0 | cfg, 8 | 16, 100 + k])
                for i in range(30):
                    ph = bytes([2, 1 | 4, (8 if i < 6 + k else 0) | (k & 3), k & 3, 8 | 1, 90 + k])
                    b += ph
                out.append(b)
    return out


P['C11'] = dict(units=[('srv_block', F), ('srv_block_first', F)], harness=[H('h_srvblock.c', [], MSG, max_len=500, seeds=blk_seeds)],
                assume=[A_NET, A_AMSG, A_NODTLS, A_LOG, A_MACH,
                        'block option values are decoded and encoded as C08 states (stubs in contracts/u_srv_block.c)',
                        'the application keeps the length of a body it leaves within its buffer; bodies are at most 2^30 bytes',
                        'the recursive call that begins a response body is replaced by the contract of the function (it is in a later phase, so the recursion ends)'])

CLI = ['lib/src/coap_client.c']
unit('cli_con', 'u_client.c', CLI, 'coap_client_exchange', [], stubs=['coap_client_exchange_sep'], need=['coap_client_exchange_sep'], defines=['VP_CON'],
     nocontract=True, checks=PL, unwind={'*': 3}, timeout=800)
unit('cli_sep', 'u_client.c', CLI, 'coap_client_exchange_sep', [], defines=['VP_SEP'], nocontract=True, checks=PL, unwind={'*': 3}, timeout=800)
unit('cli_non', 'u_client.c', CLI, 'coap_client_exchange', [], defines=['VP_NON'], stubs=['coap_client_exchange_con'], need=['coap_client_exchange_con'],
     nocontract=True, checks=PL, unwind={'*': 3}, timeout=800)
for _n, _f in (('1', 'coap_client_exchange_blockwise1'), ('2', 'coap_client_exchange_blockwise2')):
    unit('cli_block' + _n, 'u_clblock.c', CLI, _f, [], stubs=['coap_client_exchange'], need=['coap_client_exchange'], defines=['VP_BLK' + _n], loops=[_f + '_0'],
         nocontract=True, checks=PL, unwind={'*': 5}, timeout=800)
_B = ['coap_client_exchange_blockwise1', 'coap_client_exchange_blockwise2']
unit('cli_block', 'u_clblock.c', CLI, 'coap_client_exchange_blockwise', [], stubs=_B, need=_B, defines=['VP_TOP'], nocontract=True, checks=PL, unwind={'*': 3})

A_CNET = ('sockets, timers and the clock of the client are stubs (contracts/u_client.c) in which every call may fail; rand() and the random identifiers are any values')
A_CCUT = ('the waiting loops are cut at select(): an arbitrary waiting state (retransmission count, timeout, previous response) replaces the state, local variables '
          'that another version of the loops might carry from one event to the next are not replaced')
P['C12'] = dict(units=[('cli_con', F), ('cli_sep', F), ('cli_non', F)], harness=[H('h_client.c', [], MSG, max_len=200)], assume=[A_CNET, A_CCUT, A_AMSG, A_NODTLS, A_LOG, A_MACH])
P['C13'] = dict(units=[('cli_block1', F), ('cli_block2', F), ('cli_block', F)], harness=[H('h_clblock.c', [], MSG, max_len=300)],
                assume=[A_AMSG, A_NODTLS, A_LOG, A_MACH, 'one exchange (coap_client_exchange) is replaced by a contract that lets the server answer anything (C12)',
                        'block option values are decoded and encoded as C08 states; bodies are at most 2^31 bytes',
                        'the loop over the blocks is cut at the start of its body; local variables that another version of it might carry from block to block are '
                        'covered for the first three blocks only'])

for _n, _src, _fs, _l in (('cli', CLI, ['coap_client_create'], ['coap_client_dtls_handshake_0']),
                          ('srv', SRV, ['coap_server_create', 'coap_server_trans_create'], ['coap_server_trans_dtls_handshake_0']),
                          ('tls0', ['proxy/common/src/tls_sock.c'], ['tls_sock_open'], []), ('tls1', ['proxy/common/src/tls_sock.c'], ['tls_ssock_accept'], [])):
    unit('auth_' + _n, 'u_auth.c', _src, None, [], need=_fs, defines=['VP_' + _n[:3].upper(), 'VP_SIDE=' + _n[3:]], nocontract=True, checks=PL,
         loops=_l, unwind={'*': 9}, timeout=300)
P['C16'] = dict(units=[('auth_' + n, F) for n in ('cli', 'srv', 'tls0', 'tls1')],
                harness=[H('h_auth.c', ['VP_' + n], max_len=200, sources=[] if n == 'TLS' else ['lib/src/coap_msg.c', 'lib/src/coap_mem.c'], seeds=_noise) for n in ('CLI', 'SRV', 'TLS')],
                assume=['GnuTLS behaves as its documentation says: the stubs in contracts/u_auth.c return anything and record what the code learned; '
                        'what GnuTLS itself verifies (signatures, chain, revocation lists) is trusted', 'sockets and the clock are stubs in which every call may fail',
                        'name resolution returns at most two addresses; the loops around select() and over the handshake attempts keep no state but their counter: '
                        'one arbitrary later iteration stands for all', A_LOG, A_MACH])

for _n in ('create', 'expand', 'add', 'consume', 'destroy'):
    unit('buf_' + _n, 'u_databuf.c', ['proxy/common/src/data_buf.c'], 'data_buf_' + _n, [], defines=['VP_' + _n.upper()], nocontract=True, unwind={'*': 3},
         checks=PL + ['--memory-leak-check'])
P['C17'] = dict(units=[('buf_' + n, F) for n in ('create', 'expand', 'add', 'consume', 'destroy')], harness=[H('h_databuf.c', [], max_len=300)],
                assume=['buffers of at most 2^40 bytes', 'malloc, calloc, memcpy, memmove and memset follow their C library contracts (stubs in contracts/u_databuf.c, exact at '
                        'an arbitrary byte; an allocation may fail)', 'between two operations the user of a buffer writes only the bytes that it then adds', A_MACH])

HTTP = ['proxy/common/src/http_msg.c']
for _n, _f, _st, _l in (('start', 'http_msg_parse_start', [], []), ('headers', 'http_msg_parse_headers', ['http_msg_trim_ws', 'http_msg_list_add'], [0, 1]),
                        ('trim', 'http_msg_trim_ws', [], [0, 1, 2]), ('body', 'http_msg_parse_body', ['http_msg_parse_headers'], [0, 1, 2]),
                        ('parse', 'http_msg_parse', ['http_msg_parse_start', 'http_msg_parse_headers', 'http_msg_parse_body'], []),
                        ('list', 'http_msg_list_add', [], []), ('destroy', 'http_msg_destroy', [], []), ('generate', 'http_msg_generate', [], [0]),
                        ('generate2', 'http_msg_generate', [], [0]), ('chunk', 'http_msg_generate_chunk', [], [])):
    unit('http_' + _n, 'u_http.c', HTTP, _f, [], stubs=_st, need=_st, defines=['VP_GENERATE', 'VP_PART2'] if _n == 'generate2' else ['VP_' + _n.upper()],
         nocontract=True, checks=PL, unwind={'*': 8},
         loops=['%s_%d' % (_f, k) for k in _l] + (['http_msg_list_destroy_0'] if _n == 'destroy' else []))
for _n in ('strncat', 'strncpy'):
    unit('http_' + _n, 'u_http.c', ['proxy/common/src/util.c'], 'util_' + _n, [], defines=['VP_' + _n.upper()], nocontract=True, checks=PL, unwind={'*': 4}, loops=['util_%s_0' % _n])
P['C18'] = dict(units=[('http_' + n, F) for n in ('start', 'headers', 'trim', 'body', 'parse', 'list', 'destroy')], harness=[H('h_http.c', ['VP_GROUP=1'], max_len=600)],
                assume=['texts of at most 2^30 bytes; lines, chunk lengths and content lengths are arbitrary', 'the string functions of the C library are contracts in contracts/u_http.c: a search '
                        'returns a place inside the text that holds what was sought (the first one at an arbitrary witness), copies are exact at an arbitrary byte, and reading the same number twice '
                        'gives the same result; an allocation may fail', 'the number in a header or chunk length is whatever strtoul/sscanf return: that they read decimal and hexadecimal digits is trusted '
                        'and sampled by the harness', 'that names are compared without regard to case, and the trimmed text byte for byte, is sampled by the harness; the proof covers bounds, order and ownership '
                        'of the headers', 'unit http_body: a message with at most two headers stands for any list (the loop over them keeps only the last length and one flag)', A_MACH])
P['C19'] = dict(units=[('http_' + n, F) for n in ('generate', 'generate2', 'chunk', 'strncat')], harness=[H('h_http.c', ['VP_GROUP=2'], max_len=300)],
                assume=['texts, headers and bodies of at most 2^30 bytes; buffers of at least one byte', 'the string functions of the C library are contracts in contracts/u_http.c, exact at an arbitrary byte', A_MACH])

URI = ['proxy/common/src/uri.c']
for _n, _f, _st, _l in (('parse', 'uri_parse', ['uri_parse_scheme', 'uri_parse_hier_part', 'uri_parse_query', 'uri_parse_fragment'], []),
                       ('scheme', 'uri_parse_scheme', ['uri_decode_str', 'uri_find_port'], []),
                        ('query', 'uri_parse_query', ['uri_decode_str', 'uri_find_port'], []), ('decode', 'uri_decode_str', [], [0]), ('encode', 'uri_encode_str', [], [0]),
                        ('copystr', 'uri_copy_str', [], [0]), ('octet', 'uri_decode_octet', [], []), ('port', 'uri_find_port', [], [0]), ('copy', 'uri_copy', [], []),
                        ('generate', 'uri_generate', ['uri_encode_str', 'uri_copy_str'], [])):
    unit('uri_' + _n, 'u_uri.c', URI, _f, [], stubs=_st, need=_st, defines=['VP_' + _n.upper()], nocontract=True, checks=PL[:2], unwind={'*': 18}, loops=['%s_%d' % (_f, k) for k in _l])
for _k in range(5):
    unit('uri_hier%d' % _k, 'u_uri.c', URI, 'uri_parse_hier_part', [], stubs=['uri_decode_str', 'uri_find_port'], need=['uri_decode_str', 'uri_find_port'],
         defines=['VP_HIER', 'VP_CASE=%d' % _k], nocontract=True, checks=PL[:2], unwind={'*': 18})
P['C20'] = dict(units=[('uri_' + n, F) for n in ('parse', 'hier0', 'hier1', 'hier2', 'hier3', 'hier4', 'scheme', 'query', 'decode', 'encode', 'copystr', 'octet', 'port', 'copy', 'generate')],
                harness=[H('h_uri.c', [], max_len=200, seeds=_noise)],
                assume=['texts and components of at most 2^30 bytes', 'the search functions of the C library (strchr, strsep, strlen) are contracts in contracts/u_uri.c that return the first place, as given by the ghost '
                        'positions at which the text has to be split; in the unit of the hierarchical part its cases (authority, user info, port present or not) are separate units that together cover all texts',
                        'a raw octet 255 may be refused (it is not allowed in a URI)', 'that generating and parsing again gives the same URI is composed from the units: every delimiter inside a component is encoded, an '
                        'octet that is encoded decodes to itself; the whole text is compared by the harness', A_MACH])

CROSS = ['proxy/common/src/cross.c']
for _n, _f, _st, _l in (('method', 'cross_method_http_to_coap', [], []), ('status', 'cross_status_coap_to_http', [], []), ('uri', 'cross_uri_http_to_coap', [], [0, 1]),
                        ('hin', 'cross_headers_http_to_coap', [], [0]), ('hout', 'cross_headers_coap_to_http', [], [0]), ('out', 'cross_uri_coap_to_http', [], [0, 1, 2, 3]),
                        ('req', 'cross_req_http_to_coap', ['cross_method_http_to_coap', 'cross_uri_http_to_coap', 'cross_headers_http_to_coap'], []),
                        ('resp', 'cross_resp_coap_to_http', ['cross_status_coap_to_http', 'cross_headers_coap_to_http'], [])):
    unit('cross_' + _n, 'u_cross.c', CROSS, _f, [], stubs=_st, need=_st, defines=['VP_' + _n.upper()], nocontract=True, checks=PL[:2], unwind={'*': 30}, loops=['%s_%d' % (_f, k) for k in _l])
CONN = ['proxy/http_coap/src/connection.c']
for _n, _f, _st, _l in (('xchg', 'connection_coap_exchange', [], []), ('create', 'connection_coap_client_create', [], []), ('destroy', 'connection_coap_client_destroy', [], []),
                        ('proc', 'connection_process', ['connection_coap_client_create', 'connection_coap_client_destroy', 'connection_coap_exchange', 'connection_gen_error_resp'], []),
                        ('send', 'connection_send', [], [0]), ('recv', 'connection_recv', [], [0]),
                        ('one', '__connection_exchange', ['connection_recv', 'connection_process', 'connection_send'], []), ('trans', 'connection_exchange', ['__connection_exchange'], []),
                        ('gerr', 'connection_gen_error_resp', [], []), ('thr', 'connection_thread_func', ['connection_exchange', 'connection_delete'], [0]),
                        ('new', 'connection_new', ['connection_coap_client_destroy'], [])):
    unit('conn_' + _n, 'u_conn.c', CONN, _f, [], stubs=_st, need=_st, defines=['VP_' + _n.upper()], nocontract=True, checks=PL[:2], unwind={'*': 20}, loops=['%s_%d' % (_f, k) for k in _l])
for _n in ('write', 'read'):
    unit('tls_%sfull' % _n[0], 'u_tlsfull.c', ['proxy/common/src/tls_sock.c'], 'tls_sock_%s_full' % _n, [], stubs=['tls_sock_write', 'tls_sock_read'], need=['tls_sock_' + _n], defines=['VP_' + _n[0].upper()],
         nocontract=True, checks=PL[:2], unwind={'*': 4}, loops=['tls_sock_%s_full_0' % _n])
    unit('tls_' + _n, 'u_tlsio.c', ['proxy/common/src/tls_sock.c'], 'tls_sock_' + _n, [], stubs=['tls_sock_handshake'], need=[], defines=['VP_' + _n[0].upper()],
         nocontract=True, checks=PL[:2], unwind={'*': 20}, loops=['tls_sock_%s_0' % _n])
P['C21'] = dict(units=[('cross_' + n, F) for n in ('method', 'status', 'uri', 'hin', 'hout', 'out', 'req', 'resp')], harness=[H('h_proxy.c', ['VP_GROUP=1'], max_len=200, seeds=_noise)],
                assume=['texts of at most 2^30 bytes; an option of a CoAP message has at most 70000 bytes', 'the functions of the HTTP, CoAP and URI modules are contracts in contracts/u_cross.c: they record what they are '
                        'given and may fail; their own properties are C01 to C04 and C18 to C20', 'strcasecmp, strncasecmp and strstr decide whether a name is the one it is compared with; sscanf and snprintf read and '
                        'write decimal numbers (sampled by the harness)', 'the loops over headers, options, path segments and query parts are cut at an arbitrary iteration', A_MACH])
P['C22'] = dict(units=[('conn_' + n, F) for n in ('xchg', 'create', 'destroy', 'proc', 'send', 'recv', 'one', 'trans', 'gerr', 'thr', 'new')] + [('tls_wfull', F), ('tls_write', F), ('tls_read', F)],
                harness=[H('h_proxy.c', ['VP_GROUP=2'], max_len=60, seeds=_noise)],
                assume=['the CoAP client, the TLS session, select and the modules for messages, URIs and buffers are contracts in contracts/u_conn.c; the client, the messages, the URIs, the translation and the buffers have '
                        'properties of their own', 'a request that is translated has a payload of at most 1024 bytes, or a body kept for a block-wise transfer and no payload (C21)', 'socket descriptors below FD_SETSIZE',
                        'the send buffer is empty between responses', 'one thread per connection: connections share no data (the statistics are compiled out)', A_MACH])
