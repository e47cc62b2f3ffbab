# Harness registry: which harness decides which property, over which sources, within which bounds.
import os
ROOT = os.path.dirname(os.path.abspath(__file__))
DATA = ['data', 'hash', 'uuid', 'base64']
HARNESSES = []
def H(name, prop, src, repo, quick, thorough, bounds, rt=(), **kw):
    kw.setdefault('opts', ['--samples', '6'])
    HARNESSES.append(dict(name=name, prop=prop, src=src, repo=list(repo), rt=list(rt), tiers={'quick': quick, 'thorough': thorough}, bounds=bounds, **kw))

MQ = [{'KT': 0, 'N': 3, 'OPS': 5, 'KN': 3}, {'KT': 1, 'N': 3, 'OPS': 3}, {'KT': 2, 'N': 3, 'OPS': 3}]
PRE = [{'KT': 0, 'KN': 8, 'PRE': 8, 'PSTEP': st, 'POFF': o, 'N': 3, 'RMONLY': 1} for st, o in ((1, 0), (3, 1), (5, 4), (7, 7))]
MT = [{'KT': 0, 'N': 4, 'OPS': 5}, {'KT': 1, 'N': 4, 'OPS': 3}, {'KT': 2, 'N': 4, 'OPS': 3}, {'KT': 0, 'N': 6, 'OPS': 2, 'KN': 6}] + [dict(p, N=5) for p in PRE] + [{'KT': 0, 'KN': 8, 'PRE': 7, 'PSTEP': 3, 'POFF': 1, 'N': 4, 'OPS': 2}]
H('map_ops', 'C05', 'c05_map.c', DATA, MQ, MT, 'N operations (add, remove, add_unused, merge, empty) with chosen keys of KN and symbolic values, from empty', covers=['end'])
H('map_deep', 'C05', 'c05_map.c', DATA, [{'KT': 0, 'KN': 16, 'PRE': 16, 'PSTEP': a, 'POFF': 0, 'N': 3, 'RMONLY': 1, 'READD': 1} for a in (1, 7)], [{'KT': 0, 'KN': 16, 'PRE': 16, 'PSTEP': a, 'POFF': 0, 'N': 4, 'RMONLY': 1, 'READD': 1} for a in (1, 7)], 'tree of 16 keys in 2 insertion orders, then every sequence of N removals, then what was removed added again', covers=['end'])
H('map_del', 'C05', 'c05_map.c', DATA, PRE, PRE, 'full tree of 8 keys in 4 insertion orders, then every sequence of N removals', covers=['end'])
KQ = [{'KINDS': 'K_STR', 'MTYPE': 'IOT_DATA_STRING', 'MULTI': 0}, {'KINDS': 'K_I64', 'MTYPE': 'IOT_DATA_INT64', 'MULTI': 0}, {'KINDS': '(K_I8|K_STR|K_BIN|K_U64)', 'MTYPE': 0, 'MULTI': 1, 'SMAX': 1}]
H('map_keys', 'C05', 'c05_keys.c', DATA, KQ, KQ + [dict(KQ[0], SMAX=3), dict(KQ[0], KINDS='K_F64', MTYPE='IOT_DATA_FLOAT64')], 'three keys of any content: strings of up to SMAX (2) bytes, integers, floating point, bytes, or mixed; any operation on the third', covers=['end', 'two', 'one', 'removed'])
H('map_get', 'C05', 'c05_get.c', DATA, [{}], [{}], 'one value of any type among three keys, symbolic content and default', covers=['end'])

T = ['INT8', 'UINT8', 'INT16', 'UINT16', 'INT32', 'UINT32', 'INT64', 'UINT64', 'FLOAT32', 'FLOAT64', 'BOOL']
H('cast', 'C02', 'c02_cast.c', DATA, [{'FROM': 'IOT_DATA_' + t, 'MODE': m} for t in T for m in range(4)], [{'FROM': 'IOT_DATA_' + t, 'MODE': m} for t in T for m in range(4)],
  'one value, all bit patterns of the source type; all 11 target types', covers=['ok'])
SC = 'K_I8|K_U8|K_BOOL|K_NULL|K_STR'
def K(*n): return '"(%s)"' % '|'.join('K_' + x for x in n)
def order(mode, kinds, inner='0', **kw): return dict(MODE=mode, KINDS='(%s)' % kinds, INNER='(%s)' % inner, **kw)
ALLK = 'K_I8|K_U8|K_I64|K_U64|K_BOOL|K_NULL|K_STR|K_ARR|K_BIN|K_VEC|K_LIST|K_MAP'
H('order_num', 'C03', 'c03_order.c', DATA, [{'MODE': 0, 'TA': 'IOT_DATA_' + t} for t in T], [{'MODE': 0, 'TA': 'IOT_DATA_' + t} for t in T], 'all pairs of the 11 basic numeric types, all bit patterns but NaN', covers=['equal', 'differ'])
Q = [order(1, ALLK, 'K_I8', SMAX=2), order(1, 'K_VEC', 'K_U8|K_STR|K_HOLE', SMAX=1), order(1, 'K_LIST', 'K_U8|K_I8|K_NULL', SMAX=1), order(1, 'K_MAP', 'K_U8|K_STR', SMAX=1), order(1, 'K_VEC', 'K_I64'), order(1, 'K_VEC', 'K_F64', MAXN=1)]
H('order_pair', 'C03', 'c03_order.c', DATA, Q, Q + [order(1, 'K_VEC|K_LIST|K_MAP', 'K_U8|K_STR|K_ARR|K_BIN|K_I64', SMAX=2)], 'two values of any type; strings and arrays up to 2 bytes, containers up to 2 elements', covers=['equal', 'differ'])
Q = [order(2, 'K_I8|K_U64|K_I64|K_STR|K_NULL|K_BOOL', SMAX=1), order(2, 'K_STR|K_ARR|K_BIN', SMAX=2), order(2, 'K_VEC', 'K_U8'), order(2, 'K_VEC', 'K_I8|K_U64', MAXN=1), order(2, 'K_LIST|K_MAP', 'K_U8', MAXN=1)]
H('order_triple', 'C03', 'c03_order.c', DATA, Q, Q, 'three values, transitivity', covers=['chain'])
H('order_misc', 'C03', 'c03_order.c', DATA, [{'MODE': 4}], [{'MODE': 4}], 'three of pointers, binaries and arrays of 4 element types, 0-2 elements, symbolic content', covers=['equal', 'differ', 'chain'])
H('order_str', 'C03', 'c03_order.c', DATA, [{'MODE': 3, 'SMAX': 3}], [{'MODE': 3, 'SMAX': 3}], 'two strings of up to 3 bytes', covers=['equal', 'differ'])
H('hash_num', 'C04', 'c04_hash.c', DATA, [{'MODE': 0, 'TA': 'IOT_DATA_' + t} for t in T[:10]], [{'MODE': 0, 'TA': 'IOT_DATA_' + t} for t in T[:10]], 'any value (no overflow; floats within +-4e18), one increment or decrement', covers=['end'])
H('hash_vec', 'C04', 'c04_hash.c', DATA, [{'MODE': 1, 'N': 3}], [{'MODE': 1, 'N': 4}], 'N operations on an initially empty or filled vector of up to 3 elements', covers=['end'])
H('hash_list', 'C04', 'c04_hash.c', DATA, [{'MODE': 2, 'N': 2}], [{'MODE': 2, 'N': 3}], 'N operations on a list of initially 0..3 elements', covers=['end'])
H('hash_map', 'C04', 'c04_hash.c', DATA, [{'MODE': 3, 'N': 2}], [{'MODE': 3, 'N': 3}], 'N operations on an initially empty or filled map with 3 symbolic keys', covers=['end'])
H('hash_misc', 'C04', 'c04_hash.c', DATA, [{'MODE': 4}], [{'MODE': 4}], 'array, string and constant construction; 2-3 symbolic bytes', covers=['end'])
H('hash_mt', 'C04', 'c04_mt.c', DATA, [{'PRE': 1}], [{'PRE': 2}], '3 threads reading the hash of one vector, list or map of 2 symbolic values, nested or not; all schedules of atomic accesses with at most PRE preemptions', rt=['env_pthread'], hook=True, covers=['end'])
H('b64_encode', 'C01', 'c01_b64.c', DATA, [{'MODE': 0, 'N': 7}, {'MODE': 0, 'N': 3, 'RT': 1}], [{'MODE': 0, 'N': 13}, {'MODE': 0, 'N': 4, 'RT': 1}], 'every byte string of length 0..N', covers=['end'])
H('b64_decode', 'C01', 'c01_b64.c', DATA, [{'MODE': 1, 'N': 5}], [{'MODE': 1, 'N': 6}], 'every text of length 0..N, every buffer size up to the advertised maximum', covers=['end', 'ok', 'refused'])
H('list_ops', 'C06', 'c06_list.c', DATA, [{'N': 3}, {'N': 2, 'PRE': 3}, {'N': 2, 'STATIC': 1}], [{'N': 4}, {'N': 3, 'PRE': 3}, {'N': 2, 'PRE': 5}, {'N': 3, 'STATIC': 1}], 'N operations with symbolic values, from empty or PRE elements; audit by both iterators', covers=['end', 'removed'])
H('vec_ops', 'C07', 'c07_vec.c', DATA, [{'MODE': 0, 'N': 3}], [{'MODE': 0, 'N': 4}], 'initial size 0..3, N operations, sizes up to 5, symbolic values', covers=['end'])
H('vec_dims', 'C07', 'c07_vec.c', DATA, [{'MODE': 1, 'NEST': 3}], [{'MODE': 1, 'NEST': 3}, {'MODE': 1, 'NEST': 5, 'MAXN': 1}, {'MODE': 1, 'NEST': 2, 'MAXN': 3}], 'all nestings', covers=['end', 'regular'])
H('vec_conv', 'C07', 'c07_vec.c', DATA, [{'MODE': 2, 'TO': 'IOT_DATA_' + t, 'KINDS': k} for t in ('INT8', 'UINT16', 'FLOAT64', 'BOOL', 'UINT64') for k in ('(K_HOLE|K_I64|K_STR|K_F64|K_U8)',)], [{'MODE': 2, 'TO': 'IOT_DATA_' + t, 'KINDS': k} for t in T for k in ('(K_HOLE|K_I64|K_STR|K_F64|K_U8)',)], 'vectors of up to 2 elements of 5 kinds', covers=['end', 'some'])
H('arr_iter', 'C07', 'c07_vec.c', DATA, [{'MODE': 3, 'FROM': 'IOT_DATA_' + t} for t in ('INT8', 'UINT32', 'FLOAT64')], [{'MODE': 3, 'FROM': 'IOT_DATA_' + t} for t in T], 'arrays of 0..2 elements', covers=['end'])
H('uuid', 'C17', 'c17_uuid.c', DATA + ['util', 'time'], [{'MODE': 0}, {'MODE': 1}], [{'MODE': 0}, {'MODE': 1}], 'every seed, 3 generations; every 16 byte value; every one-character change', rt=['env_pthread'], covers=['end'])
H('uuid_mt', 'C17', 'c17_uuid.c', DATA + ['util', 'time'], [{'MODE': 2}], [{'MODE': 2}], '3 concurrent generations, all schedules with at most 2 preemptions', rt=['env_pthread'], covers=['end'])
H('time_mt', 'C18', 'c18_time.c', DATA + ['time'], [{'MODE': 0, 'PRE': 2, 'NSEC': 1, 'NB': 3}], [{'MODE': 0, 'PRE': 3, 'NSEC': 1, 'NB': 4}], '2 threads, 2 calls each, any clock readings, interleaving at atomics', rt=['env_pthread'], hook=True, covers=['end'])
H('time_seq', 'C18', 'c18_time.c', DATA + ['time'], [{'MODE': 1, 'NSEC': 2}, {'MODE': 2, 'NSEC': 1}], [{'MODE': 1, 'NSEC': 4}, {'MODE': 2, 'NSEC': 1}], 'any clock readings; any interval below 2^33 units, up to 2 interruptions', rt=['env_pthread'], covers=['end'])
H('own_ops', 'C08', 'c08_own.c', DATA, [{'MODE': 0, 'N': 3}], [{'MODE': 0, 'N': 4}], 'N operations moving 3 reference counted data between a map, a vector and a list, incl. copies and destruction', rt=['env_pthread'], covers=['end'])
H('own_nest', 'C08', 'c08_own.c', DATA, [{'MODE': 1}], [{'MODE': 1}], 'nested containers with metadata; copies; replacement; either destruction order', rt=['env_pthread'], covers=['end'])
H('own_mt', 'C08', 'c08_own.c', DATA, [{'MODE': 2}], [{'MODE': 2}], '3 threads sharing one vector; all schedules of the atomic reference counts with at most 2 preemptions', rt=['env_pthread'], hook=True, covers=['end'])
H('own_buf', 'C08', 'c08_own.c', DATA, [{'MODE': 3, 'MAXLEN': 66}], [{'MODE': 3, 'MAXLEN': 140}], 'text and byte buffers of every length 0..MAXLEN, all ownerships', rt=['env_pthread'], covers=['end'])
AK = '(K_I8|K_U64|K_F64|K_BOOL|K_NULL|K_STR|K_ARR|K_BIN|K_VEC|K_LIST|K_MAP)'
CQ = [{'KINDS': AK, 'INNER': '(K_U8|K_STR|K_ARR)', 'MAXN': 2, 'SMAX': 1}, {'KINDS': 'K_VEC', 'INNER': '(K_HOLE|K_U8|K_NULL)', 'MAXN': 2, 'SMAX': 1}]
CT = CQ + [{'KINDS': '(K_VEC|K_MAP|K_LIST)', 'INNER': '(K_U8|K_STR|K_BIN|K_F32|K_I32|K_U16)', 'MAXN': 2, 'SMAX': 2}]
NQ = [{'NESTED': 1}]
H('copy', 'C09', 'c09_copy.c', DATA, [dict(x, MODE=0) for x in CQ], [dict(x, MODE=0) for x in CT], 'one value of any type, containers of up to 2 elements', covers=['end'])
H('shallow', 'C09', 'c09_copy.c', DATA, [dict(x, MODE=1) for x in CQ], [dict(x, MODE=1) for x in CT], 'one value of any type, containers of up to 2 elements', covers=['end'])
H('copy_typed', 'C09', 'c09_copy.c', DATA, [{'MODE': 3, 'KINDS': 'K_U8', 'INNER': 'K_U8', 'MAXN': 1}], [{'MODE': 3, 'KINDS': 'K_U8', 'INNER': 'K_U8', 'MAXN': 1}], 'typed vectors, lists and maps of 0-2 elements of 7 element types', covers=['end'])
H('compress', 'C09', 'c09_copy.c', DATA, [dict(CQ[1], MODE=2), {'KINDS': '(K_VEC|K_LIST|K_MAP)', 'INNER': '(K_U8|K_STR)', 'MAXN': 2, 'SMAX': 1, 'MODE': 2}], [dict(x, MODE=2) for x in CT[1:]], 'one container of up to 2 elements', covers=['end'])
H('path', 'C10', 'c10_path.c', DATA, [{}], [{}], 'a nested map/vector with symbolic leaves; 13 paths; get, add, remove, update; heap and static paths', covers=['end', 'found', 'absent', 'changed'])
H('str', 'C11', 'c11_str.c', DATA, [{'MODE': 0, 'MAXLEN': 66}], [{'MODE': 0, 'MAXLEN': 140}], 'every length 0..MAXLEN, 3 symbolic bytes, all ownerships', covers=['end'])
H('str_fmt', 'C11', 'c11_str.c', DATA, [{'MODE': 3, 'NBAND': 6, 'SPAN': 5}], [{'MODE': 3, 'NBAND': 9, 'SPAN': 33}], 'formatted text of length b-2..b+2 for each power of two b up to 512 (thorough: b-2..b+30 up to 4096), symbolic first and last bytes', covers=['end'])
H('bin', 'C11', 'c11_str.c', DATA, [{'MODE': 1, 'TY': 'IOT_DATA_' + t} for t in ('UINT8', 'UINT32', 'FLOAT64')], [{'MODE': 1, 'TY': 'IOT_DATA_' + t} for t in T], '0..3 elements with symbolic content, all ownerships', covers=['end'])
PS = [{'MODE': 2, 'TY': 'IOT_DATA_' + t, 'BITS': b, 'SGN': s} for t, b, s in (('INT8', 8, 1), ('UINT8', 8, 0), ('INT16', 16, 1), ('UINT16', 16, 0))]
H('parse', 'C11', 'c11_str.c', DATA, PS, PS, 'every 8 and 16 bit value', covers=['end'])
Q1 = [{'MODE': 1, 'NP': 1, 'MAX': 1, 'PRE': 2, 'SP': 0}, {'MODE': 1, 'NP': 2, 'MAX': 1, 'PRE': 2, 'SP': 0}, {'MODE': 1, 'NP': 1, 'MAX': 0, 'PRE': 2, 'SP': 1}, {'MODE': 1, 'NP': 2, 'MAX': 2, 'PRE': 2, 'SP': 0}]
H('queue_seq', 'C19', 'c19_queue.c', DATA + ['queue'], [{'MODE': 0, 'N': 5}], [{'MODE': 0, 'N': 6}], 'N operations, every initial and later limit, symbolic values', rt=['env_pthread'], covers=['end'])
H('queue_mt', 'C19', 'c19_queue.c', DATA + ['queue'], Q1, Q1 + [dict(x, PRE=3) for x in Q1], '2 producers, 2 consumers, NP items each, all schedules with at most PRE preemptions', rt=['env_pthread'], covers=['end'])
H('queue_stop', 'C19', 'c19_queue.c', DATA + ['queue'], [{'MODE': 2, 'PRE': 2}, {'MODE': 3, 'PRE': 2}], [{'MODE': 2, 'PRE': 3}, {'MODE': 3, 'PRE': 3}], 'producer and consumer blocked or not when stopped or the limit changes; all schedules with at most PRE preemptions', rt=['env_pthread'], covers=['end'])
TPS = DATA + ['threadpool', 'thread', 'component', 'time']
H('pool_order', 'C20', 'c20_pool.c', TPS, [{'MODE': 0, 'N': 4}], [{'MODE': 0, 'N': 5}], 'N jobs, then 2 more, of any of 8 priorities (symbolic), queue limit none, 2 or 4, one thread', rt=['env_pthread'], covers=['end'])
TP = [{'MODE': 6, 'TH': 1, 'MAX': 1, 'PRE': 1}, {'MODE': 6, 'TH': 1, 'MAX': 2, 'PRE': 1}, {'MODE': 1, 'TH': 1, 'PRE': 2}, {'MODE': 1, 'TH': 2, 'PRE': 1}, {'MODE': 2, 'TH': 1, 'MAX': 1, 'PRE': 2}, {'MODE': 2, 'TH': 2, 'MAX': 1, 'PRE': 0}, {'MODE': 3, 'PRE': 2}, {'MODE': 4, 'TH': 1, 'PRE': 2}, {'MODE': 4, 'TH': 2, 'PRE': 1}, {'MODE': 5, 'TH': 1, 'PRE': 2}, {'MODE': 5, 'TH': 2, 'PRE': 1}]
H('pool_fail', 'C20', 'c20_pool.c', TPS, [{'MODE': 7, 'TH': 2, 'PRE': 1}], [{'MODE': 7, 'TH': 2, 'PRE': 2}], 'creation of either of 2 threads failing or not, a second pool alongside; all schedules with at most PRE preemptions', rt=['env_pthread'], covers=['end', 'some', 'none'])
H('pool_self', 'C20', 'c20_pool.c', TPS, [{'MODE': 8, 'TH': t, 'PRE': 1} for t in (1, 2)], [{'MODE': 8, 'TH': 1, 'PRE': 3}, {'MODE': 8, 'TH': 2, 'PRE': 2}], 'two jobs that each try to add a job to their own pool of 1-2 threads, one of them stopping it or not; all schedules with at most PRE preemptions', rt=['env_pthread'], covers=['end', 'both'])
H('pool_mt', 'C20', 'c20_pool.c', TPS, TP, TP + [dict(x, PRE=x['PRE'] + 1) for x in TP], '1-2 threads, up to 4 jobs, adders, waiters, restart, destruction; all schedules with at most PRE preemptions', rt=['env_pthread'], covers=['end'])
SCS = DATA + ['scheduler', 'threadpool', 'thread', 'component', 'time']
H('sched_run', 'C21', 'c21_sched.c', SCS, [{'MODE': 0, 'NS': 1}, {'MODE': 0, 'NS': 2}], [{'MODE': 0, 'NS': 1}, {'MODE': 0, 'NS': 2}], 'schedules of delay 0-2, period 1-2, repeat 0-2, observed for 4 units of a virtual clock', rt=['env_pthread'], covers=['end'])
H('sched_tie', 'C21', 'c21_sched.c', SCS, [{'MODE': 4, 'NS': 3}], [{'MODE': 4, 'NS': 3}], 'three schedules due within a few nanoseconds of each other', rt=['env_pthread'], covers=['end'])
H('sched_ops', 'C21', 'c21_sched.c', SCS, [{'MODE': 1, 'N': 4, 'OTHER': o} for o in (0, 1, 2)], [{'MODE': 1, 'N': 5, 'OTHER': o} for o in (0, 1, 2)], 'N of add, remove, reset, start, stop in successive time units', rt=['env_pthread'], covers=['end'])
H('sched_async', 'C21', 'c21_sched.c', SCS, [{'MODE': 2, 'POOL': p} for p in (0, 1, 2, 9)], [{'MODE': 2, 'POOL': p} for p in (0, 1, 2, 3, 9)], 'one schedule run by a pool or in threads, concurrent or not, function lasting 0-2 periods, repeat 0-2, observed for 4 periods', rt=['env_pthread'], covers=['end'])
H('sched_self', 'C21', 'c21_sched.c', SCS, [{'MODE': 5, 'PRE': 1, 'CB': c} for c in (0, 1, 2)], [{'MODE': 5, 'PRE': 2, 'CB': c} for c in (0, 1, 2)], 'functions run (CB 0), run callbacks (CB 1) and abort callbacks (CB 2) of schedules run synchronously, by a pool or in threads that remove or delete their own or other schedules, add, create, stop; repeat 0-2', rt=['env_pthread'], covers=['end'])
H('sched_free', 'C21', 'c21_sched.c', SCS, [{'MODE': 3, 'PRE': 2, 'KINDS': 5}], [{'MODE': 3, 'PRE': 3, 'KINDS': 5}], 'deleting, removing, stopping, freeing while a schedule runs in a pool, in a thread or synchronously, thread creation failing or not; all schedules with at most PRE preemptions', rt=['env_pthread'], covers=['end'])
FL = DATA + ['file']
H('file_write', 'C26', 'c26_file.c', FL, [{'MODE': 0, 'FAULTS': f} for f in (1, 2, 3)], [{'MODE': 0, 'FAULTS': f} for f in (1, 2, 3, 4)], 'any old content of 0-2 and new content of 1-3 bytes, up to FAULTS failures at any of open, write, close, rename, remove; stale temporary file or not', rt=['env_file'], covers=['end', 'ok', 'failed'], opts=['--samples', '3'])
H('file_read', 'C26', 'c26_file.c', FL, [{'MODE': 1, 'FAULTS': 2}], [{'MODE': 1, 'FAULTS': 4}], 'missing, regular (0-4 bytes) or directory; up to FAULTS failures at any step', rt=['env_file'], covers=['end', 'read', 'nothing'])
H('file_list', 'C26', 'c26_file.c', FL, [{'MODE': 2, 'FAULTS': 1}], [{'MODE': 2, 'FAULTS': 1}], 'directories of up to 3 of 5 names of any kind, 5 patterns', rt=['env_file'], covers=['end', 'listed'])
ST = FL + ['store']
H('store', 'C27', 'c27_store.c', ST, [{'MODE': 0, 'N': 3, 'SXF_FILES': 10}, {'MODE': 1}, {'MODE': 2, 'SXF_FILES': 10}], [{'MODE': 0, 'N': 4, 'SXF_FILES': 10}, {'MODE': 1}, {'MODE': 2, 'SXF_FILES': 10}], 'N saves, loads and deletes of 2 names in 3 places, 1-2 symbolic characters; any set of custom functions; directories of 7 names', rt=['env_file'], covers=['end'])
JS = DATA + ['data-json', 'json']
JA = '"{}[]:,1'
def cs(x): return '"' + x.replace('\\', '\\\\').replace('"', '\\"') + '"'
J0 = [{'MODE': 0, 'N': 3, 'HOW': 3}, {'MODE': 0, 'N': 4, 'HOW': 1, 'ALPHA': cs(JA)}, {'MODE': 0, 'N': 4, 'HOW': 2, 'ALPHA': cs(JA), 'PREFIX': cs('[{"a"'), 'SUFFIX': cs(']')}, {'MODE': 0, 'N': 3, 'HOW': 1, 'ALPHA': cs('dD8c0\\u"'), 'PREFIX': cs('["\\ud83'), 'SUFFIX': cs('"]')}]
J0T = J0[:1] + [{'MODE': 0, 'N': 4, 'HOW': 1}, {'MODE': 0, 'N': 5, 'HOW': 1, 'ALPHA': cs(JA)}, dict(J0[2], N=5), dict(J0[3], N=5)]
H('json_any', 'C13', 'c13_json.c', JS, J0, J0T, 'every text of N bytes, and of N more characters of the structural or escape alphabet within a prefix', covers=['end', 'value'])
JT = [{'MODE': 2, 'HOW': 1, 'N': 5, 'PREFIX': '""'}, {'MODE': 2, 'HOW': 1, 'N': 4, 'PREFIX': cs('{"a":'), 'ALPHA': cs(JA)}]
H('json_tokens', 'C13', 'c13_json.c', JS, JT, JT + [dict(JT[1], N=5), dict(JT[0], N=6, ALPHA=cs(JA))], 'every text of N bytes, or N of the structural alphabet after a prefix; any number of tokens', covers=['end', 'parsed', 'resumed'])
J1 = [{'MODE': 1, 'DEPTH': 0, 'HOW': 1, 'STRK': 5, 'LEAN': 0, 'CUT': 0}, {'MODE': 1, 'DEPTH': 1, 'HOW': 3, 'STRK': 2, 'LEAN': 1, 'CUT': 0}, {'MODE': 1, 'DEPTH': 1, 'HOW': 1, 'STRK': 3, 'LEAN': 1, 'CUT': 1}]
H('json_valid', 'C13', 'c13_json.c', JS, J1, J1, 'valid documents of nesting DEPTH with up to 2 elements or members, symbolic characters, escapes and digits, optional space; every truncation at CUT', covers=['end'])
CP = DATA + ['data-json', 'json', 'component', 'thread']
H('comp_seq', 'C22', 'c22_component.c', CP, [{'MODE': 0, 'N': 4}], [{'MODE': 0, 'N': 6}], 'N transitions, locks and waits with any mask', rt=['env_pthread'], covers=['end'])
H('comp_mt', 'C22', 'c22_component.c', CP, [{'MODE': 1, 'N': 2, 'PRE': 1}, {'MODE': 4, 'PRE': 2}], [{'MODE': 1, 'N': 3, 'PRE': 2}, {'MODE': 4, 'PRE': 3}], '2 waiters with any masks during N transitions; 3 racing transitions and a waiter; all schedules with at most PRE preemptions, one spurious wake-up', rt=['env_pthread'], covers=['end'])
H('comp_refs', 'C22', 'c22_component.c', CP, [{'MODE': 2, 'PRE': 3}], [{'MODE': 2, 'PRE': 4}], '3 holders releasing concurrently', rt=['env_pthread'], hook=True, covers=['end'])
H('comp_reconfig', 'C22', 'c22_component.c', CP, [{'MODE': 3}], [{'MODE': 3}], 'configurations of up to 2 and 3 members, accepted or refused, saved or not', rt=['env_pthread'], covers=['end'])
CF = DATA + ['config']
H('config_env', 'C24', 'c24_config.c', CF, [{'MODE': 0, 'N': 6, 'ALL': 1}, {'MODE': 1}], [{'MODE': 0, 'N': 8, 'ALL': 1}, {'MODE': 1}], 'all texts of N characters, 4 values of the variable; names of 60-66 characters', covers=['end'])
H('config_get', 'C24', 'c24_config.c', CF, [{'MODE': 2}], [{'MODE': 2}], 'every getter on every kind of entry, all numeric values', covers=['end'])
LG = DATA + ['logger', 'component', 'time', 'thread']
LGO = dict(rt=['env_pthread'], covers=['end'], cflags=['-include', os.path.join(ROOT, 'rt', 'console.h')])
H('logger_chain', 'C25', 'c25_logger.c', LG, [{'MODE': 0, 'N': 2}, {'MODE': 0, 'N': 4, 'ONE': 1}], [{'MODE': 0, 'N': 3}, {'MODE': 0, 'N': 5, 'ONE': 1}], 'N of set level, start, stop, chain and log on three loggers (or only the first three on one of them), then a message, any levels', **LGO)
H('logger_write', 'C25', 'c25_logger.c', LG, [{'MODE': 1}], [{'MODE': 1}], 'console, file and UDP; message lengths around the buffer limits, long names, failing open and socket', **LGO)
H('logger_config', 'C25', 'c25_logger.c', LG, [{'MODE': 2}], [{'MODE': 2}], 'destinations, chaining, start flag, any level text', **LGO)
H('logger_mt', 'C25', 'c25_logger.c', LG, [{'MODE': 3, 'PRE': 3}], [{'MODE': 3, 'PRE': 4}], 'two threads logging to a console, file, UDP or the still unused default logger, all schedules with at most PRE preemptions', **LGO)
CT = DATA + ['container', 'component', 'config', 'logger', 'thread', 'time', 'data-json', 'json']
H('cont_ops', 'C23', 'c23_container.c', CT, [{'MODE': 0, 'N': 2}], [{'MODE': 0, 'N': 3}], 'N of add, delete, start, stop, list with 5 names, from empty or 3 components; component slow to run, refusing, invalid configuration', **LGO)
H('cont_load', 'C23', 'c23_container.c', CT, [{'MODE': 1, 'WIDE': 0}], [{'MODE': 1, 'WIDE': 1}], 'all reference graphs of 3 components, known and unknown types, at initialisation and on demand', **LGO)
H('cont_dl', 'C23', 'c23_container.c', CT, [{'MODE': 2}], [{'MODE': 2}], 'library and factory named or not, found or not', **LGO)
H('thread', 'C28', 'c28_thread.c', DATA + ['thread'], [{'FAILS': f} for f in (0, 1, 3)], [{'FAILS': f} for f in (0, 1, 2, 3)], 'any priority, affinity and user; 1 or 4 processors; up to FAILS attributes refused, each attempt to create failing or not', covers=['end', 'created'])
H('thread_first', 'C28', 'c28_first.c', DATA + ['thread'], [{'PRE': 2}], [{'PRE': 3}], 'three threads asking at the same time for any priority, all schedules with at most PRE preemptions', rt=['env_pthread'])
J4 = [dict({'MODE': 2, 'NUM_CHOICE': 1}, KINDS=k, INNER=i, MAXN=n, SMAX=s, **({'KEY_FIXED': 1} if n == 2 else {})) for k, i, n, s in (('(K_STR|K_BIN|K_ARR|K_NULL)', 'K_U8', 1, 2), ('(K_VEC|K_LIST|K_MAP)', '(K_HOLE|K_U8|K_BOOL|K_ARR)', 2, 1), ('(K_VEC|K_MAP|K_LIST)', '(K_STR|K_BIN)', 1, 1), ('(K_VEC|K_MAP)', '(K_LIST|K_VEC|K_MAP|K_U64)', 1, 1))]
H('json_str', 'C14', 'c14_out.c', JS, [{'MODE': 0, 'N': 2}], [{'MODE': 0, 'N': 3}], 'every text of up to N characters on its own, as element, key or member; buffers of 1, 2 to 6 and 7 bytes and default size', covers=['end'])
H('json_num', 'C14', 'c14_out.c', JS, [{'MODE': 1, 'TY': 'IOT_DATA_' + t, 'BITS': 16 if '8' in t or '16' in t else 64} for t in T], [{'MODE': 1, 'TY': 'IOT_DATA_' + t, 'BITS': 16 if '8' in t or '16' in t else 64} for t in T], 'every 8 and 16 bit and floating point value, wide integers within 3 of 6 boundaries; on its own, in arrays, as key', covers=['end'])
H('json_tree', 'C14', 'c14_out.c', JS, J4, J4 + [dict(J4[2], SMAX=2)], 'values of all types nested up to 3 deep with up to MAXN elements', covers=['end'])
CB = DATA + ['data-cbor']
H('cbor_num', 'C15', 'c15_cbor.c', CB, [{'MODE': 0, 'TY': 'IOT_DATA_' + t} for t in T], [{'MODE': 0, 'TY': 'IOT_DATA_' + t} for t in T], 'every value of each numeric type, on its own, in pairs, as key; initial buffers of 1, 3, 8 bytes and default', covers=['end'])
H('cbor_len', 'C15', 'c15_cbor.c', CB, [{'MODE': 1, 'LENS': 11}], [{'MODE': 1, 'LENS': 14}], 'text, bytes, arrays, vectors and maps of lengths around 24, 256 and (thorough) 65536', covers=['end'])
H('cbor_tree', 'C15', 'c15_cbor.c', CB, [{'MODE': 2, 'KINDS': AK, 'INNER': '(K_HOLE|K_I8|K_STR|K_BIN|K_ARR)', 'MAXN': 2, 'SMAX': 1}, {'MODE': 2, 'KINDS': '(K_VEC|K_MAP|K_LIST)', 'INNER': '(K_VEC|K_MAP|K_LIST|K_U64|K_NULL)', 'MAXN': 1, 'SMAX': 1}, {'MODE': 2, 'KINDS': 'K_MAP', 'INNER': '(K_VEC|K_U8)', 'MAXN': 2, 'SMAX': 1}], [{'MODE': 2, 'KINDS': AK, 'INNER': '(K_HOLE|K_I8|K_STR|K_BIN|K_ARR|K_F32|K_BOOL)', 'MAXN': 2, 'SMAX': 2}, {'MODE': 2, 'KINDS': '(K_VEC|K_MAP|K_LIST)', 'INNER': '(K_VEC|K_MAP|K_LIST|K_U64|K_NULL)', 'MAXN': 2, 'SMAX': 1}], 'values of all types nested up to 3 deep with up to 2 elements', covers=['end'])
XM = DATA + ['data-xml', 'yxml']
XP = ['', '<a ', '<a b=\'', '<a>', '<a>&', '<a><!', '<a><?', '<a><![CDATA[', '<?xml', '<!', '<a/>', '<a></', '<a>x<b/>']
H('xml_any', 'C16', 'c16_xml.c', XM, [{'MODE': 0, 'N': 3, 'PREFIX': '"%s"' % p} for p in XP], [{'MODE': 0, 'N': 4, 'PREFIX': '"%s"' % p} for p in XP], 'every N bytes after a prefix leading into each part of the grammar', covers=['end'])
X1 = [{'MODE': 1, 'DEPTH': 0, 'FOCUS': 1}, {'MODE': 1, 'DEPTH': 0, 'FOCUS': 2}, {'MODE': 1, 'DEPTH': 0, 'FOCUS': 4}, {'MODE': 1, 'DEPTH': 2, 'FOCUS': 8}, {'MODE': 1, 'DEPTH': 0, 'FOCUS': 16}]
H('xml_doc', 'C16', 'c16_xml.c', XM, X1, X1 + [{'MODE': 1, 'DEPTH': 1, 'FOCUS': 4}, {'MODE': 1, 'DEPTH': 0, 'FOCUS': 6}, {'MODE': 1, 'DEPTH': 1, 'FOCUS': 16}], 'documents nested DEPTH deep with up to 2 children and 2 attributes, symbolic characters in names, attribute values, text, CDATA, comments, instructions and references; every truncation and trailing character', covers=['end'])
H('xml_ref', 'C16', 'c16_xml.c', XM, [{'MODE': 4, 'N': 2}], [{'MODE': 4, 'N': 3}], 'references of every start followed by up to N symbolic characters, in text and attributes', covers=['end', 'reference'])
H('xml_prolog', 'C16', 'c16_xml.c', XM, [{'MODE': 5}], [{'MODE': 5}], '24 things that may precede an element, with 12 that follow, and 32 that may not precede it', covers=['end'])
H('xml_len', 'C16', 'c16_xml.c', XM, [{'MODE': 2, 'LENS': 18}, {'MODE': 3}], [{'MODE': 2, 'LENS': 21}, {'MODE': 3}], 'text, attributes and names of lengths around the buffers', covers=['end'])
YM = DATA + ['data-yaml']
H('yaml_tree', 'C16', 'c16_yaml.c', YM, [{'MODE': 0, 'DEPTH': 2, 'SLOTS': 3, 'ODD': 1}, {'MODE': 0, 'DEPTH': 3, 'SLOTS': 4, 'ODD': 0}], [{'MODE': 0, 'DEPTH': 3, 'SLOTS': 4, 'ODD': 1}, {'MODE': 0, 'DEPTH': 3, 'SLOTS': 5, 'ODD': 0}], 'every event stream of up to SLOTS nodes nested up to DEPTH, with (ODD) failure at any point, aliases, further documents and none; the YAML library itself is modelled', covers=['end', 'value'])
H('yaml_num', 'C16', 'c16_yaml.c', YM, [{'MODE': 1, 'DEPTH': 0, 'SLOTS': 1, 'ODD': 0}], [{'MODE': 1, 'DEPTH': 1, 'SLOTS': 1, 'ODD': 0}], 'plain and quoted scalars: integers of 1 to 3 digits and at the 64 bit limits in three bases, numbers with a fraction, words', covers=['end', 'value'])
CA = ['-DNDEBUG']
H('block', 'C29', 'c29_block.c', DATA, [{'MODE': 0, 'N': 6, 'FILL': 0}] + [{'MODE': 0, 'N': 4, 'FILL': f} for f in (82, 83, 84)], [{'MODE': 0, 'N': 7, 'FILL': 0}] + [{'MODE': 0, 'N': 5, 'FILL': f} for f in (82, 83, 84, 167)], 'N requests and releases of any size with FILL blocks in use', rt=['env_pthread'], cflags=CA, covers=['end'])
H('block_mt', 'C29', 'c29_block.c', DATA, [{'MODE': 1, 'THREADS': 2, 'PRE': 3, 'FILL': f} for f in (0, 83)], [{'MODE': 1, 'THREADS': 3, 'PRE': 3, 'FILL': f} for f in (0, 82, 83)], 'THREADS threads requesting and releasing, all schedules with at most PRE preemptions, with and without a chunk running out', rt=['env_pthread'], cflags=CA, covers=['end'])
H('block_heap', 'C29', 'c29_block.c', DATA, [{'MODE': 2}], [{'MODE': 2}], 'seven data, each from heap or blocks, released in either order', rt=['env_pthread'], cflags=CA, covers=['end'])
H('type_names', 'C30', 'c30_type.c', DATA, [{'MODE': 0}], [{'MODE': 0}], 'every type and 8 bit type number', covers=['end'])
H('type_text', 'C30', 'c30_type.c', DATA, [{'MODE': 4}], [{'MODE': 4}], 'every text of 3 to 6 characters', covers=['end', 'named'])
H('type_datum', 'C30', 'c30_type.c', DATA, [{'MODE': 1}], [{'MODE': 1}], 'one datum of every type and any value; 3 tag changes', covers=['end'])
H('type_code', 'C30', 'c30_type.c', DATA, [{'MODE': 3}], [{'MODE': 3}], 'all pairs of type codes', covers=['end'])
H('iterate', 'C30', 'c30_type.c', DATA, [{'MODE': 2, 'N': 6}], [{'MODE': 2, 'N': 9}], 'N steps either way over vectors, lists and maps of up to 3 elements, maps filled in every order', covers=['end'])
BI = [dict(PL=a, SL=b, TH=t, MAX=m) for a, b, t, m in ((0, 0, 0, 0), (1, 0, 1, 2), (0, 1, 3, 1))]
H('cont_mt', 'C23', 'c23_mt.c', CT, [{'MODE': 0, 'N': 2, 'PRE': 2}], [{'MODE': 0, 'N': 2, 'PRE': 3}], 'two threads with N of find, read, list, delete and state change each, all schedules with at most PRE preemptions', **LGO)
H('cont_run', 'C23', 'c23_mt.c', CT, [{'MODE': 1, 'PRE': 2}], [{'MODE': 1, 'PRE': 3}], 'a component becoming running in a thread of its own, all schedules with at most PRE preemptions', **LGO)
H('cont_reg_mt', 'C23', 'c23_mt.c', CT, [{'MODE': 3, 'N': 1, 'PRE': 2}], [{'MODE': 3, 'N': 2, 'PRE': 2}], 'two threads with N each of adding one of two factories, creating, filling and freeing a container, looking up factories, all schedules with at most PRE preemptions', **LGO)
H('cont_add_mt', 'C23', 'c23_mt.c', CT, [{'MODE': 4, 'PRE': 2}], [{'MODE': 4, 'PRE': 3}], 'two threads adding a component each to the same container, all schedules with at most PRE preemptions', noraces=True, rt=['env_pthread'], covers=['end'], cflags=['-DNDEBUG'] + LGO['cflags'])
H('cont_load_mt', 'C23', 'c23_mt.c', CT, [{'MODE': 2, 'PRE': 2}], [{'MODE': 2, 'PRE': 3}], 'a component loaded on demand by two threads, all schedules with at most PRE preemptions', noraces=True, **LGO)
H('cont_builtin', 'C23', 'c23_builtin.c', CT + ['threadpool', 'scheduler'], BI, BI + [dict(PL=1, SL=1, TH=2, MAX=3)], 'logger, pool of 1-3 or default threads and queue of 1, 2 or default, scheduler, with or without logger, priority and processor, configured in either order', **LGO)
