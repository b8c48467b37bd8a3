from hypothesis import strategies as st
from gen import B, opts
from driver import Violation

BUDGET = {'quick': dict(cases=4000, seconds=240), 'thorough': dict(cases=60000, seconds=800)}
RULE = ('A case is 1-5 synchronisation objects (locks, re-entrant locks, conditions over own or shared locks, events, semaphores, barriers, the three queues), a history of 0-14 operations on them by the same or another thread, '
        'a copy (same process, other thread or fresh process; alone, in containers, instances or closures) and 3-20 operations that never wait, applied to the original and to the copy, whose results and final states must agree. '
        'Non-trivial: an object is held, set, counted down, broken or filled when it is stored.')
ASSUMPTIONS = ['a re-entrant lock that is held can only be loaded by the thread that holds it; loading it anywhere else must be refused', 'no thread waits on the objects when they are stored']

OPS = {'Lock': ['acquire', 'acquire', 'release', 'locked', 'acquire_t', 'with'], 'RLock': ['acquire', 'acquire', 'acquire_n', 'release', 'owned', 'acquire_t', 'with', 'release_all'],
       'Condition': ['acquire', 'acquire_n', 'release', 'owned', 'notify', 'notify_all', 'wait', 'wait_for', 'with'], 'Event': ['set', 'clear', 'is_set', 'wait'],
       'Semaphore': ['acquire', 'release', 'release_n', 'acquire_t', 'with'], 'BoundedSemaphore': ['acquire', 'release', 'release_n', 'acquire_t', 'with'],
       'Barrier': ['state', 'abort', 'reset', 'wait'], 'Queue': ['put', 'put', 'get_nowait', 'qsize', 'empty', 'full', 'task_done', 'join']}
OPS['LifoQueue'] = OPS['PriorityQueue'] = OPS['Queue']

@st.composite
def strat(draw):
    b = B(draw); kinds = []; lines = []
    for i in range(b.int(1, 5)):
        k = b.choice(['Lock', 'RLock', 'Condition', 'Event', 'Semaphore', 'BoundedSemaphore', 'Barrier', 'Queue', 'LifoQueue', 'PriorityQueue', 'Lock', 'RLock'])
        n = 'o%d' % i
        if k == 'Condition':
            ls = ['o%d' % j for j, kk in enumerate(kinds) if kk in ('Lock', 'RLock')]
            e = 'threading.Condition(%s)' % (b.choice(['', '', 'threading.Lock()'] + ls * 2))
        elif 'Semaphore' in k: e = 'threading.%s(%d)' % (k, b.int(0, 4))
        elif k == 'Barrier': e = 'threading.Barrier(%d%s)' % (b.choice([1, 2, 3]), b.choice(['', ', print', ', None, 0.01', ', lambda: 5']))
        elif 'Queue' in k: e = 'queue.%s(%s)' % (k, b.choice(['', '', '1', '2', '3']))
        else: e = 'threading.%s()' % k
        kinds.append(k); lines.append('%s = %s' % (n, e)); b.label(k)
    def ops(n):
        out = []
        for _ in range(n):
            i = b.int(0, len(kinds) - 1); op = b.choice(OPS[kinds[i]])
            arg = b.choice([0, 1, 5, 'a', 'zz']) if op == 'put' and kinds[i] != 'PriorityQueue' else b.int(0, 9) if op == 'put' else b.choice([2, 3, 9, 10, 11, 19, 100, 130, 257, 1000]) if op == 'acquire_n' else b.int(1, 3) if op == 'release_n' else b.int(0, 1) if op == 'wait_for' else 0
            out.append([i, op, arg, b.chance(8)])
        return out
    hist, post = ops(b.int(0, 14)), ops(b.int(3, 20))
    names = ['o%d' % i for i in range(len(kinds))]
    lines.append('OBJS = [%s]' % ', '.join(names))
    form = b.choice(['fn', 'inst', 'part', 'nested'])
    if form == 'fn': lines += ['def mk(%s):' % ', '.join(names), '    def get(): return [%s]' % ', '.join(names), '    return get', 'OBJ = mk(*OBJS)']
    elif form == 'inst': lines += ['class Box:', '    def __call__(self): return [%s]' % ', '.join('self.' + n for n in names), 'OBJ = Box()'] + ['OBJ.%s = %s' % (n, n) for n in b.sample(names, len(names))]
    elif form == 'part': lines += ['class Ret:', '    @staticmethod', '    def go(a): return a', 'OBJ = functools.partial(Ret.go, OBJS)']
    else: lines += ['def go(d): return [d["k"][i][0] for i in range(%d)]' % len(names), 'OBJ = functools.partial(go, {"k": [(x, {1: x}) for x in OBJS]})']
    b.label(form)
    return dict(src='\n'.join(lines) + '\n', history=hist, ops=post, opts=opts(b, byref=(None, None, False)), where=b.choice(['same', 'same', 'fresh', 'thread']), labels=sorted(b.labels))

def cases(tier): return strat()

ACT = {'acquire', 'set', 'put', 'abort', 'release', 'release_n', 'acquire_t', 'acquire_n'}
def run(case, ctx):
    ctx.label(*case['labels'], 'proto%s' % case['opts'].get('protocol'), case['where'])
    ctx.nontrivial(any(h[1] in ACT for h in case['history']))
    z = ctx.zygote(mods=('vlib', 'vdesc', 'ops_sync', 'queue'))
    a = z.call('ops_sync', 'run_case', src=case['src'], history=case['history'], ops=case['ops'], opts=case['opts'], where=case['where'], wall=60)
    if a['done']: return
    r = z.call('ops_sync', 'load', data=a['data'], ops=case['ops'], wall=60)
    if a['held'] and r.get('refused'):  # refused unless the thread there happens to have the same identity
        ctx.label('refused')
        return
    if r.get('refused'): raise Violation('loading was refused')
    if r['play'] != a['play']: raise Violation('the copy behaves differently: %r' % [x for x in zip(a['play'], r['play']) if x[0] != x[1]][:2])
