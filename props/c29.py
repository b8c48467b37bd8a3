from hypothesis import strategies as st
from gen import B

BUDGET = {'quick': dict(cases=3500, seconds=240), 'thorough': dict(cases=60000, seconds=800)}
RULE = ('A case is a graph of 2-8 instances, modules, functions, classes, lists, dictionaries, sets, tuples, deques, subclasses of them with attributes and a container class, with sharing and cycles, and a history of 4-16 edits (attributes set, removed, replaced by an equal or the same object; items added, removed, replaced, reordered, added and removed again; keys replaced by equal ones), new and dropped objects, memorising with and without force, and questions. '
        'has_changed must be reachability of a changed or unknown object over snapshots, whats_changed the attributes from which one is reached and whether one of the items is. Non-trivial: two questions, one of them about something changed.')
ASSUMPTIONS = ['contents of frozensets and slots are not followed', 'a set whose elements are the same in another order may be reported', 'whether an attribute from which the object itself is reached again is named for its own changes is open', 'containers that make new items at each iteration (arrays, ranges) are not used']
KINDS = ['A', 'A', 'A', 'A2', 'mod', 'fn', 'cls', 'list', 'list', 'lsub', 'tuple', 'tsub', 'nt', 'deque', 'cont', 'hash', 'set', 'dict', 'dict', 'dsub']

@st.composite
def strat(draw):
    b = B(draw)
    def val(d=1):
        k = b.weighted([(6, 'o'), (1, 'n'), (1, 'big'), (1, 's'), (1, 'none'), (1, 'flt'), (1, 'tup')])
        if k == 'tup' and d: return [k, [val(0) for _ in range(b.int(0, 2))]]
        return [k if k != 'tup' else 'n', b.int(0, 9)]
    init = [[b.choice(KINDS), [val() for _ in range(b.int(0, 3))]] for _ in range(b.int(2, 8))]
    links = [[b.int(0, 7), ['set', b.int(0, 2), ['o', b.int(0, 7)]]] for _ in range(b.int(0, 9))]
    ops = []
    for _ in range(b.int(4, 16)):
        k = b.weighted([(5, 'edit'), (3, 'mem'), (5, 'ask'), (1, 'new'), (1, 'drop')])
        if k == 'edit': ops.append([k, b.int(0, 9), [b.choice(['set', 'set', 'add', 'del', 'repl', 'swap', 'same', 'equal', 'undo', 'dict', 'rekey']), b.int(0, 5), val()]])
        elif k == 'mem': ops.append([k, b.int(0, 9), b.chance(35), b.bool()])
        elif k == 'new': ops.append([k, 0, b.choice(KINDS), [val() for _ in range(b.int(0, 3))]])
        else: ops.append([k, b.int(0, 9)])
    ops.insert(b.int(0, 2), ['mem', b.int(0, 9), False, True])
    ops.append(['ask', b.int(0, 9)])
    return dict(init=init, links=links, ops=ops)

def cases(tier): return strat()

def run(case, ctx):
    z = ctx.zygote(mods=('vlib', 'ops_diff'))
    r = z.call('ops_diff', 'history', init=case['init'], ops=case['ops'], links=case['links'])
    ctx.label(*{k for k, v in case['init']}, *{o[0] + (':' + o[2][0] if o[0] == 'edit' else '') for o in case['ops']}, 'attrs' if r['attrs'] else 'no attrs', *(['id reused'] if r['reuse'] else []))
    ctx.nontrivial(r['questions'] >= 2 and r['changed'] > 0)
