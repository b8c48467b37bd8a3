from hypothesis import strategies as st
from gen import B
from driver import Violation, Skip

BUDGET = {'quick': dict(cases=250, seconds=240), 'thorough': dict(cases=9000, seconds=800)}
RULE = ('A case is an operation (dump_module, dump_module with refimported, dump_session, load_module without and with a target, load_session, load_module_asdict), the form of the path (str, pathlib, relative, left out), what is at the path (nothing, a session, a longer or empty file, a directory, a link to a file, a relative, dangling, chained or looping link, a link to a directory), a umask, and 0-3 actions of another user (swap in any of these, delete). '
        'A single action is tried at every event of the operation: before and after each file-system call and before each line of the session code (counted on the present code by tracing); tuples of actions at drawn events. Oracle: the file, the dangling target and the directory behind the links keep content, mode and time, what was behind a link is never loaded, every failure is an OSError, a link, directory or missing file present from the start is refused, '
        'otherwise the operation succeeds, a new file has no permissions for others, an existing one holds exactly the new session, and only the default path is warned about. Non-trivial: at least one action, or a link at the path; each case stands for 1-100 runs.')
ASSUMPTIONS = ['the other user replaces the path atomically', 'links in the directories above the path are followed', 'FIFOs and devices at the path are not covered', 'where an empty file is swapped in, loading fails with the error of pickle']
ACTS = ['link', 'rellink', 'dangling', 'linkdir', 'chain', 'loop', 'delete', 'file', 'other', 'empty', 'dir']

@st.composite
def strat(draw):
    b = B(draw)
    op = b.choice(['dump', 'load', 'asdict', 'dump', 'load', 'asdict', 'dumpref', 'dump_session', 'loadinto', 'load_session'])
    pk = b.choice(['str', 'str', 'pathlib', 'rel'] + (['default'] if op in ('dump', 'load', 'asdict') else []))
    state = b.choice(['none', 'file', 'other', 'file', 'other', 'empty', 'dir', 'link', 'rellink', 'dangling', 'linkdir', 'chain', 'loop'])
    n = b.weighted([(1, 0), (5, 1), (3, 2), (1, 3)])
    acts = [b.choice(ACTS if not b.chance(40) else ['link', 'dangling']) for _ in range(n)]
    return dict(op=op, pathkind=pk, state=state, actions=acts, umask=b.choice([0o022, 0, 0o077, 0o002, 0o777, b.int(0, 0o777)]), seed=b.int(0, 10**6), limit=30)

def cases(tier): return strat()

def run(case, ctx):
    z = ctx.zygote(mods=('vlib', 'ops_link'))
    r = z.call('ops_link', 'attack', **case)
    ctx.label(case['op'], 'path:' + case['pathkind'], 'state:' + case['state'], 'actions:%d' % len(case['actions']), *['act:' + a for a in case['actions']])
    if r['refused']: ctx.label('some refused')
    if r['done']: ctx.label('some done')
    ctx.nontrivial(bool(case['actions']) or 'link' in case['state'] or case['state'] in ('dangling', 'chain', 'loop'))
