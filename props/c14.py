from hypothesis import strategies as st
from gen import B

BUDGET = {'quick': dict(cases=8000, seconds=240), 'thorough': dict(cases=150000, seconds=800)}
RULE = ('A case is a history over 1-2 files and 1-3 handles opened in any mode (text, binary, unbuffered, pure-Python): reads, writes, seeks, truncation, flushes and closing on original and loaded handles, stores of one or several handles with a file mode given as argument or setting, changes to the files from outside (rewritten, cut, extended, replaced, deleted) and loads, also repeated ones. '
        'The same history runs in a second folder with plain file operations doing what the file mode promises; results of every operation, positions, modes, names, types, file contents and permissions must agree. Non-trivial: a load that succeeded after the file was used or changed.')
ASSUMPTIONS = ['encoding, newline and buffering arguments other than the defaults are not part of a stored handle', 'handles whose name is a file descriptor are left out', 'strictio has no public way to be set']
TEXTS = ['', 'a', 'hello', 'line one\nline two\n', 'crlf\r\nend\r\n', 'é€\U0001f600 wide\n', '\n\n', 'x' * 9000 + '\n']

@st.composite
def strat(draw):
    b = B(draw)
    names = ['f1', 'f2.txt'][:b.int(1, 2)]
    def text(): return b.choice(TEXTS) + b.choice(['', '', 'tail', '\r', '\xff\n'])
    files = {n: b.weighted([(5, 1), (1, 0)]) and text() or None for n in names}
    handles = []
    for _ in range(b.weighted([(5, 1), (3, 2), (1, 3)])):
        base = b.weighted([(4, 'r'), (4, 'w'), (3, 'a'), (2, 'x')]) + b.choice(['', '', '+'])
        kind = b.weighted([(4, 't'), (4, 'b'), (1, 'T'), (2, 'raw')])
        spec = dict(name=b.choice(names), mode=base + {'t': '', 'T': 't', 'b': 'b', 'raw': 'b'}[kind], lib='io')
        if kind == 'raw': spec['raw'] = True
        elif b.chance(12): spec['lib'] = 'pyio'
        if 'r' in base and files[spec['name']] is None: files[spec['name']] = text()
        if 'x' in base and b.chance(70): files[spec['name']] = None
        handles.append(spec)
    def use():
        k = b.weighted([(4, 'write'), (4, 'read'), (2, 'line'), (3, 'seek'), (1, 'end'), (2, 'tell'), (1, 'trunc'), (2, 'flush'), (1, 'close'), (1, 'lines')])
        return [k] + ([text()] if k == 'write' else [b.choice([0, 1, 3, 5, 8, 100, -1])] if k == 'read' else [b.choice([0, 0, 1, 2, 5, 40])] if k == 'seek' else [])
    def edit():
        k = b.choice(['rewrite', 'cut', 'append', 'delete', 'replace'])
        return [k, b.choice(names), b.int(0, 9) if k == 'cut' else text()]
    ops = []
    for _ in range(b.int(1, 4)): ops.append(['use', b.int(0, 5), use()])
    ops.append(['store', [0] if b.bool() else [b.int(0, 5)], b.int(0, 2), b.choice(['arg', 'set']), b.choice([None, 0, 2, 5])])
    for _ in range(b.int(0, 4)): ops.append(b.choice([['use', b.int(0, 5), use()], ['edit', edit()]]))
    ops.append(['load', 0])
    for _ in range(b.int(1, 8)):
        k = b.weighted([(6, 'use'), (2, 'edit'), (2, 'store'), (2, 'load')])
        if k == 'use': ops.append(['use', b.int(0, 5), use()])
        elif k == 'edit': ops.append(['edit', edit()])
        elif k == 'load': ops.append(['load', b.int(0, 3)])
        else: ops.append(['store', sorted({b.int(0, 3) for _ in range(b.int(1, 2))}), b.int(0, 2), b.choice(['arg', 'set']), b.choice([None, 0, 2, 5])])
    return dict(files=files, handles=handles, ops=ops)

def cases(tier): return strat()

def run(case, ctx):
    z = ctx.zygote(mods=('vlib', 'ops_files'))
    r = z.call('ops_files', 'history', files=case['files'], handles=case['handles'], ops=case['ops'])
    ctx.label(*{h['mode'] for h in case['handles']}, *{'fmode:%d' % o[2] for o in case['ops'] if o[0] == 'store'}, 'loads:%d' % min(r['loads'], 3), *(['refused'] if r['refused'] else []))
    ctx.nontrivial(r['loads'] > 0 and any(o[0] in ('use', 'edit') for o in case['ops']))
