#!/opt/veriftools/pyvenv/bin/python
"""Writes DESIGN.md: hand-written parts below, and what every check generates and assumes from props/cNN.py (so that the text cannot drift from the code)."""
import sys, os, json, importlib, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True; sys.path[:0] = [HERE, HERE + '/lib']

HEAD = '''# Deciding dill's properties by property-based testing

(Written by tools/mkdesign.py; the "generated" and "assumed" parts are the RULE and ASSUMPTIONS texts of props/cNN.py, which also go into the evidence.)

## 1. Shape of every check

* `check.py <ID> quick|thorough` is a Hypothesis driver (python3-vt).  It never imports dill.  It splits the work over 8 shard
  processes, each seeded from (VERIF_SEED, id, shard), `database=None`, `deadline=None`.  The quick tier ends at the case count or after
  240 s (unloaded: 10-45 s), the thorough tier after 800 s or ten to forty times as many cases.
* A generated *case* is plain data: Python source text for the program or object graph, options (protocol, byref, recurse, fmode, ignore, ...)
  and steps (histories).  It is executed by a *zygote* (lib/zygote.py), an `/opt/venv/bin/python` process that has imported dill from
  /repo's working tree (VERIF_REPO overrides this for development) and forks one pristine child per step.  The child that dumps and the child
  that loads are different processes, so what the loaded object needs must be in the pickle; "same" cases load in the dumping process.
* The oracle of the round-trip properties is `vdesc.describe()`, a canonical description of an object graph written independently of dill:
  types, contents, order, sharing and cycles (by first visit numbers), anatomy of functions, code, cells, classes, descriptors, locks, weak
  references; plus *probes* - calls and mutations performed on the original in one process and on the copy in another - ; elsewhere reference
  models (sections below), the symbol table and syntax tree made by the compiler, plain `pickle`, `copy.deepcopy`, file operations, and the
  released dill 0.4.1 wheel as differential partners.
* A failing case is shrunk by Hypothesis; the shrunk case is the replay file (evidence/replay/), `check.py <ID> --replay FILE` runs it
  without Hypothesis.
* Each known finding is one enumerated case of its check with a key of known_findings.json; random generation leaves this pattern out, so
  any other violation is still reported.
* Errors of the harness exit with 2, never with a VIOLATION line.  A case outside of the domain (dill announces that it cannot store it, an
  operation whose result is not defined) is a `Skip`, counted in the evidence.
* Evidence reports generated, non-trivial (by the stated rule) and skipped cases, the histogram of labels, and samples.
* No hooks in /repo: everything is observed through the public interface, and internals only where the property is about them (the registries in C17, the dispatch tables in C19).
* Containment: every child has its own scratch folder; C24's "other user" acts only within it; nothing is run as another user or outside.

Why this reaches what the test suite cannot: the suite samples one or two objects per feature at the default protocol, mostly in one process.
Almost every defect repaired here (section 4) needs a *combination*: protocol below 2, recurse with a class in a closure, sharing across the
by-value boundary, a second dump, a failure in the middle, a stream that cannot seek, a name rebound between saving and loading.
What limits it: it is a search, so absence of a failure is evidence and not a proof; the schedules of C32 are sampled.
Crash points (C18: truncation; C24: every file-system event) are enumerated per case rather than sampled.
AFL/libFuzzer/atheris were considered for byte-level fuzzing of `loads`; pickle makes no promise for arbitrary bytes (it executes them), so
the only sound oracle is for prefixes (C18) and for the documented historical helper calls (C21), and these are generated structurally.

## 2. Properties
'''

# oracle; why the tests cannot settle it; what was excluded in addition to the assumptions
N = {
 'C01': ('description of the graph before = after, in the same or another process', 'str/float subclasses with odd __str__, StringIO and datetime fold need newer protocols, so they are generated there only; weakref/typing-alias identity is not compared; a plain dict equal to __main__.__dict__ is outside of the domain'),
 'C02': ('description of the function (code, defaults, annotations, metadata, closure, globals used) and the results, exceptions and effects on arguments of generated calls in a fresh process', 'helpers that dill announces with PicklingWarning as impossible recursion'),
 'C03': ('description of the whole graph of cells; then a generated sequence of setter/getter calls on original and copy must agree step by step (shared cells stay shared, separate ones separate)', ''),
 'C04': ('field by field comparison of code objects, for older layouts a model of the argument order of each Python version', ''),
 'C05': ('description of class anatomy (bases, metaclass, MRO, slots, namespace order, descriptors) and generated behaviour; sharing of one class between several objects', 'enumerations by value, non-idempotent metaclasses, re-run of __set_name__, surrogates in docstrings, renamed classes with private slots, __isabstractmethod__ set later'),
 'C06': ('differential: copy.deepcopy runs the same hooks (__reduce_ex__, __getstate__, copyreg) in another implementation; matrix of isinstance relations', 'instances of registered classes whose registration Python leaves out as redundant; weakly registered classes that are not in the graph; __getnewargs__ and slots need protocol 2; KNOWN FINDING reentrant-list'),
 'C07': ('description and generated uses (construction, repr, comparison, replace, asdict, get_args, errors) before = after', 'string annotations in dataclasses at protocols 0-1; dataclass instances with unset slots'),
 'C08': ('model of reachability from names (written over the generator\'s program, not over code objects); markers found in the bytes; run where all names are decoys', 'functions that run longer than 8 s'),
 'C09': ('identity with the object found by its name in the loading process; failure or by-value in the process without the modules', ''),
 'C10': ('description of wrapper parameters and generated uses of each wrapper', 'property subclasses (TypeError), typed flag of a cache over a cache'),
 'C11': ('model of liveness: after each strong reference is dropped, original and copy must agree on which weak objects are dead', 'KNOWN FINDING proxy-untracked'),
 'C12': ('operations on original and copy give the same results and final states (differential history)', ''),
 'C13': ('dtype, shape, bytes, attributes and type, and results of ufuncs; pickle is the partner for what dill leaves to NumPy', 'non-native byte order inside hard-masked arrays, padding bytes'),
 'C14': ('the same history in a second folder with plain file operations that do what the documented file mode promises', 'closed "w" handles with HANDLE_FMODE truncate the file at load (recorded as a rough spot)'),
 'C15': ('differential with pickle in all four combinations of writer and reader, logs of the hooks that ran', 'copyreg reducers for types dill handles itself; fix_imports/buffer_callback by position'),
 'C16': ('every result = dumps in another process with pristine settings and all options explicit; settings and leak check after each step', ''),
 'C17': ('whole-process snapshot before/after; both dumps the same bytes or the same error', 'padding bytes of NumPy arrays, objects of the harness itself'),
 'C18': ('each prefix must raise; dumps/loads raises or gives the same type; the documented helpers agree with what dill.copy does', 'dict iterators become list iterators; raising properties with depth; exact comparison of recursive objects'),
 'C19': ('model of which types are affected by a registration, dispatch of stock pickle unchanged', ''),
 'C20': ('table of ignore/found/compatible over "the class in the loading main" against the class in the pickle', 'compatible = what assignment to __class__ accepts'),
 'C21': ('differential with the released 0.4.1 wheel: same description of what both load', 'numpy.random objects'),
 'C22': ('joint description of all names before saving = after loading, identity by name for imported objects, behaviour of functions', 'dataclasses in run-time modules'),
 'C23': ('model of the pool of modules: success/kind of failure, frame condition on all live modules and sys.modules', 'pickle\'s need for full reads from raw streams; module names above about 190 characters'),
 'C24': ('file states, errors, modes and warnings stated as a model; exhaustive over events for a single action', ''),
 'C25': ('symbol table of the compiler (symtable) and a model of transitive use', 'constant conditions; comprehension variables that clash with closure variables (a CPython 3.12 bug)'),
 'C26': ('bytes of the untraced dump; grammar of the record lines; state of the logger', 'bytes after dill.copy in between (string interning)'),
 'C27': ('syntax tree of the file (ast); execution of the imports and of the source', 'enclosing=True (documented heuristics with FIXME)'),
 'C28': ('dill.loads of dill.dumps; file system model; model of nested captures', 'the stale `text` option'),
 'C29': ('snapshots taken by the model and reachability over them', ''),
 'C30': ('gc.get_referrers/get_referents as ground truth for links, breadth-first search for the shortest chain', 'untracked objects'),
 'C31': ('set comparison with dill._objects after every history; type of the copy', ''),
 'C32': ('differential: every operation alone before, threads forced to meet in the middle of operations', '`pickles()` still uses catch_warnings in its comparison path'),
}

FALSE = '''## 5. False alarms met, and how they were removed

Each was an error of the check (too strong a statement, harness effect, or an ill-defined case); none is listed as a finding.

* vdesc: "dead" in the hexadecimal address of a proxy (C11); identity of shared empty tuples and of atoms (C22, C29); copies of edited sets iterate in another order (C29).
* Harness objects in the picture: own threads' identities reused (C12), codec imports and NumPy's lazy set-up (C17), items of the harness (C18), a module called `rt` (C22), frozen objects and untracked containers seen by gc (C30), dataclasses executing outside of sys.modules (C32).
* Models too strong: flushing order and names of descriptors in the mirror (C14), duplicates of one handle in one store (C14), equality of file modes (C24), names of wrappers and of builtins (C25), the level after switching inside of a dump and the same file in a nested redirection (C26), trailing comments belong to the block (C27), math.pi is a value and not an importable object (C27), BytesIO-like types at protocol 0 (C31), reduce hooks may change classes (C06: relations are now compared with the result of deepcopy), redundant ABC registrations (C06).
* Generators outside of the domain: `__annotations__`/`__doc__` in live modules (C23), imported names that the program rebinds later (C22, C23), run-time modules in sys.modules used by checks that load elsewhere (C05, C22; now generated by C01 only), padding bytes in arrays at protocols below 3, where bytes are stored as text of another length (C17).

## 6. Limits and rough spots of dill that are not claimed

Documented or deliberate: `_getattr` evaluates a repr; `check()` splits its command at spaces; storing a function may import the module named by its `__module__`;
`diff` deletes `builtins._`; `release_gone` releases nothing; `use_diff` is dead code; user modules outside of the installation are stored with state; importable named tuples are stored with their fields;
class keywords and `__init_subclass__` arguments are lost; recursion through globals without recurse is announced with a PicklingWarning.
'''

MISSED = {'b08': 'generated histories hold locks 10 and more times', 'b10': 'values equal but not identical', 'b18': 'explicit values equal to the default', 'b24': 'metaclasses with __eq__', 'b25': 'copies of module namespaces',
  'b36': 'lines indented less than the first', 'd06': 'long names of run-time modules', 'd09': 'tuple subclasses with single named-tuple attributes', 'd20': 'edit "rekey"', 'b61': 'filed under the wrong property at first', 'b62': 'filed under the wrong property at first'}
try:
    from design_extra import MISSED as M2; MISSED.update(M2)
except ImportError: pass

def main():
    out = [HEAD]
    props = {}
    for l in open(HERE + '/properties.jsonl'):
        d = json.loads(l); props[d['id']] = d
    seeds = {}
    for f in sorted(glob.glob(HERE + '/seeded/*/meta.json')):
        m = json.load(open(f)); m['id'] = f.split('/')[-2]; seeds.setdefault(m['property'], []).append(m)
    kf = json.load(open(HERE + '/known_findings.json'))
    for i in sorted(props):
        p = props[i]; m = importlib.import_module('props.' + i.lower()); o, ex = N[i]
        out.append('### %s  %s\n' % (i, p['title']))
        out.append('*Generated.* %s\n' % m.RULE)
        out.append('*Oracle.* %s.\n' % (o[0].upper() + o[1:]))
        if m.ASSUMPTIONS or ex: out.append('*Domain.* %s.\n' % '; '.join([a for a in m.ASSUMPTIONS] + ([ex] if ex else [])))
        b = m.BUDGET
        out.append('*Cost.* quick %s cases (at most %s s), thorough %s cases (at most %s s).  Planted: %s.\n' % (b['quick']['cases'], b['quick']['seconds'], b['thorough']['cases'], b['thorough']['seconds'], ', '.join(x['id'] for x in seeds.get(i, [])) or 'none kept'))
    out.append('## 3. Planted bugs\n\nEvery change in seeded/ passes the stable tests and breaks its demonstration; all are caught by the check of their property (last column: what had to be added to the check after it missed the change at first).\nbad dirs (demonstration not specific, equal behaviour, or lines not of the original) were deleted.\n'.replace('bad dirs', 'Others'))
    out.append('| id | property | what it breaks | added |\n|---|---|---|---|')
    for i in sorted(seeds):
        for x in seeds[i]: out.append('| %s | %s | %s | %s |' % (x['id'], i, x['what_it_breaks'].replace('|', '/').replace('\n', ' '), MISSED.get(x['id'], '')))
    out.append('\n## 4. Genuine defects found\n\nRecorded, not repaired (known_findings.json):\n')
    for f in kf['findings']: out.append('* %s `%s`: %s' % (f['property'], f['key'], f['what']))
    out.append('\nRepaired in /repo, one commit each:\n')
    for f in kf['fixed']: out.append('* ' + (f if isinstance(f, str) else '%s %s: %s' % (f.get('property'), f.get('commit'), f.get('what') or f.get('what failed'))))
    out.append(''); out.append(FALSE)
    open(HERE + '/DESIGN.md', 'w').write('\n'.join(out))
main()
