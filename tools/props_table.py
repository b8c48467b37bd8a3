prop('C01', 'Data graphs survive dumps/loads exactly, at every protocol',
 'Loading what dill wrote for any graph of built-in and standard-library data values gives an equal graph of exactly the same types, with the same sharing and the same cycles between its containers, at every pickle protocol and however the byref and recurse options are set. This includes the values dill adds to what pickle handles: slices, ranges, Ellipsis, NotImplemented, type objects, dictionary views and mapping proxies (which stay views of the same mapping), and values nested inside any of them.',
 ['inputs','configurations'],
 'every finite graph of data values (atoms at every size class, containers, cycles, shared nodes, views), protocols 0-5, byref/recurse on and off',
 'tests round-trip a few dozen sample objects at the default protocol and mostly check the type only (test_objects prints failures); no test varies protocol, sharing, cycles or sizes together',
 [D], [('Pickler.dispatch handlers for dict, slice, range, singletons, views, proxies, types', D), ('Pickler.save', D), ('_load_type/_eval_repr/_create_type', D)],
 observe=['dill.dumps / dill.loads'])

prop('C02', 'A function loaded in another process behaves as the original',
 'A function that dill stores by value (lambda, nested function, function of the main script, generator or async function, function with any parameter kinds, defaults, keyword defaults, annotations, docstring, attributes) gives, when loaded in a fresh interpreter, a function with the same signature and metadata that returns the same results or raises the same errors on every call, at every protocol. With recurse=True this includes everything it reaches through global names.',
 ['programs','configurations'],
 'every function in a generated grammar of function definitions, times protocol and recurse settings, times generated call arguments',
 'tests load a handful of hand-written functions in the same process, where the original globals are still reachable',
 [D,'dill/detect.py'], [('save_function', D), ('_create_function', D), ('globalvars','dill/detect.py')],
 observe=['call results and attributes of the loaded function in a fresh process'])

prop('C03', 'Closures keep shared cells, empty cells and recursion',
 'When a pickled graph contains functions with closures, every closure variable shared by several functions before is one shared variable after loading, distinct variables stay distinct, empty cells stay empty, and self- or mutually-recursive references through cells, containers, instances and classes lead to the loaded objects rather than the originals or copies.',
 ['programs','configurations'],
 'all generated programs of nested functions, shared nonlocal variables, containers and instances referring to each other in cycles; every option setting',
 'the recursion tests cover about ten fixed shapes; which cells are deferred depends on the order in which the graph is met',
 [D], [('save_cell and the postprocessing stack', D), ('_save_with_postproc', D), ('save_function (cell lifting)', D), ('_create_cell', D)],
 state=[dict(name='_postproc', meaning='stack of deferred updates per object under construction', where=D)],
 observe=['identity and later mutation of closure variables'])

prop('C04', 'Code objects are rebuilt field for field',
 'Any code object comes back equal to the original with every field identical, including constants and their types, line and position tables, exception tables, flags, names and nested code. Stored code argument lists in the layouts of older Python versions are accepted and give a code object with the fields they carry.',
 ['programs','inputs'],
 'every code object the compiler produces for generated source (nested, async, comprehensions, try/with, non-ASCII names), all stored layouts',
 'one fixed function is used, and only the absence of an exception is tested',
 [D], [('save_code', D), ('_create_code', D)], observe=['co_* fields of the loaded code object'])

prop('C05', 'Classes stored by value are rebuilt with the same structure and behaviour',
 'A class that dill stores by value comes back with the same name, qualified name, module, bases, metaclass, own attributes and their kinds (methods, class and static methods, properties, slots, descriptors, annotations, docstring, class constants), abstract methods and virtual subclasses; attributes it only inherits are not copied into it and attributes it overrides, even with the same value, are kept. Method resolution, super() and class-cell references work on the rebuilt class.',
 ['programs','configurations'],
 'generated class hierarchies (single, diamond, metaclass, ABC, slots, generic, keyword-taking metaclass) times protocol and recurse',
 'test_classdef has about fifteen fixed classes, most checked only for "pickles without error" in the same process',
 [D], [('save_type', D), ('_get_typedict_type', D), ('_get_typedict_abc', D), ('_create_type', D)],
 observe=['attributes and behaviour of the loaded class in a fresh process'])

prop('C06', 'Instances keep their state, hooks and common class',
 'An instance of a by-value class loads with all its state (attributes, slots at every level, contents inherited from a built-in container), honouring its own pickling hooks exactly as pickle does. All instances of one class in one pickle have one common class after loading, and isinstance relations between loaded objects are the same as between the originals.',
 ['programs','inputs','configurations'],
 'generated classes with every pickling hook (__reduce__, __reduce_ex__, __getstate__/__setstate__, __getnewargs__(_ex), copyreg) and slots/dict/built-in bases, times generated state with sharing and cycles',
 'tests check single attribute-free instances; hooks are touched by one test',
 [D], [('Pickler.save', D), ('save_type', D), ('Unpickler.load', D)])

prop('C07', 'Named tuples, dataclasses and generic types keep their special behaviour',
 'Named-tuple classes (with defaults, nested qualified names, subclasses, typing.NamedTuple), dataclasses (every decorator option, defaults, factories, keyword-only and init-only fields, inheritance) and generic or parametrised types come back with fields, defaults, comparison, construction, repr and parametrisation as in the original, and so do their instances.',
 ['programs','configurations'],
 'generated field lists, defaults and decorator options, generated typing expressions',
 'tests use fewer than ten fixed definitions',
 [D], [('save_type (namedtuple, __orig_bases__)', D), ('_create_namedtuple', D), ('save_generic_alias', D), ('dataclass sentinels', D)])

prop('C08', 'recurse=True stores exactly the globals a function needs',
 'With recurse=True a stored function carries every global object it can reach through names (in itself, in nested code, in functions it refers to), so it runs where none of its original globals exist, and it does not carry global objects that it does not refer to. Loading or calling it never changes the globals of the loading program, nor does storing it change those of the storing program.',
 ['programs'],
 'generated modules with functions that reference each other, constants, modules and built-ins in arbitrary call graphs, including cycles and shadowed names',
 'tests cover four fixed functions with one global each',
 [D,'dill/detect.py'], [('globalvars','dill/detect.py'), ('nestedglobals','dill/detect.py'), ('save_function', D), ('_create_function', D)])

prop('C09', 'Importable objects are stored by reference',
 'Functions, classes, methods, modules and built-ins that can be found by importing their module and following their qualified name load as the very same object and add nothing but the reference to the pickle, also when the defining module is absent the load fails instead of inventing an object. An object that merely carries the name of another is not confused with it: what loads behaves like the object that was stored.',
 ['programs','inputs','configurations'],
 'generated importable packages with nested classes, aliases, re-exports, shadowed and renamed objects; sampled library objects; byref on and off',
 'tests check identity for two or three names only',
 [D], [('_locate_function', D), ('_import_module', D), ('save_module', D), ('_is_builtin_module', D), ('save_classobj', D)])

prop('C10', 'Wrapped callables and descriptors keep what they wrap and how they are set up',
 'Bound methods, partial objects, cached functions (cache size and typed flag), item/attribute/method getters, properties, static and class methods, super objects, slot and method descriptors and method wrappers load with the same wrapped object, arguments and parameters, and act identically when used.',
 ['inputs','programs','configurations'],
 'generated wrapper stacks over generated functions, classes and instances',
 'each kind is tested with one sample, mostly for type equality only',
 [D], [('save_lru_cache, save_instancemethod0, save_super, save_property, save_classmethod, save_wrapper_descriptor', D), ('_getattr', D)])

prop('C11', 'Weak references follow their referent within the pickle',
 'A weak reference or weak proxy whose referent is stored in the same pickle refers, after loading, to that same loaded referent; a dead one loads as a dead one; a callable proxy stays callable.',
 ['inputs','configurations'],
 'generated object graphs with references, proxies, weak containers, live and dead, met before or after the referent',
 'one test, which only checks that no error is raised',
 [D], [('save_weakref, save_weakproxy', D), ('_create_weakref, _create_weakproxy', D), ('_proxy_helper, _locate_object', D)])

prop('C12', 'Locks and synchronisation objects keep their held state',
 'A lock loads in the state it was stored in: locked or not, and for a re-entrant lock held as many times by the same thread; storing one never acquires or releases the original. Synchronisation objects built on locks (events, conditions, semaphores, barriers, queues) load usable and with the same state and content.',
 ['inputs','histories'],
 'generated acquire/release histories over locks and compound objects followed by a copy, then generated operations on the copy against a model',
 'tests copy one locked and one unlocked lock',
 [D], [('save_lock, save_rlock', D), ('_create_lock, _create_rlock', D)])

prop('C13', 'NumPy arrays, dtypes and ufuncs are preserved',
 'NumPy arrays of any dtype, shape and memory order, array subclasses with extra attributes, scalars, dtypes and dtype classes, and ufuncs load with equal content, dtype, shape, order and attributes, alone or inside other objects.',
 ['inputs','configurations'],
 'generated arrays, structured dtypes, subclasses, at all protocols',
 'three fixed arrays are tested',
 [D], [('Pickler.save numpy handlers', D), ('_create_array', D), ('_create_dtypemeta', D)])

prop('C14', 'File handles are restored according to the file mode option',
 'A stored handle of a named file is restored with the name and mode of the original and, depending on fmode, as a fresh handle on the file as it now is (HANDLE_FMODE), with the pickled position limited to the end of the current file and without truncating or losing its content (CONTENTS_FMODE), or with the stored contents and position whatever happened to the file meanwhile (FILE_FMODE). Closed handles load closed, handles keep their kind (text, binary, unbuffered), and storing a handle does not disturb it.',
 ['histories','configurations'],
 'generated histories: open in any mode, write/seek/read, store, then change, truncate, extend or delete the file, then load and use the handle',
 'test_file walks a fixed list of scenarios with text files at the end position',
 [D], [('_save_file', D), ('_create_filehandle', D)])

prop('C15', 'dill is a drop-in replacement for pickle',
 'Everything the standard pickle module round-trips, dill round-trips to the same result with the same hooks run; bytes written by pickle load in dill and give what pickle gives, including protocol-5 out-of-band buffers, persistent ids and the dump/load/Pickler/Unpickler interface with its keyword arguments. Bytes that dill writes for objects needing none of its extensions load with the standard pickle.',
 ['inputs','configurations'],
 'generated picklable graphs with hooks, all protocols and interface variants, dill as writer, as reader and as both',
 'no test compares with pickle',
 [D], [('Pickler/Unpickler subclasses', D), ('save', D), ('find_class', D)])

prop('C16', 'Options mean the same however given, and never leak between calls',
 'dumps, dump, copy and Pickler give the same result for the same object and options; an option left out takes the current value in dill.settings, an option given applies to that call only; consecutive dumps to one stream load back one by one in order. No call changes dill.settings.',
 ['histories','configurations'],
 'generated sequences of setting changes and dump/load calls with and without each keyword, on buffers and files',
 'test_check and test_recursive use options separately; no test mixes settings and keywords over a history',
 [D,'dill/settings.py'], [('dump/dumps/load/loads/copy', D), ('Pickler.__init__, Unpickler.__init__', D), ('settings','dill/settings.py')])

prop('C17', 'Storing and loading do not disturb anything',
 'dumps leaves the stored object, every module namespace, the standard pickle registry, sys.modules, sys.stdout and warning filters as they were, and a second dumps of the same unchanged object gives the same bytes. This also holds after a dumps or loads that fails.',
 ['inputs','histories'],
 'generated objects including unpicklable parts at any depth, repeated and failing dumps',
 'no test compares state before and after',
 [D,'dill/detect.py'], [('save_* handlers copying dictionaries', D), ('globalvars/nestedglobals','dill/detect.py')])

prop('C18', 'Failures are reported, never silent',
 'Storing an object dill cannot store raises an exception rather than writing something else, and loading a pickle that was cut short at any byte raises an exception rather than returning an object. The checking helpers agree with what actually happens: pickles(), errors(), badobjects(), baditems() and badtypes() report an object as bad exactly when copying it fails, gives an object of another type or, if asked for exactness, gives something unequal.',
 ['inputs','crash_points'],
 'generated graphs with unpicklable leaves at any position; every truncation point of generated pickles',
 'tests look at one frame object',
 [D,'dill/detect.py'], [('pickles','dill/_dill.py'), ('baditems, badobjects, badtypes, errors','dill/detect.py')])

prop('C19', 'Extension and registration affect exactly the types concerned',
 'extend(True) lets the standard Python pickler store the types dill adds, extend(False) gives back exactly the standard registry, and any sequence of such calls ends in the state of the last one. A save function registered for a type is used for that type by every dill pickler from then on and for no other type.',
 ['histories'],
 'generated sequences of extend, register and pickle calls interleaved with dumps',
 'one test toggles once',
 [D,'dill/__init__.py'], [('_extend, _revert_extension', D), ('register, pickle', D), ('MetaCatchingDict', D)])

prop('C20', 'The ignore option decides the class of loaded main-script objects',
 'Loading an instance of a class of the main script gives, with ignore=False, an instance of the class of that name currently in the main script if there is a compatible one, and with ignore=True an instance of the stored class; the state is the same either way and other objects are not affected.',
 ['programs','configurations'],
 'generated class versions, compatible and not, present or absent or shadowed by non-classes at load time',
 'not tested',
 [D], [('Unpickler.load', D), ('Unpickler.find_class', D)])

prop('C21', 'Pickles written by the previous release still load',
 'A pickle written by dill 0.4.1 for any supported object loads with this version and gives an object that behaves like the original; so do pickles that use the historical helper names and argument layouts the code documents as kept for compatibility.',
 ['programs','configurations'],
 'generated functions, closures, classes, instances and data dumped by the released 0.4.1 wheel, all protocols',
 'no test loads stored pickles',
 [D,'dill/_shims.py'], [('_create_* constructors kept by name and signature', D), ('Unpickler.find_class renames', D), ('shims', 'dill/_shims.py')])

prop('C22', 'A saved module state is restored completely',
 'After dump_module, load_module restores every name of the saved module with an equal value and the same sharing, whether the module is the main script, an importable module or a run-time module object, in the same process or a fresh one, with refimported on or off; functions of the module again use the module as their globals, and self-references and imported objects refer to the live module and the live imported objects.',
 ['programs','configurations'],
 'generated module namespaces (values, functions, classes, instances, imported objects and aliases, self-references), all module kinds, refimported, changes made between dump and load',
 'test_session saves one fixed namespace',
 ['dill/session.py', D], [('dump_module, load_module','dill/session.py'), ('_stash_modules, _restore_modules, _lookup_module','dill/session.py'), ('save_module, save_module_dict', D)])

prop('C23', 'Session loading validates its target and leaves no traces',
 'load_module refuses, with an error and without changing anything, a target whose name or kind does not match the saved module, and reports unreadable or truncated sessions with an exception; load_module_asdict returns the saved namespace (optionally over the current one) without changing the live module. After any of these, successful or not, sys.modules has the entries it had.',
 ['histories','crash_points','configurations'],
 'generated pairs of saved module and target, streams of every kind (seekable, peekable, neither), truncations at every byte',
 'tests cover the success path on one module',
 ['dill/session.py'], [('_identify_module','dill/session.py'), ('load_module checks','dill/session.py'), ('load_module_asdict','dill/session.py'), ('_make_peekable','dill/session.py')])

prop('C24', 'Session files are never followed through a symbolic link',
 'dump_module, load_module and load_module_asdict given a path never write to or read from a file reached through a symbolic link at that path, even if the link is swapped in at any moment during the call; they raise OSError and leave the link target untouched. A newly created session file is accessible by its owner only, an existing regular file is replaced completely by the new session, and use of the default path is warned about.',
 ['schedules','fault_sequences','configurations'],
 'every point between two file-system calls of the operation at which an attacker may swap, delete or create the path; every umask; every initial state of the path',
 'two tests cover a static link and one race point of the reading side',
 ['dill/session.py'], [('_safe_open_for_writing, _safe_open_for_reading, _check_symlink','dill/session.py'), ('_warn_if_default_path','dill/session.py')])

prop('C25', 'detect reports exactly the names and objects a function uses',
 'For any function, globalvars, referredglobals, nestedglobals, freevars, varnames, nestedcode, code and outermost report exactly the global names it refers to (with their objects, and transitively if asked), the closure variables and their contents, the local and cell variables and the nested code objects that its source defines.',
 ['programs'],
 'generated functions with known name usage, nested to depth 4, with shadowing, deletion, global and nonlocal declarations, comprehensions and recursion',
 'a few fixed functions are tested',
 ['dill/detect.py'], [('globalvars, nestedglobals, freevars, varnames, nestedcode','dill/detect.py')])

prop('C26', 'Tracing never changes the result and is always undone',
 'Dumping with tracing on gives the same bytes as without; every trace record that opens an object is closed in nested order and the sizes reported are the bytes written for it; the trace context manager restores level, handlers and files on every exit, with and without an exception, however nested.',
 ['inputs','histories'],
 'generated objects and generated nestings of trace contexts, redirections and failures',
 'one object is traced in one nesting',
 ['dill/logger.py'], [('TraceAdapter.trace, trace_setup','dill/logger.py'), ('TraceManager','dill/logger.py'), ('TraceFormatter','dill/logger.py')])

prop('C27', 'Extracted source reproduces the object',
 'For functions (also asynchronous and nested ones), lambdas, methods, classes and their instances and code objects defined in a file, findsource, getsourcelines and getsource give the line where the definition with its decorators starts and exactly its lines (comments following it may be included); with lstrip the text means the same at top level. getimport and importable(source=False) give an import which, executed, binds the object itself to its name or alias, also for builtins and the standard library; importable(source=True) of functions without closures or decorators and of classes gives text which, executed on its own, defines an object of the requested name that behaves like the original. outdent undoes indent, and both keep the text otherwise unchanged.',
 ['programs','inputs'],
 'generated source files with functions, decorated functions, nested functions, classes and lambdas at every position; generated text blocks',
 'tests use a few fixed definitions',
 ['dill/source.py'], [('findsource, getblocks, getsourcelines, getsource','dill/source.py'), ('importable, getimport','dill/source.py'), ('indent, outdent','dill/source.py')])

prop('C28', 'Temporary-file storage round-trips and capture always restores',
 'An object stored with dill.temp (as pickle, or, for functions without closures and classes, as source; in a file or in a buffer) loads back equal or behaving the same, from the handle, from its name or from the buffer, as often as wanted; capture collects exactly what is printed to the stream in its block and puts the original stream back on every exit.',
 ['inputs','histories'],
 'generated objects and functions, options alias/prefix/dir/suffix, generated nestings of capture with writes and exceptions',
 'one object each is tested',
 ['dill/temp.py'], [('dump, load, dumpIO, loadIO, dump_source, load_source','dill/temp.py'), ('capture','dill/temp.py')])

prop('C29', 'Change detection reports exactly the changed objects',
 'After memorising an object graph, has_changed answers true for an object exactly if an attribute or item in anything reachable from it (through instances, modules, classes, lists, tuples, dictionaries and sets) was replaced, added or removed since it was memorised, and whats_changed names exactly the attributes through which the change is reached.',
 ['histories'],
 'generated graphs of instances, lists, dictionaries, sets and tuples, with generated edit and re-memorise histories, checked against a model',
 'one chain of three objects is tested',
 ['dill/__diff.py'], [('memorise, whats_changed, has_changed','dill/__diff.py')])

prop('C30', 'Object lookup by address and by reference chain is correct',
 'at(id(x)) is x for any live tracked object; reference(proxy) is the address of the referent; parents and children return a shortest chain of actual references from the object to one of the requested type within the requested depth, or just the object if there is none.',
 ['inputs'],
 'generated reference graphs, depths and types, compared with a breadth-first reference model',
 'one list iterator is tested',
 ['dill/pointers.py', D], [('find_chain, parents, children, parent','dill/pointers.py'), ('_locate_object, _proxy_helper', D)])

prop('C31', 'The type registry holds exactly the requested objects',
 'After any sequence of load_types calls, dill.objects and dill.types hold exactly the entries for the last request, each type being the type of its object, and every object registered as picklable copies to an object of the same type.',
 ['histories','configurations'],
 'generated sequences of load_types calls; every registry entry at every protocol',
 'the registry test prints failures without failing',
 ['dill/__init__.py','dill/_objects.py','dill/objtypes.py'], [('load_types','dill/__init__.py'), ('registries','dill/_objects.py')])

prop('C32', 'Concurrent use from several threads is independent',
 'Threads that store, load, copy and check their own objects and save and load their own modules at the same time, with their own options, each get the result they would get alone, and the settings and warning filters of the process are afterwards as they were.',
 ['schedules','inputs'],
 'generated per-thread workloads, many repetitions with a small thread switch interval',
 'no test uses more than one thread',
 [D], [('per-pickler state', D), ('warnings and stdout handling', 'dill/detect.py')])
