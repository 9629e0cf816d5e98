# executed by registry.py
REPLAY = ('explicit TLA+ specification; TLC enumerates its small instances and checks its laws, the '
          'results are replayed in the code, and recorded calls of the code are judged by TLC')
NOTE = ('Exhaustive within the stated small instances, sampled (VERIF_SEED) beyond them; trusts TLC, the '
        'python runtime and the value encoding of the driver.')
EXAMPLES = 'the tests try a handful of chosen inputs; this quantifies over all of them'

# -- elements ---------------------------------------------------------------
prop('E01', 'Setting or combining a value at a path changes exactly that place',
     '''Overriding a value at a path gives an element in which that path holds the new value (or, when
     combining, the old mapping updated with or the old sequence followed by the new one), missing
     intermediate containers are created as mappings, an index may count from the end or append one past
     the end, and everything else is unchanged. A path that runs into a value without such a place raises
     a path error naming the container at fault.''',
     ['inputs'], 'all elements (any depth, any mapping or sequence type), all paths, all new values', EXAMPLES,
     ['marsh/element.py', 'marsh/path.py'],
     [('element.override', 'marsh/element.py override'), ('path errors', 'marsh/errors.py')], REPLAY, NOTE,
     ['marsh.element.override'])
prop('E02', 'Removing a path removes exactly that item',
     '''Removing a path from an element gives an element without that key or item, in which later items of
     the same sequence have moved up and nothing else changed. A path that does not exist raises a path
     error naming the container at fault.''',
     ['inputs'], 'all elements, all non-empty paths', EXAMPLES, ['marsh/element.py'],
     [('element.remove', 'marsh/element.py remove')], REPLAY, NOTE, ['marsh.element.remove'])
prop('E03', 'Merging elements: later ones win, mappings merge recursively',
     '''Merging any number of elements gives one in which mappings are merged key by key at every depth, any
     other value of a later element replaces the earlier one unless it is a missing value, and sequences are
     concatenated instead if asked for. Keys keep the position at which they first appear.''',
     ['inputs'], 'all lists of elements, of any container types, with and without concatenation', EXAMPLES,
     ['marsh/element.py'], [('element.merge', 'marsh/element.py merge, _merge')], REPLAY, NOTE,
     ['marsh.element.merge'])
prop('E04', 'Selecting, detecting missing values and standardizing agree with the element',
     '''Selecting a path gives the value found by following its fields through mapping keys and sequence
     indices (negative ones from the end), every step on the way is reported with the path walked and the
     path left, and a path that does not exist raises a path error naming the container at fault. An element
     has missing values exactly if a marker occurs anywhere in it; standardizing changes nothing but the
     container types.''',
     ['inputs'], 'all elements and paths', EXAMPLES, ['marsh/element.py'],
     [('element.select/iterative_select', 'marsh/element.py'), ('has_missing', 'marsh/element.py'),
      ('standardize', 'marsh/element.py')], REPLAY, NOTE,
     ['marsh.element.select', 'marsh.element.iterative_select', 'marsh.element.has_missing',
      'marsh.element.standardize'])
prop('E05', 'Edits never change the elements they start from',
     '''No select, override, combine, remove, merge, standardize, resolve, override command or unmarshal changes
     an element that existed before, whichever containers the elements share and however many edits follow.
     Every element of a history keeps the value it had when it was created.''',
     ['histories'], 'all histories of edits over elements that share parts',
     'the tests look at the result of single edits, aliasing between the elements of a history is never examined',
     ['marsh/element.py', 'marsh/parse.py'],
     [('copying on every edit', 'marsh/element.py override, remove, merge')],
     'TLA+ state machine of editing histories; TLC enumerates all short histories which are replayed, recorded '
     'histories are judged by TLC after every edit', NOTE, ['marsh.element.*', 'marsh.parse.override'])
# -- texts --------------------------------------------------------------------
prop('T01', 'Paths as text: joining and splitting are inverse for all fields',
     '''Any list of non-empty fields, whatever characters they contain, joined or built up by prepending and
     appending gives a text that splits into exactly these fields, and head and tail split it at its ends. A
     field may be quoted or its characters escaped, empty fields are skipped, and a text with an unclosed
     quote or a dangling backslash raises a path error.''',
     ['inputs'], 'all lists of fields, all texts, all single character delimiters', EXAMPLES, ['marsh/path.py'],
     [('iterative_split', 'marsh/path.py'), ('escape_field/join_fields', 'marsh/path.py')], REPLAY, NOTE,
     ['marsh.path.*'])
prop('T02', 'Every text is either read as the element it denotes or a parse error',
     '''Any text given as an element denotes one value by the documented grammar (nested mappings and sequences,
     quoted and escaped strings, numbers read exactly, booleans and null, whitespace between items ignored) and
     reading it gives that value, or it denotes none and raises a parse error. Reading never fails in another
     way, never hangs and never ignores a part of the text.''',
     ['inputs'], 'all texts', EXAMPLES, ['marsh/parse.py'],
     [('element/sequence/mapping/terminal/string', 'marsh/parse.py'), ('parsing context', 'marsh/parse.py parsing')],
     REPLAY, NOTE, ['marsh.parse.element', 'marsh.parse.config_names'])
prop('T03', 'Every element can be written as text and is read back unchanged',
     '''For every element made of mappings with string keys, sequences, strings, finite numbers, booleans and null,
     quoting and escaping as documented gives a text that is read back as an equal element, whatever delimiters,
     quotes or whitespace the strings contain.''',
     ['inputs'], 'all elements and all ways of quoting, escaping and spacing them', EXAMPLES, ['marsh/parse.py'],
     [('string escapes and quotes', 'marsh/parse.py string'), ('terminal', 'marsh/parse.py')], REPLAY, NOTE,
     ['marsh.parse.element'])
prop('T04', 'Override commands do what their text says, in the order given',
     '''Every override text is read as a deletion, an assignment or a combination of a value or of named configs at
     a path, or is a parse error. A list of overrides is applied from left to right, each to the result of those
     before it, and the first that fails stops with its error.''',
     ['inputs', 'histories'], 'all override texts and all lists of them over all elements', EXAMPLES,
     ['marsh/parse.py', 'marsh/element.py', 'marsh/entry_point.py'],
     [('parse.override', 'marsh/parse.py'), ('SetValue/SetConfig/DeleteValue', 'marsh/parse.py'), ('load', 'marsh/config.py')], REPLAY, NOTE,
     ['marsh.parse.override', 'marsh.parse.override(...).apply'])
# -- unmarshaling -----------------------------------------------------------------
prop('U01', 'Casts between primitives never lose information',
     '''Unmarshaling a primitive to bool, int, float or str (or a subclass) gives the value of that type that the
     input denotes: numbers in text are read exactly (those with a point or an exponent as floats), floats become ints only if integral, and only the documented
     words and the numbers 0 and 1 are booleans. Every other input is rejected with an unmarshal error, and literals
     and enums accept exactly the inputs that denote one of their values or names.''',
     ['inputs'], 'all primitives and all primitive target types', EXAMPLES,
     ['marsh/utils.py', 'marsh/schema/types/primitive.py', 'marsh/schema/types/literal.py',
      'marsh/schema/types/enum.py', 'marsh/schema/types/bytes.py'],
     [('cast_primitive', 'marsh/utils.py'), ('cast_literal', 'marsh/utils.py')], REPLAY, NOTE,
     ['marsh.unmarshal', 'marsh.utils.cast_primitive', 'marsh.utils.cast_literal'])
prop('U02', 'A union takes the first alternative that accepts the value, as declared',
     '''Unmarshaling to a union (optional types, enums and literals included) gives the result of the first declared
     alternative that accepts the element, and fails only if every alternative does. The outcome depends on the order
     in which the alternatives are declared and on nothing else.''',
     ['inputs', 'histories'], 'all unions of supported types, nested in any type, and all elements', EXAMPLES,
     ['marsh/schema/template/union.py', 'marsh/schema/types/union.py', 'marsh/schema/core/unmarshal.py'],
     [('UnionUnmarshalSchema', 'marsh/schema/template/union.py')], REPLAY, NOTE, ['marsh.unmarshal'])
prop('U03', 'Structured types get exactly their fields, by name or position',
     '''Unmarshaling to a dataclass, named tuple, typed dict or fixed-size tuple fills every field from the mapping key or
     sequence position that belongs to it, uses the declared default if there is no value, and fails for a field that has
     neither. Unknown keys and surplus items are rejected.''',
     ['inputs', 'programs'], 'all field layouts (defaults, factories, init-only and optional fields) and all elements',
     EXAMPLES,
     ['marsh/schema/template/structured.py', 'marsh/schema/types/dataclass.py', 'marsh/schema/types/namedtuple.py',
      'marsh/schema/types/typeddict.py', 'marsh/schema/types/tuple.py'],
     [('StructuredUnmarshalSchema', 'marsh/schema/template/structured.py')], REPLAY, NOTE, ['marsh.unmarshal'])
prop('U04', 'Callables are called with the arguments python itself would bind',
     '''Casting a callable or unmarshaling its arguments binds call-site arguments, the element and declared defaults to the
     parameters of its signature, with call-site values taking part positionally and by keyword exactly as in a python
     call and the element overriding defaults. The callable is invoked once with precisely these arguments or, if they
     can not be bound, not at all.''',
     ['inputs', 'programs'], '''all signatures (positional-only, normal, variadic and keyword-only parameters with and
     without defaults), all call-site arguments and all elements''', EXAMPLES,
     ['marsh/schema/template/callable.py', 'marsh/schema/template/structured.py', 'marsh/schema/argument.py',
      'marsh/_functional.py'],
     [('CallableUnmarshalSchema', 'marsh/schema/template/callable.py'), ('cast/cast_args', 'marsh/_functional.py')],
     REPLAY, NOTE, ['marsh.cast', 'marsh.cast_args', 'marsh.unmarshal_args'])
prop('U05', 'Containers are unmarshaled item by item into the requested type',
     '''Unmarshaling to a mapping, sequence, set or default dict type unmarshals every key and item on its own to the declared
     types, keeps their order and number, and builds the requested container type. Elements of another kind are
     rejected.''',
     ['inputs'], 'all container types over supported item types and all elements', EXAMPLES,
     ['marsh/schema/template/mapping.py', 'marsh/schema/template/sequence.py', 'marsh/schema/types/set.py',
      'marsh/schema/types/defaultdict.py'],
     [('Mapping/SequenceUnmarshalSchema', 'marsh/schema/template')], REPLAY, NOTE, ['marsh.unmarshal'])
prop('U06', 'Annotations run in order, before and after unmarshaling, exactly once',
     '''An annotated type applies its pre-annotations to the element in declared order, unmarshals the result, and then applies
     its annotations to the value in declared order, each exactly once, at every place the type occurs. If one of them
     fails the outcome is an unmarshal error at the path of the value.''',
     ['inputs', 'programs'], 'all stacks of annotations on all supported types in all positions', EXAMPLES,
     ['marsh/schema/types/annotated.py', 'marsh/annotation.py'],
     [('AnnotatedUnmarshalSchema', 'marsh/schema/types/annotated.py')], REPLAY, NOTE, ['marsh.unmarshal'])
prop('U07', 'Recursive and forward-referenced types unmarshal like their expansion',
     '''A type that refers to itself or to other types, directly, mutually or through names that are resolved later,
     unmarshals every element as its unrolled definition would, to any depth. This holds whichever of the types was
     used first.''',
     ['inputs', 'programs', 'histories'], 'all systems of mutually recursive types, all elements, all orders of use', EXAMPLES,
     ['marsh/schema/core/unmarshal.py'],
     [('RecursiveReferenceUnmarshalSchema', 'marsh/schema/core/unmarshal.py'), ('resolve_forward_ref',
       'marsh/schema/core/unmarshal.py')], REPLAY, NOTE, ['marsh.unmarshal'])
prop('U08', 'Unmarshaling fails only with unmarshal errors that locate the fault',
     '''For every supported type and every element unmarshaling ends with a value or an unmarshal error, never with another
     exception (of a constructor that raises itself aside) and never without an end. The path of the error leads through
     the element to the value at fault, by its keys, indices and field names.''',
     ['inputs', 'programs'], 'all supported types and all elements', EXAMPLES,
     ['marsh/errors.py', 'marsh/schema'],
     [('errors.prepend', 'marsh/errors.py')], REPLAY, NOTE, ['marsh.unmarshal', 'UnmarshalError.path'])
prop('U09', 'Missing values never get through',
     '''If a value is missing, because it is absent or explicitly marked, the declared default takes its place or a missing value
     error that locates it is raised (an unmarshal error where several alternatives are tried). No value produced for a type contains the marker, at any depth.''',
     ['inputs', 'programs'], 'all types with and without defaults; missing values at every place of every element', EXAMPLES,
     ['marsh/schema', 'marsh/element.py'], [('is_missing handling of every schema', 'marsh/schema')], REPLAY, NOTE,
     ['marsh.unmarshal'])
prop('U10', 'Marshaling a value and unmarshaling it again gives the value back',
     '''Marshaling any value of a supported type gives an element made of JSON-like values only, and unmarshaling this element
     to the type of the value gives an equal value of the same type. This also holds after the element is
     written to and read from a config file or passed as text.''',
     ['inputs', 'programs'], 'all values of all round-trippable supported types, nested in each other', EXAMPLES,
     ['marsh/schema/types', 'marsh/_functional.py', 'marsh/config.py'],
     [('marshal schemas', 'marsh/schema/types')], REPLAY, NOTE, ['marsh.marshal', 'marsh.unmarshal'])
prop('U11', 'Outcomes do not depend on what was unmarshaled before',
     '''What unmarshaling an element to a type gives depends on the type, the element and the registered schemas alone: not on the
     types used before, in which order, how often, or in how many other types they occur. In particular types that
     compare equal without being the same (or differ only in the order of their parts) are kept apart.''',
     ['histories', 'programs'], 'all histories of uses of types, within the bound on their number',
     'every test starts from whatever state the tests before left; no two orders are ever compared',
     ['marsh/schema/core/unmarshal.py', 'marsh/utils.py'],
     [('schema caches', 'marsh/schema/core/unmarshal.py UnmarshalSchemaMeta'), ('caches of typing itself', 'typing module')],
     'TLA+ state machine of uses; TLC enumerates the histories, each is replayed in a fresh process and compared with the '
     'history-free specification', NOTE, ['marsh.unmarshal'])
prop('U12', 'Concurrent unmarshaling gives the results of sequential unmarshaling',
     '''Any number of threads that unmarshal, for the first time or again, the same or overlapping types get the results each would
     get alone, in every interleaving. No thread sees another one's work in progress.''',
     ['schedules'], 'all interleavings of two threads at line granularity within a bound on preemptions',
     'no test uses threads', ['marsh/schema/core/unmarshal.py', 'marsh/utils.py'],
     [('locks of the schema caches', 'marsh/schema/core/unmarshal.py')],
     'TLA+ specification of concurrent calls; a controlled scheduler drives the code through TLC-enumerated preemption plans',
     NOTE, ['marsh.unmarshal'])
prop('U13', 'Defaults and results are fresh: no result shares state with another',
     '''A container made for one result is never part of another result, of the element or of a declared default, so changing one never
     shows in a later outcome; only where a type hands out the element as it is (`Any`) is it shared. Declared default
     factories are called anew for every value they supply. Neither unmarshaling nor marshaling changes what it is given,
     and a marshaled element shares nothing with the value.''',
     ['histories', 'programs'], 'all types with mutable parts or default factories, all histories of results being changed',
     'tests unmarshal once per type and never change a result', ['marsh/schema'],
     [('construction per call', 'marsh/schema/template')],
     'TLA+ state machine of results and changes to them, replayed', NOTE, ['marsh.unmarshal'])
# -- registries -------------------------------------------------------------------
prop('R01', 'The schema with the highest priority is the one used',
     '''Among the registered schemas that match a type the one with the highest priority is used: by number, by relative position if
     given, and the newest among equals. Registering, in any order, is effective at once and for every type, used
     before or not; contradictory relative priorities are rejected and change nothing.''',
     ['histories', 'configurations'], 'all histories of registrations with absolute and relative priorities, and all lookups between',
     EXAMPLES, ['marsh/utils.py', 'marsh/schema/core/base.py', 'marsh/schema/_functional.py'],
     [('PriorityOrder', 'marsh/utils.py'), ('SchemaRegistry', 'marsh/schema/core/base.py')],
     'TLA+ state machine of registrations; TLC enumerates histories and checks the laws of the order; they are replayed', NOTE,
     ['marsh.schema.register', 'marsh.utils.PriorityOrder'])
prop('R02', 'Namespaces: each name stands for the component registered last for it',
     '''A component registered in a namespace is selected by its name and by nothing else, with its own arguments, and an unknown name is an
     unmarshal error. Registering, replacing and removing names is effective at once, and marshaled components carry
     the name under which they are found again.''',
     ['histories', 'configurations'], 'all histories of registering and removing over several namespaces, and all uses between', EXAMPLES,
     ['marsh/schema/namespace.py', 'marsh/schema/types/namespace.py'],
     [('Namespace.register', 'marsh/schema/namespace.py'), ('NamespaceUnmarshalSchema', 'marsh/schema/types/namespace.py')],
     'TLA+ state machine of namespaces; enumerated by TLC and replayed', NOTE, ['marsh.namespaces'])
# -- entry point and configuration ----------------------------------------------------------
prop('C01', 'An entry point runs with defaults < call-site < configs and overrides',
     '''A program started through its entry point is called exactly once, with arguments in which overrides and configs of the command line
     take precedence, in the order given, over arguments of the call site and these over declared defaults. If
     the command line can not be unmarshaled the program is not called and the process exits with a non-zero status.''',
     ['inputs', 'configurations'], 'all signatures, call-site arguments, command lines and config files', EXAMPLES,
     ['marsh/entry_point.py', 'marsh/_functional.py'],
     [('EntryPoint', 'marsh/entry_point.py')], REPLAY, NOTE, ['marsh.main', 'exit status'])
prop('C02', 'Working directories, outputs and hooks of an entry point survive failures',
     '''However a run ends, by an error at any step or in the program itself, the process is back in its original working directory if it
     was told to run in another, and errors end in a non-zero status without a call of the program. If the program is called, the config it
     is called with is written where it was asked to be, resolved and below the output directory. Asking for help never calls the program nor touches files.''',
     ['fault_sequences', 'configurations'], 'all combinations of entry point options with failures at every step', EXAMPLES,
     ['marsh/entry_point.py', 'marsh/config.py'],
     [('run', 'marsh/entry_point.py')], 'TLA+ specification of a run as a sequence of steps that may fail; all runs replayed', NOTE,
     ['marsh.main', 'file system', 'exit status'])
prop('C03', 'Config files are found, layered and written as their names say',
     '''A config name stands for the one file of that name in its directory (absolute, or relative to the root asked for or to the working
     directory), whatever its supported extension, and for an error if there is not exactly one. Loading gives the element in the
     file, or those of all files named merged in order, with its interpolations resolved and without its metadata unless asked otherwise.
     Writing a config and loading it gives the element back, and a config tree shows exactly the configs that can be loaded.''',
     ['inputs', 'configurations'], 'all arrangements of config files and directories, all names, all elements', EXAMPLES,
     ['marsh/config.py'], [('find_config/load/write/tree', 'marsh/config.py')], REPLAY, NOTE, ['marsh.config.*'])
# -- utilities ---------------------------------------------------------------------------------
prop('L01', 'Cached functions behave as the functions they cache',
     '''Calling a cached function gives what the function would give for these arguments, computed at most once per distinct arguments while they
     are cached, keeping arguments apart that differ (in value or, if asked for, in type). Sizes and hit counts reported
     are true, the least recently used entry is the one evicted, and clearing forgets everything.''',
     ['histories', 'inputs'], 'all histories of calls, clears and pool operations', EXAMPLES, ['marsh/utils.py'],
     [('cache', 'marsh/utils.py'), ('CachePool', 'marsh/utils.py')], 'TLA+ state machine of caches; enumerated and replayed', NOTE,
     ['marsh.utils.cache', 'marsh.utils.CachePool'])
prop('L02', 'Value caches and safe dictionaries behave as ordered dictionaries',
     '''Dictionaries that accept any key and value caches give back, for every history of insertions, lookups, deletions,
     clearing and iterations, what an ordered dictionary over equal keys would, unhashable keys included. A value cache keeps
     keys of different types apart if asked for, counts hits and misses truly, and stores and finds nothing while disabled.
     A pool clears, disables and enables every cache named in it, and a weak type cache lists the types added, latest first, while they are alive.''',
     ['histories'], 'all histories of calls over keys of every kind', EXAMPLES, ['marsh/utils.py'],
     [('SafeDict', 'marsh/utils.py'), ('ValueCache', 'marsh/utils.py'), ('CachePool', 'marsh/utils.py'), ('WeakTypeCache', 'marsh/utils.py')], REPLAY, NOTE,
     ['marsh.utils.SafeDict', 'marsh.utils.ValueCache', 'marsh.utils.CachePool', 'marsh.utils.WeakTypeCache'])
prop('L03', 'A shared iterator gives every consumer all items in order',
     '''Any number of iterations over an iterable made from one iterator, started at any time and interleaved in any way, each give all items of the
     iterator in order and each item is drawn from it once.''',
     ['schedules', 'histories'], 'all interleavings of iterations', EXAMPLES, ['marsh/utils.py'],
     [('IterableFromIterator', 'marsh/utils.py')], 'TLA+ state machine; all interleavings enumerated and replayed', NOTE,
     ['marsh.utils.IterableFromIterator'])
# -- documentation -----------------------------------------------------------------------------------
prop('D01', 'Help describes exactly the parameters that can be set',
     '''The documentation of a type lists, down to the depth asked for and in declared order, every named field of the structures it is made of and
     every component it may be, with the default a field has (call-site values included), and nothing else. Asking for the documentation of a path,
     also with --help PATH, gives that of the type at the path or an error naming how far the path could be followed.''',
     ['programs', 'inputs'], 'all supported types and paths', EXAMPLES, ['marsh/doc', 'marsh/schema'],
     [('doc fields', 'marsh/schema')], REPLAY, NOTE, ['marsh.doc.*'])
prop('D02', 'Help shows the texts written about types and their parameters',
     '''The documentation of a type carries what its docstring says about the type (never the signature python writes in its place), and that of a field
what the docstring of the class says about it or else the text right below the field, of the closest class in the inheritance chain to say something.
A field that is not written about has no text, wherever the class is defined and whatever else its body or docstring holds.
The help of a program and rendered documentation show these texts whole, those given to the program in their place.''',
     ['programs', 'inputs'], 'all functions and classes with source, docstrings of any style', EXAMPLES, ['marsh/doc', 'marsh/utils.py', 'marsh/entry_point.py'],
     [('get_attribute_description', 'marsh/utils.py'), ('get_description', 'marsh/utils.py')], REPLAY, NOTE, ['marsh.doc.*'])
