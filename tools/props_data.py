from props import prop, PBT

# --------------------------------------------------------------------------
# Natively importable Python parts
# --------------------------------------------------------------------------

prop(
    'C01', 'The size-tracking LRU cache respects its byte budget and LRU order',
    'For every sequence of calls, the total number of bytes reported by the cache equals the sum of the sizes of the entries it holds and never exceeds the configured limit; when space is needed, including when the limit is lowered, entries are evicted strictly from least to most recently used and no more than necessary, where reading an entry or setting an existing key makes it the most recent one. Setting a key that is present returns and keeps the existing value (None is a legal value); a new value larger than the limit is returned but not stored and evicts nothing; removing, clearing and reading absent keys behave like a plain map, and negative limits are rejected with ValueError and change nothing. The limit of the process-wide storage cache always equals the megabyte value of its command line flag.',
    ['histories', 'inputs'],
    'every history of get/set/remove/clear/limit changes over any keys, values and sizes',
    'The two existing tests run one short hand-written history; budget, accounting and recency are invariants over all histories.',
    ['py/koladata/ext/storage/lru_size_tracking_cache.py',
     'py/koladata/ext/storage/global_cache_lib.py',
     'py/koladata/ext/storage/global_cache_flags.py'],
    [('pop and re-insert on access keeps dict order = recency', 'LruSizeTrackingCache.get'),
     ('shrink before insert', 'LruSizeTrackingCache.set / _shrink_cache_to_at_most'),
     ('flag validator forwards the limit', 'global_cache_lib._kd_ext_storage_global_cache_max_size_mb_validator')],
    state=[('_cache', 'entries, oldest first', 'LruSizeTrackingCache'),
           ('_total_bytes_of_entries_in_cache', 'sum of entry sizes', 'LruSizeTrackingCache')],
    observe=['get', 'set', 'get_total_bytes_of_entries_in_cache', 'set_max_total_bytes_of_entries_in_cache'],
    check='checks/lru.py',
    technique='model-based ' + PBT + ' (generated call histories vs a reference LRU, Hypothesis shrinking)',
    note='Random exploration of histories up to 60 operations; trusts the 50-line reference LRU.',
)

prop(
    'C02', 'The size-tracking LRU cache is linearizable under concurrent use',
    'When several threads use one cache at the same time, every call completes without error or deadlock, and the values returned together with the final contents, byte total and eviction order are those of some sequential execution of the same calls that respects real-time order. In particular the byte total never drifts from the entries held, and two threads that set the same key get the same value back.',
    ['schedules', 'histories'],
    'every interleaving of every set of concurrent call sequences',
    'No existing test uses more than one thread.',
    ['py/koladata/ext/storage/lru_size_tracking_cache.py'],
    [('one re-entrant lock around every public method', 'LruSizeTrackingCache._rlock')],
    check='checks/lru_threads.py',
    technique=PBT + ' with generated thread schedules (harness-owned scheduler, linearizability oracle)',
    note='2-3 threads, up to 4 operations each, preemption at opcode granularity inside the cache module with up to 8 generated preemptions; lock primitives are replaced by cooperative ones.',
)

prop(
    'C03', 'Progress bars report every displayed change to the right reporter',
    'A progress bar reports to the reporter that was active in its context when the bar was created and to no other: the states it receives carry the bar\'s current counts, total, unit, description and postfix under one id unique to the bar, every displayed change is reported, and closing reports exactly one final closed state (marked displayed only if the bar is left on screen and not disabled), after which nothing is reported. Reporting never changes the progress bar itself: items are yielded unchanged, reporter failures are swallowed, explicit user arguments win over the reporter\'s configuration, and terminal output is suppressed only when the reporter asks for it and the user gave no file. Reporter scopes nest and restore the previous reporter on every exit, are invisible to other threads, tasks and contexts, and concurrent reports to one reporter never overlap (a reporter may call back into itself).',
    ['histories', 'schedules', 'configurations', 'fault_sequences'],
    'every bar configuration, operation sequence, nesting of scopes, reporter failure and thread interleaving',
    'Existing tests sample single bars with one or two updates and no failing reporter, exceptional exit, task or thread.',
    ['py/koladata/ext/tqdm/tqdm.py', 'py/koladata/ext/tqdm/context.py',
     'py/koladata/ext/tqdm/types.py'],
    [('display()/close() hooks', 'tqdm.tqdm'), ('context variable', 'context._REPORTER_CONTEXT'),
     ('lock around delivery', 'types.ProgressReporter.set_progress')],
    observe=['ProgressReporter._set_progress_impl', 'get_reporter', 'sys.stderr'],
    check='checks/tqdm_report.py',
    technique='model-based ' + PBT + ' (bar operation sequences, scope programs, generated thread schedules, injected reporter failures)',
    note='tqdm\'s monitor thread is off and miniters=1/mininterval=0 so that the expected reports are determined; notebook widgets are not exercised.',
)

prop(
    'C04', 'Progress snapshots survive the wire format and derive consistent figures',
    'Converting a progress snapshot to its proto record, through bytes, and back yields the same count, total, elapsed time, rate, initial value, unit, description, postfix, bar id, closed and displayed flags, up to the documented normalisation (missing count becomes 0; zero or missing total and rate, empty description and postfix become missing; empty unit becomes the default), and doing it again changes nothing. The fraction is count/total and the remaining time (total-count)/rate, and each is missing exactly when one of its inputs is missing or its divisor is zero or the total is zero; a snapshot taken from tqdm copies tqdm\'s own figures.',
    ['inputs'],
    'every combination of field values',
    'Existing tests convert two hand-written snapshots.',
    ['py/koladata/ext/tqdm/types.py', 'py/koladata/ext/tqdm/proto/progress.proto'],
    [('field by field copy with None/0 normalisation', 'ProgressState.to_proto / from_proto / from_tqdm'),
     ('derived figures', 'ProgressState.fraction / remaining_s')],
    check='checks/progress_state.py',
    technique=PBT + ' (round-trip and recomputation oracles)',
    note='Finite floats; proto code generated from /repo\'s .proto at check time.',
)

prop(
    'C05', 'Tracing mode is scoped, isolated, and selects the right version of an API',
    'Enabling or disabling tracing affects exactly the enclosed scope: nested scopes and exceptional exits restore the previous mode, and the mode is private to each thread, task and copied context. A module prepared for tracing yields, for each exported name, precisely the registered eager object in eager mode and the registered tracing object in tracing mode (an attribute error if there is none), hides everything else, cannot be assigned to, and reloads as the registered module when pickled. Registrations go by object identity: equal but distinct, unhashable or falsy objects never interfere, re-registering the same pair is allowed, a conflicting registration or an export without registration is a ValueError.',
    ['inputs', 'histories', 'schedules'],
    'every nesting of scopes over threads/tasks, every set of exported objects and registrations',
    'Existing tests use three attributes, no equal-but-distinct objects, and one level of nesting.',
    ['py/koladata/expr/tracing_mode.py'],
    [('context variable with token reset', 'enable_tracing'),
     ('identity wrapper', '_HashAnythingWrapper'),
     ('data descriptors on a per-module class', 'prepare_module_for_tracing')],
    check='checks/tracing.py',
    technique='model-based ' + PBT + ' (scope programs and generated modules vs a lookup table)',
    note='Threads are run to completion inside a program; tasks interleave at generated yield points.',
)

prop(
    'C06', 'File system operations never lose or clobber data silently',
    'Every sequence of opening, writing, reading, making directories, renaming, removing, existence tests and globbing behaves like the same sequence on an abstract file tree. Renaming without overwrite onto anything that exists (file or directory) fails and changes nothing; with overwrite it replaces the destination file atomically from the reader\'s point of view and moves whole directories with their contents; a failing operation leaves the tree unchanged. Making directories is idempotent, creates all parents and honours the caller\'s umask.',
    ['histories', 'inputs'],
    'every operation sequence over files and directories',
    'The single existing test runs one fixed sequence.',
    ['py/koladata/file_io/fs_implementation.py', 'py/koladata/file_io/fs_interface.py',
     'py/koladata/file_io/file_io.py'],
    [('existence check before rename', 'FileSystemInteraction.rename'),
     ('os.makedirs(exist_ok)', 'FileSystemInteraction.make_dirs')],
    check='checks/file_io.py',
    technique='model-based ' + PBT + ' (operation histories on a scratch directory vs an in-memory tree)',
    note='Local POSIX file system, single process, no symlinks.',
)

prop(
    'C07', 'Python class introspection for conversion gives the type each field declares',
    'For every output class built from dataclasses, SimpleNamespace, lists, variable-length tuples, sequences, dicts and mappings, the type reported for a field, item, key or value is the declared one with optionality stripped and reported separately, independent of how "optional" is spelled, of argument order and of which classes were asked before through a shared cache; Any means unconstrained, unknown fields are reported as absent, and unions other than "T or None", fixed-size tuples and unsupported classes are rejected with ValueError. Dataclasses made for schema-less conversion compare equal exactly to dataclass instances with the same field names and values regardless of class and field order (and to nothing else), default missing fields to None, and list their fields in declaration order.',
    ['inputs'],
    'every type built from the supported grammar, every field/value map',
    'The existing tests check equality and listing on a few fixed classes; the type rules are only tested through C++ that cannot be built here.',
    ['py/koladata/base/py_conversions/dataclasses_util.py'],
    [('union decay', 'maybe_decay_optional'), ('decision table', 'get_class_field_type'),
     ('structural equality', '_eq / make_dataclass')],
    check='checks/dataclasses_util.py',
    technique='grammar-based ' + PBT + ' (answer derived from the generating type term)',
    note='Type terms up to 6 leaves; typing.List-style aliases are not generated.',
)

prop(
    'C08', 'Unwrapping a decorated function reaches the innermost function',
    'For every chain of decorators of any length and kind of callable, unwrapping returns the innermost callable itself; it stops at a wrapped attribute that is not callable, returns undecorated callables unchanged, and terminates inside the cycle when the chain is cyclic, whatever equality or hash the callables define.',
    ['inputs'],
    'every finite or cyclic chain of callables',
    'The existing test covers one short chain.',
    ['py/koladata/util/kd_functools.py'],
    [('visited set', 'unwrap')],
    check='checks/unwrap.py',
    technique=PBT + ' (generated decorator chains with known innermost function)',
    note='Chains up to 40 links.',
)

# --------------------------------------------------------------------------
# Koda View
# --------------------------------------------------------------------------

VIEW_NOTE = ('Jagged arrays of depth <= 4 with rows of up to 3 (grouping: 9) items; the C++ '
             'extension is compiled from /repo against a small stand-in for the arolla Python helpers; '
             'trusts the path-indexed reference model.')
V = 'py/koladata/ext/view/'

prop(
    'C09', 'Element-wise View operations broadcast, skip missing items, keep shape',
    'For every set of views, applying a function (positional and keyword arguments, boxed scalars included) calls it exactly once for every item of the deepest view, with the items of the other views at the corresponding index prefix, and the result has exactly that shape; unless missing items are requested, items for which any argument is None are not passed to the function and give None. With ndim > 0 whole sub-tuples of the aligned arguments are passed and that many dimensions disappear. Alignment and expansion repeat items along the extra dimensions (or whole sub-arrays with ndim), comparisons give present/None, masking keeps an item exactly where the mask is present and rejects non-masks, coalescing takes the first present item; the operator and the function spellings agree. Shapes that are not prefixes of each other raise an error, items are never copied or looked into, and no references leak, including when the function raises.',
    ['inputs'],
    'every set of jagged arrays, functions and argument spellings',
    'The existing tests (which do not run here) use a handful of fixed arrays of depth <= 2.',
    [V + 'clib.cc', V + 'view.py', V + 'operators.py', V + 'kv.py'],
    [('recursive map over tuples', 'clib.cc MapImpl'), ('argument boxing and alignment', 'view.map_ / _map1 / _map2 / align'),
     ('expand_to', 'View.expand_to')],
    observe=['kv.map', 'kv.align', 'kv.expand_to', 'comparison and mask operators', 'clib_py_ext.map_structures'],
    check='checks/view_map.py',
    technique='model-based ' + PBT + ' (generated jagged arrays vs a path-indexed model; reference counts as invariant)',
    note=VIEW_NOTE,
)

prop(
    'C10', 'View shape operations and indexing select exactly the addressed items',
    'For every nested data and every sequence of shape operations: exploding turns the items of each container (none for None) into a new last dimension; imploding groups the last dimensions into tuples and is undone by exploding; flattening merges exactly the dimensions of the Python-style clamped range in order, inserting a unit dimension for an empty range, without looking into items; a slice adds one dimension with the slice of each container; indexing by scalar or view aligns containers and keys and gives None for missing containers, missing keys and out-of-range indices; take indexes the last dimension. Invalid dimension counts, slice steps, iterating a view and wrapping a view in a view are errors. Views are immutable: no operation changes an earlier view.',
    ['inputs', 'histories'],
    'every nested data structure and operation sequence',
    'The existing tests (which do not run here) use fixed small examples per operation.',
    [V + 'view.py', V + 'operators.py', V + 'clib.cc'],
    [('explode/implode only change depth and containers', 'View.explode / implode'),
     ('flatten via append into shared lists', 'View.flatten'), ('IndexError/KeyError to None', '_get_item_impl')],
    check='checks/view_shape.py',
    technique='model-based ' + PBT + ' (generated operation programs vs a path-indexed model, algebraic laws)',
    note=VIEW_NOTE,
)

prop(
    'C11', 'View filtering, grouping and collapsing keep the right items in order',
    'For all data and filters, select keeps exactly the items whose (expanded) filter item is present, in order, at the last dimension or, without expansion, at the filter\'s own level with everything below it; inverse_select puts the items back at the present positions with None elsewhere, so that it undoes select, and reports any count mismatch; filters with other values than present/None, deeper filters and scalar data are rejected. group_by partitions every last-dimension row by the tuple of keys (or the items themselves), dropping rows with a missing key, keeping item order within groups and ordering groups by first appearance or, with sort, by key; collapse gives the common value of the present items of the collapsed dimensions and None if there is none or they differ.',
    ['inputs'],
    'every jagged array, filter and set of grouping keys',
    'The existing tests (which do not run here) use fixed small examples per operation.',
    [V + 'view.py', V + 'operators.py'],
    [('select/inverse_select row kernels', '_select_impl / _select_constant_fltr_impl / _inverse_select_impl'),
     ('dict of key tuples', '_group_by_impl'), ('collapse', '_collapse_impl / View.collapse')],
    check='checks/view_select.py',
    technique='model-based ' + PBT + ' (reference model and metamorphic select/inverse_select/mask laws)',
    note=VIEW_NOTE,
)

prop(
    'C12', 'Writes through a View have exactly the effect of the item-wise statements',
    'For every object graph (objects, lists and dicts, possibly shared) setting attributes, setting items and appending through a view has exactly the effect of executing the corresponding statement for each aligned item in row-major order: missing containers and missing keys are skipped, missing values are written as None, an index out of range is ignored, repeated objects see all writes in order, and a value with more dimensions than its target is rejected (except appending, which appends all of them). Reading an attribute gives None for missing items and the default for absent or None attributes. A deep clone is structurally equal, shares no mutable part with the original and keeps internal sharing; a deep map applies the function to every nested leaf and keeps the structure.',
    ['histories', 'inputs'],
    'every object graph and sequence of writes',
    'The existing tests (which do not run here) use fixed small examples per operation, without shared objects or mixed depths.',
    [V + 'view.py', V + 'operators.py'],
    [('set_attrs/set_item/append via include_missing map', 'View.set_attrs / set_item / append'),
     ('get_attr default', 'View.get_attr'), ('optree map', 'View.deep_map / operators.deep_map')],
    check='checks/view_mutate.py',
    technique='model-based ' + PBT + ' (write histories on twin object graphs)',
    note=VIEW_NOTE,
)

# --------------------------------------------------------------------------
# JSON streams (C++)
# --------------------------------------------------------------------------

JS = 'koladata/internal/op_utils/json_stream.cc'
JSH = 'koladata/internal/op_utils/json_stream.h'
JS_NOTE = ('Random search over documents of up to ~10 nodes per value; the processors are compiled from '
           '/repo (UBSan, libstdc++ assertions) against the distribution\'s absl and ICU; the operator glue '
           'in koladata/operators/json_stream.cc needs arolla and is re-enacted by the harness.')

prop(
    'C13', 'JSON salvage always emits valid JSON and preserves documented syntax',
    'For every byte stream and every choice of options, salvaging produces a sequence of newline separated valid JSON values (RFC 8259, or with NaN/Infinity literals when allowed; pure ASCII when requested), the same for every chunking of the input, and salvaging that output again changes nothing. If the input is a sequence of whitespace separated valid JSON values no deeper than the configured limit, the output has the same values: the same strings by code points, the same numbers with unlimited precision, the same keys and order. JSON5 and the documented Python and JavaScript syntax (quotes, triple quotes, escapes, comments, unquoted keys, tuples, trailing commas, True/False/None, non-decimal numbers, digit separators, suffixes, signs, NaN and infinities) yields the value it denotes in its language.',
    ['inputs', 'configurations'],
    'every byte stream, option and chunking',
    'The unit tests list about two hundred fixed inputs; validity of the output is a claim about all inputs and all internal parser states.',
    [JS, JSH],
    [('character state machine with look-back buffer', 'JsonSalvageStreamProcessor::ProcessBaseRules / ProcessStringRules / ProcessNumberRules'),
     ('deferred separators', 'StartValue / EndValue')],
    check='checks/json_salvage.py',
    technique='grammar-based ' + PBT + ' (strict independent JSON parser as oracle, dialect renderer, chunking metamorphic relation)',
    note=JS_NOTE + ' Two recorded deviations from JSON5: comments directly after an unquoted name, and \\u escapes in unquoted names.',
)

prop(
    'C14', 'JSON layout, quoting and chunking operators preserve the values',
    'For every sequence of whitespace separated JSON values and every chunking, compactifying gives each value without insignificant whitespace followed by one newline, prettifying gives exactly the layout of json.dumps with that indent, and chunking gives one chunk per value; keys, order, literals and string bytes are never altered. head(n) gives exactly the first n values and ends without reading further input once they are complete. Quoting any text gives one JSON string with only the necessary escapes, unquoting gives the concatenated decoded contents of all strings, so that unquoting undoes quoting.',
    ['inputs'],
    'every sequence of JSON values, layout, chunking and parameter',
    'The unit tests use fixed short documents; the operators must be independent of where chunks are cut.',
    [JS, JSH, 'koladata/operators/json_stream.cc'],
    [('string/escape/depth flags carried across chunks', 'JsonCompactifyStreamProcessor / JsonPrettifyStreamProcessor / JsonUnquoteStreamProcessor'),
     ('line counting', 'JsonHeadStreamProcessor'), ('buffer until newline', 'JsonChunkValuesStreamProcessor')],
    check='checks/json_layout.py',
    technique=PBT + ' (token-preserving document generator, reference rendering, quote/unquote round-trip, chunking metamorphic relation)',
    note=JS_NOTE + ' Prettified output is compared up to blank lines at both ends; unquoting lone surrogates is unspecified.',
)

prop(
    'C15', 'JSON stream selection operators keep exactly the addressed values',
    'For every sequence of JSON values and every chunking: selecting nonempty objects, nonempty arrays or non-null values keeps exactly those top-level values in order; imploding gives one array of all values and exploding gives the elements of all top-level arrays in order, so that exploding undoes imploding; the nth element of each top-level value is that element, or null if the value is not an array or has no such element. Extracting by a path predicate gives, per top-level value, one array of the outermost values at matching paths in document order (with their exact paths on request), asking only about paths that exist; looking up an object key gives the first (or all) values of that decoded key, or null (or no values).',
    ['inputs'],
    'every sequence of JSON values, path predicate, key, index and chunking',
    'The unit tests use fixed short documents; nesting, empty containers and repeated top-level values interact through carried state.',
    [JS, JSH, 'koladata/operators/json_stream.cc'],
    [('path stack and match depth', 'JsonExtractValuesStreamProcessor::Process'),
     ('per-value reset', 'JsonGetArrayNthValueStreamProcessor::Process'), ('container depth', 'JsonExplodeArrayStreamProcessor')],
    check='checks/json_select.py',
    technique=PBT + ' (expected output computed from the generating trees, inverse law, chunking metamorphic relation)',
    note=JS_NOTE,
)

prop(
    'C16', 'The streaming JSON parser reports every value once, with path and text',
    'For every sequence of JSON documents and every chunking, the parser behind JSON filtering reports for each value, in document order, one begin event with its path and kind and one end event with the same path and the complete text of the value, verbatim or without separators according to the policy. The text handed out incrementally is the whole output without gaps or repetition however often it is fetched, and inside events it ends exactly before the beginning value or after the ended one. With the compatibility options, documents using single quotes, unquoted keys, raw line breaks, unquoted words or trailing commas are reported as the valid JSON they stand for; without them, and for unbalanced brackets, misplaced commas or colons and truncated documents, an error is returned.',
    ['inputs', 'configurations', 'histories'],
    'every document, chunking, option set and sequence of reads',
    'The unit tests feed a few fixed documents in few chunks.',
    ['koladata/operators/json_stream_parser.cc', 'koladata/operators/json_stream_parser.h'],
    [('value stack with data offsets', 'JsonStreamParser::HandleValueEnd'),
     ('comma re-insertion', 'InsertCommaIfMissing'), ('available/consumed positions', 'ConsumeChunk / AddChunk')],
    check='checks/json_parser.py',
    technique=PBT + ' (event history computed while rendering the document; malformed documents by one structural edit)',
    note='Compiled from /repo against the distribution\'s absl with a stand-in for arolla\'s status macros. Paths of keys containing escapes and unquoted words containing quotes are unspecified.',
)

prop(
    'C17', 'DataBagManager persists exactly its committed revisions',
    'For every history of any number of manager instances over persistence directories (creation, opening, add_bags, extraction, branching, moving a directory, cache eviction), a newly opened manager sees exactly the bags, custom metadata and order of the last committed update, existing instances keep seeing their own revision, and a bag request returns precisely the requested bags with their transitive dependencies (and dependents on request), merged in the order they were added. An update that is invalid or based on an outdated revision fails and changes nothing; of several writers racing from one revision exactly one commits. After a failure or crash at any file-system call the directory still reads back as either the old or the new revision, intact, a reported commit is never lost, and a failed update can be retried.',
    ['histories', 'crash_points', 'schedules'],
    'every history of instances, crash point of the persistence protocol and interleaving of writers',
    'The unit tests run a few fixed sequences without faults; the transaction protocol is about every crash point and writer interleaving.',
    ['py/koladata/ext/storage/data_bag_manager.py', 'py/koladata/ext/storage/global_cache_lib.py', 'py/koladata/ext/storage/data_bag_manager_metadata.proto'],
    [('numbered metadata committed by rename without overwrite', '_persist_metadata'),
     ('newest committed metadata wins', '_read_latest_metadata'), ('fresh file names per session', 'DataBagManager._get_fresh_bag_filenames')],
    check='checks/bag_manager.py',
    technique='stateful model-based ' + PBT + ' with fault and crash injection at every file-system call and interleaved writers',
    note='The DataBag values and their serialization are a map-valued stand-in because the C++ extension cannot be built here; the file system is an in-memory one with atomic renames plus the default one.',
)

# --------------------------------------------------------------------------
# The C++ core (on the arolla stand-in of shims/kcore)
# --------------------------------------------------------------------------
HIST = 'model-based ' + PBT + ' (generated operation histories vs a reference model, Hypothesis shrinking; driver process over the real C++)'
SHIM = 'arolla, which is not in the sandbox, is replaced by the stand-in in shims/kcore, validated with the repository\'s own C++ tests. '

prop(
    'C18', 'Attribute storage: reads return the last write, removals included',
    'For every history of attribute writes to a bag, reading an attribute of any objects returns for each the value last written to it, and missing where nothing was written or the last write was a missing value. This does not depend on how values are written or stored: one object at a time, in batches, a whole allocation at once, at object creation, for large or single-object allocations, with few or many objects of an allocation, with values of one or several types, with repeated or missing objects in a batch (the last occurrence counts), in one bag or in forks of it. A removed value hides what fallback bags hold for that object, an unset one does not. Newly created objects are distinct from all others. Forking leaves the original as it was and writes to the fork are visible only there.',
    ['histories', 'inputs'],
    'every history of attribute writes, reads and forks over any allocations, values and fallbacks',
    'Unit tests sample single calls; the storage switches between representations (constant, sparse, dense, multi-type, parent chains) depending on the history.',
    ['koladata/internal/data_bag.cc', 'koladata/internal/dense_source.cc', 'koladata/internal/sparse_source.cc',
     'koladata/internal/value_array.h', 'koladata/internal/value_buffer.h', 'koladata/internal/slice_builder.h',
     'koladata/internal/data_slice.cc'],
    [('collections of dense and sparse sources per (attribute, allocation), parents consulted for unset values', 'DataBagImpl::GetAttributeDataSources / GetAttrFromSources'),
     ('copy on first write of a parent\'s source', 'DataBagImpl::GetMutableDenseSource'),
     ('removed vs unset type index', 'TypesBuffer')],
    state=[('sources_', 'attribute values by allocation and name', 'DataBagImpl'), ('small_alloc_sources_', 'values of single objects', 'DataBagImpl')],
    observe=['DataBagImpl::GetAttr', 'GetAttrWithRemoved', 'ExtractContent'],
    check='checks/core_attrs.py', technique=HIST,
    note=SHIM + 'Histories up to 22 operations over up to 5 allocations of up to 300 objects; trusts the dictionary model.',
)

prop(
    'C19', 'Lists of a bag behave like Python lists under every operation history',
    'For every history of list operations on a bag - append, extend, set, replace a range, remove a range or positions, pop; on one list or on a batch of lists, with repeated lists, missing lists, negative and out-of-range indices and any mix of value types - every list holds what a Python list would hold after the same operations done one after the other (out of range reads give missing, out of range writes and removals do nothing), and size, item, slice and pop agree with it. With fallbacks the first bag in which the list was set provides the whole list. A fork starts with the lists of the original; afterwards neither sees changes of the other.',
    ['histories', 'inputs'],
    'every history of list operations, reads and forks over any lists and values',
    'Unit tests sample single calls on short lists with one type.',
    ['koladata/internal/data_bag.cc', 'koladata/internal/data_list.cc', 'koladata/internal/data_list.h'],
    [('typed list vectors, converted to mixed on demand', 'DataList'), ('lists of the parent copied at first write', 'DataBagImpl::GetMutableList')],
    state=[('lists_', 'lists by allocation', 'DataBagImpl')],
    observe=['DataBagImpl::ExplodeLists', 'GetFromLists', 'GetListSize', 'ExtractContent'],
    check='checks/core_lists.py', technique=HIST,
    note=SHIM + 'Histories up to 22 operations over up to 5 allocations of up to 65 lists.',
)

prop(
    'C20', 'Dicts of a bag behave like Python dicts under every operation history',
    'For every history of dict operations on a bag - set, clear, get, keys, values, size; single or batch, with repeated dicts and keys, missing dicts and keys, and keys of every supported kind (integers, texts, bytes, booleans, masks, dtypes, item ids) - every dict holds what a Python dict would hold, where equal numbers of INT32 and INT64 are one key and keys of different kinds are different keys. Setting a missing value or clearing removes the value; keys that cannot be dict keys (floats, expressions) are rejected. With fallbacks a key\'s value comes from the first bag that has the key. A fork starts with the dicts of the original; afterwards neither sees changes of the other.',
    ['histories', 'inputs'],
    'every history of dict operations, reads and forks over any dicts, keys and values',
    'Unit tests sample single calls with one key type.',
    ['koladata/internal/data_bag.cc', 'koladata/internal/dict.h', 'koladata/internal/dict.cc'],
    [('hash map with parent chain', 'Dict'), ('heterogeneous key view', 'DataItem::View')],
    state=[('dicts_', 'dicts by allocation', 'DataBagImpl')],
    observe=['DataBagImpl::GetFromDict', 'GetDictKeys', 'GetDictValues', 'GetDictSize', 'ExtractContent'],
    check='checks/core_dicts.py', technique=HIST,
    note=SHIM + 'Histories up to 22 operations over up to 5 allocations of up to 65 dicts.',
)

prop(
    'C21', 'Schema storage keeps the attribute types that were written',
    'For every history of schema writes to a bag - set, delete, create explicit, uu and allocation-wide schemas, attach schemas to objects - reading the attributes of a schema returns the types last written, listing a schema\'s attributes returns exactly those that were written and not deleted, and an object\'s schema is the one last attached. Schemas made from the same seed and fields are the same schema and different ones differ. Fallbacks supply the attributes a schema does not have in the first bag. A fork starts with the schemas of the original; afterwards neither sees changes of the other.',
    ['histories', 'inputs'],
    'every history of schema writes, reads and forks over any schemas',
    'Unit tests sample single calls; storage differs between single schemas (dict-like) and schema allocations (attribute-like).',
    ['koladata/internal/data_bag.cc', 'koladata/internal/uuid_object.cc', 'koladata/internal/dict.h'],
    [('small schemas are stored as dicts, allocations as attributes', 'DataBagImpl::SetSchemaAttr / GetSchemaAttrs')],
    state=[('dicts_', 'schema dicts', 'DataBagImpl')],
    observe=['DataBagImpl::GetSchemaAttr', 'GetSchemaAttrs', 'GetObjSchemaAttr'],
    check='checks/core_schemas.py', technique=HIST,
    note=SHIM + 'Histories up to 22 operations over up to 5 schema allocations.',
)

prop(
    'C22', 'Typed attributes: schema and data of entities and objects stay consistent',
    'For every history of attribute operations on slices of entities and objects - set (with and without schema overwrite), set many, set with a slice of names, delete, get, get with default, get or missing, has, list names - the value read is the value last written, converted to the type the schema declares, and the schema read is the declared one. Writing to an entity whose schema declares a type converts values that can be narrowed to it and is otherwise rejected without changing anything; a new attribute takes the type of its first value. Objects carry their own schema: an implicit one follows the last written type, an explicit one is only changed when asked to. Missing values (also in the names) write nothing where the target is missing and remove the value where it is present.',
    ['histories', 'inputs'],
    'every history of typed attribute operations over entities, objects, shapes and value types',
    'Unit tests sample single writes; the result depends on the schema kinds, earlier writes, broadcasting and casting together.',
    ['koladata/data_slice.cc', 'koladata/data_slice_op.h', 'koladata/adoption_utils.cc', 'koladata/casting.cc', 'koladata/object_factories.cc'],
    [('schema update / cast before data is written', 'AttrUpdater / RhsHandler'), ('attribute schema of objects with different schemas', 'GetObjCommonSchemaAttr'),
     ('attribute names per item', 'DataSlice::SetAttr with names')],
    observe=['DataSlice::GetAttr', 'DataSlice::GetAttrOrMissing', 'DataSlice::GetAttrNames', 'DataSlice::GetSchema'],
    check='checks/core_typed.py', technique=HIST,
    note=SHIM + 'Histories up to 14 operations over up to 6 groups of items; exact results of overwriting a schema other items share are not decided.',
)

prop(
    'C23', 'Casting keeps the values or is rejected, by one lattice of types',
    'The common schema of any set of schemas is their least upper bound in the documented type lattice, whatever the order they are given in, and does not exist when the lattice has none. Implicit casts succeed exactly to schemas above the current one; narrowing casts additionally use the types of the actual values; explicit casts to each primitive type convert every present value by the documented rule (truncation, text parsing and printing, truth) and reject the rest, and keep missing items missing and the shape unchanged. Printing a value as text and casting it back returns the same value. Deep casts convert nested entities, lists and dicts to the fields of the target schema, leave the source as it was, and reject fields that are missing or of another type.',
    ['inputs'],
    'every slice, source schema and target schema',
    'Unit tests list pairs of types with a few values each; the rules depend on source schema, actual values, representation and nesting.',
    ['koladata/casting.cc', 'koladata/internal/casting.cc', 'koladata/internal/schema_utils.cc', 'koladata/schema_utils.cc', 'koladata/internal/op_utils/deep_schema_compatible.cc', 'koladata/operators/schema.cc'],
    [('common type over a precomputed lattice', 'schema::CommonSchema'), ('casters per target type', 'ToINT32 ... ToMask'), ('cast nested data by extracting under the new schema', 'CastByExtracting')],
    observe=['schema::CommonSchema', 'CastToImplicit', 'CastToExplicit', 'CastToNarrow', 'kd.schema.cast_to'],
    check='checks/core_casting.py', technique='property-based testing: generated slices and schemas against a reference lattice and reference conversions; round trips',
    note=SHIM + 'Float text is decided by round trip only.',
)

prop(
    'C24', 'Aligning, reshaping, expanding and subslicing follow the nested lists',
    'For every slice with a jagged shape: expanding it to a finer shape repeats each item over its group and is rejected unless the shape broadcasts; aligning slices broadcasts all of them to the finest shape and rejects incompatible ones; reshaping and flattening any range of dimensions keeps the items and their order and is rejected unless the sizes fit; building a shape from dimensions and reading the dimensions back agree. Subslicing with any mix of integers, index slices, ranges, negative and out-of-range indices and an ellipsis selects what indexing the nested lists selects, with missing items where an index is out of range or missing; every spelling of the same selection agrees.',
    ['inputs'],
    'every slice, jagged shape (also empty, scalar and uneven) and index expression',
    'Unit tests use a few shapes of two dimensions; edge handling depends on empty groups, rank and broadcasting.',
    ['koladata/data_slice.cc', 'koladata/shape_utils.cc', 'koladata/subslice_utils.cc', 'koladata/operators/slices.cc', 'koladata/operators/shapes.cc', 'koladata/internal/op_utils/at.cc', 'koladata/internal/op_utils/expand.h'],
    [('indices grouped by the shape of the index slices', 'subslice::Subslice'), ('expansion by the edges of the shape', 'BroadcastToShape')],
    observe=['DataSlice::Reshape', 'BroadcastToShape', 'kd.slices.subslice', 'kd.slices.take', 'kd.shapes.*'],
    check='checks/core_shapes.py', technique='property-based testing: generated slices, shapes and index expressions against nested Python lists',
    note=SHIM + 'Shapes up to 5 dimensions and some hundred items; arolla\'s own JaggedShape is replaced by the stand-in.',
)

prop(
    'C25', 'Selecting, ordering, grouping and joining items follow the nested lists',
    'For every slice, of any value type, mix of types, representation and jagged shape: select keeps exactly the items whose filter is present, in order and in their groups, and inverse_select puts them back; reverse turns every group around; unique and group_by find equal items (numbers by value) in order of first appearance or sorted, and drop missing keys; ranks order by value with ties in order of the tie breaker; translate looks every key up in its group and rejects duplicate keys; collapse returns the one value a group has; concat and stack join groups in order under the common type of the inputs. Inputs that do not fit together are rejected, the inputs are never changed, and items keep the connection to their attributes.',
    ['inputs'],
    'every slice, shape and value type, also mixed and missing',
    'Unit tests use short lists of one type; the implementations differ per type, for mixed types and for sparse data.',
    ['koladata/operators/slices.cc', 'koladata/internal/op_utils/select.h', 'koladata/internal/op_utils/inverse_select.h', 'koladata/internal/op_utils/reverse.cc', 'koladata/internal/op_utils/group_by_utils.h', 'koladata/internal/op_utils/collapse.h', 'koladata/internal/op_utils/concat.h', 'koladata/operators/utils.cc'],
    [('per-type group indices merged over mixed types', 'ObjectsGroupBy'), ('typed arrays filtered per dimension', 'SelectOp')],
    observe=['kd.slices.select', 'inverse_select', 'reverse', 'unique', 'group_by_indices', 'ordinal_rank', 'dense_rank', 'translate', 'collapse', 'concat', 'stack'],
    check='checks/core_sliceops.py', technique='property-based testing: generated slices against nested Python lists; inverse operations',
    note=SHIM + 'Ranks of MASK values are not decided (the stand-in does not have them); text order is by bytes.',
)

prop(
    'C26', 'Pointwise and aggregating operators compute what their types promise',
    'For every pair of slices, of any numeric, text, mask or entity type, shape and representation: the operands are broadcast to the larger shape and brought to their common type; the arithmetic, bitwise, comparison and mask operators give in every position the value computed from the two values there, and a missing value where an operand is missing; the result has the type that follows from the operand types alone (not from the values); aggregations give one value per group of the last dimensions, from the present values of the group. Operands whose types or shapes do not fit are rejected, and operands are never changed.',
    ['inputs'],
    'every pair of slices, types, shapes and missing values',
    'Unit tests use one or two examples per operator; type promotion, broadcasting and missing values combine freely.',
    ['koladata/operators/math.cc', 'koladata/operators/arolla_bridge.h', 'koladata/operators/comparison.cc', 'koladata/operators/masking.cc', 'koladata/operators/binary_op.h', 'koladata/operators/unary_op.h', 'koladata/operators/bitwise.cc', 'koladata/internal/op_utils/presence_or.h', 'koladata/internal/op_utils/presence_and.h', 'koladata/internal/op_utils/equal.h'],
    [('one evaluation per primitive type of the operands', 'BinaryOpEval'), ('presence bitmaps of mixed slices', 'PresenceAndOp')],
    observe=['kd.math.*', 'kd.bitwise.*', 'kd.comparison.*', 'kd.masking.*', 'kd.math.agg_*'],
    check='checks/core_elementwise.py', technique='property-based testing: generated operands against per-item evaluation in Python; type lattice as oracle',
    note=SHIM + 'The scalar kernels (addition of two numbers and so on) come from the stand-in where the repository delegates them to arolla.',
)

prop(
    'C27', 'Extracting a slice copies exactly what is reachable from it',
    'For every graph of entities, objects, lists and dicts (with shared items, cycles, mixed types, removed values, any allocation sizes) and every stack of bags it is spread over: extracting a slice gives the same items with a new immutable bag that holds every attribute, list, dict entry and schema reachable from the slice through its schema, with the same values, and nothing else; with a narrower schema, only what that schema mentions. The source bags do not change; extracting from the merged bags, or extracting again, gives the same content.',
    ['inputs', 'histories'],
    'every graph, stack of bags and slice of its items',
    'Unit tests use small acyclic graphs with a few fixed layouts; the copy has fast paths for full allocations, single types and equal schemas.',
    ['koladata/internal/op_utils/extract.cc', 'koladata/extract_utils.cc', 'koladata/internal/data_bag.cc', 'koladata/internal/data_slice.cc', 'koladata/internal/dense_source.cc'],
    [('queue of slices grouped by schema', 'CopyingProcessor'), ('whole-allocation copies', 'DataBagImpl::GetMaybeFullAllocAttrWithRemoved')],
    observe=['kd.core.extract', 'DataSlice extract utilities', 'content of the extracted bag'],
    check='checks/core_extract.py', technique='property-based testing: generated graphs; reachability over the dumped content as the oracle',
    note=SHIM + 'What happens to an item that is reached with two different schemas is not specified (a TODO in the code) and not decided.',
)

prop(
    'C28', 'Clones equal their originals under new item ids and share no items',
    'For every graph of entities, objects, lists and dicts and every slice of its items (with duplicates and missing items): shallow_clone gives every position its own copy under the new item id (allocated, or the one the caller provides, in any order and from any allocation) with the same attribute values, list items and dict entries; clone also brings along everything reachable, under its old ids; deep_clone gives every reachable item exactly one copy under a new id of the same kind, with the same links between copies as between originals, whatever cycles and sharing there are. Objects keep their explicit schema, or get their own implicit one. The originals and their bags do not change.',
    ['inputs', 'histories'],
    'every graph and slice of its items, and every choice of item ids',
    'Unit tests clone a handful of graphs to ids in order; ids in another order, layered bags and mixed allocations take different paths.',
    ['koladata/operators/core.cc', 'koladata/internal/op_utils/extract.cc', 'koladata/internal/op_utils/deep_clone.cc', 'koladata/internal/op_utils/traverser.h', 'koladata/internal/op_utils/new_ids_like.h'],
    [('mapping from new ids to old ids', 'SetMappingToInitialIds'), ('one new allocation per old one', 'DeepCloneVisitor')],
    observe=['kd.core.shallow_clone', 'kd.core.clone', 'kd.core.deep_clone'],
    check='checks/core_clone.py', technique='property-based testing: generated graphs; isomorphism of the dumped contents as the oracle',
    note=SHIM + 'Deep clones of dicts whose keys are items that cannot be told apart are compared only in part.',
)

prop(
    'C29', 'Merging two bags keeps, replaces or reports every conflicting triple',
    'For every history of writes to any number of bags and their forks: merging bag B into bag A leaves in A exactly the union of both, where a triple (attribute of an item, whole list, entry of a dict, attribute of a schema) that both have is A\'s under keep-original, B\'s under overwrite, and under raise-on-conflict an error iff the two values differ; a removed value counts as a value. Data and explicit schemas follow their own policies. B, all forks of A and B and all other bags do not change, and later writes to A and B stay apart. The update computed from A and B, put in front of A, reads like A with B merged under overwrite.',
    ['inputs', 'histories'],
    'every history of writes, forks and merges',
    'How values are stored (dense, sparse, shared with a parent, all removed, one or several types) depends on the history, and each pair of representations has its own merge code; tests sample a few pairs.',
    ['koladata/internal/data_bag.cc', 'koladata/internal/dense_source.cc', 'koladata/internal/sparse_source.cc', 'koladata/internal/data_list.h', 'koladata/internal/dict.h'],
    [('merge of big allocations', 'DataBagImpl::MergeBigAllocImpl'), ('merge of dense values', 'DenseSource::Merge'), ('computed updates', 'DataBagImpl::CreateOverwritingMergeUpdate')],
    observe=['DataBagImpl::MergeInplace', 'DataBagImpl::CreateOverwritingMergeUpdate'],
    check='checks/core_merge.py', technique='property-based testing: stateful, generated histories over several bags against a model that merges triple by triple',
    note=SHIM + 'After a reported conflict the content of the bag is not specified and not checked.',
)
prop(
    'C30', 'A composed bag holds exactly what its parts hold, the first one wins',
    'For every history of writes to bags and compositions of them: a bag with layers (fallbacks, kd.bags.updated/enriched, kd.core.updated/enriched on slices, nested and repeated layers) reads, triple by triple, as the first layer that has the triple, where a removed value counts and a list is one triple; merging the layers, freezing, forking and with_merged_bag keep that content; merging into a bag unites both under the requested policy or reports a conflict; an adoption queue collects the bags and what is reachable from the slices. Layers and composed bags are immutable, attempts to modify them fail, and no operation (including later writes to a bag that was composed, frozen or forked) changes any other bag.',
    ['inputs', 'histories'],
    'every history of writes and compositions',
    'Sharing between forks, lazily forked bags and flattened fallback graphs make isolation and precedence depend on the history; tests compose two or three fresh bags.',
    ['koladata/data_bag.cc', 'koladata/data_bag.h', 'koladata/adoption_utils.cc', 'koladata/operators/bags.cc', 'koladata/operators/core.cc', 'koladata/internal/data_bag.cc'],
    [('order of flattened layers', 'VisitFallbacks'), ('lazy forks', 'DataBag::FallbackFreeFork'), ('merge of layers', 'MergeFallbacksToForkedImpl'), ('adoption', 'AdoptionQueue::AdoptInto')],
    observe=['kd.bags.updated', 'kd.bags.enriched', 'kd.core.updated', 'kd.core.enriched', 'kd.core.with_merged_bag', 'DataBag::MergeInplace', 'DataBag::Fork', 'DataBag::Freeze', 'AdoptionQueue'],
    check='checks/core_bags.py', technique='property-based testing: stateful, generated histories; the content of composed bags against a composition of the contents of the parts',
    note=SHIM + 'How single writes change one bag is the subject of C18-C22; this check reads it back. A conflict between equal numbers of two types is not specified and skipped.',
)
prop(
    'C31', 'Item ids are unique, and uuids identify exactly their arguments',
    'New item ids (allocations of any size and kind, single items, new_ids_like) never repeat, have the kind asked for and one id per present item. uuid, uuid_for_list, uuid_for_dict and the ids of uu entities and objects depend on the seed and the set of (name, value) pairs of the aligned fields only: not on the order of the fields, the shape or representation of the arguments, or the process; other values, types, names, seeds or kinds give other ids. agg_uuid identifies the sequence of items of each group, uuids_with_allocation_size the seed, size and position. deep_uuid of acyclic data is equal for two items iff what is below them is equal (whatever their ids), and is the same for extracted, merged and deeply cloned data. encode_itemid and decode_itemid are inverse bijections with 22 base62 digits.',
    ['inputs', 'configurations'],
    'every seed, set of fields, shape, group, allocation and acyclic graph',
    'Collisions come from encodings of fields that are ambiguous, from values that are skipped or from ids that are handed out twice; a test sees them only if it happens to compare the right pair.',
    ['koladata/internal/uuid_object.cc', 'koladata/uuid_utils.cc', 'koladata/internal/object_id.h', 'koladata/internal/object_id.cc', 'koladata/operators/ids.cc', 'koladata/internal/op_utils/deep_uuid.cc', 'koladata/internal/op_utils/agg_uuid.cc', 'koladata/internal/op_utils/base62.cc', 'koladata/internal/op_utils/itemid.cc', 'koladata/internal/op_utils/new_ids_like.cc', 'koladata/internal/stable_fingerprint.h'],
    [('fingerprints of sorted fields', 'ComputeFingerPrintFromKwargs'), ('allocation of ids', 'AllocateSingleObject'), ('deep uuids bottom up', 'DeepUuidVisitor')],
    observe=['kd.ids.uuid', 'kd.ids.uuid_for_list', 'kd.ids.uuid_for_dict', 'kd.ids.agg_uuid', 'kd.ids.deep_uuid', 'kd.ids.uuids_with_allocation_size', 'kd.ids.encode_itemid', 'kd.ids.decode_itemid', 'kd.ids.has_uuid', 'kd.ids.is_uuid', 'kd.uu', 'kd.uuobj'],
    check='checks/core_ids.py', technique='property-based testing: generated argument tuples in two processes, a bijection between arguments and ids as the oracle; canonical forms of graphs for deep_uuid; Python base62',
    note=SHIM + 'The stand-in computes the hashes under the fingerprints, so that values that are equal by a defect of the real hash are not seen. Dicts with removed entries are left out of the deep comparison.',
)
prop(
    'C32', 'String operators act item by item like Python\'s string functions',
    'For all slices of STRING or BYTES values: contains, count, length, find, rfind, substr, replace, strip, lstrip, rstrip, join, lower, upper, encode, decode and base64 give for every item what Python\'s function gives for the str or bytes value (offsets and lengths in code points or in bytes), after broadcasting all arguments to the common shape; a missing string makes the item missing, a missing offset, limit or set of characters means the default. split adds one dimension with the parts of each item (none for a missing item) and agg_join removes the last one, so that joining a split slice restores it. STRING and BYTES cannot be mixed in one call, other types are errors, and OBJECT and NONE slices work like the type they hold, keeping their schema.',
    ['inputs'],
    'every slice of strings, bytes, offsets and limits, of every shape',
    'Typed, boxed, empty-and-unknown and scalar arguments take different paths to the evaluation, in every combination of ranks; tests cover a few per operator.',
    ['koladata/operators/strings.cc', 'koladata/operators/arolla_bridge.cc', 'koladata/operators/binary_op.h', 'koladata/operators/unary_op.h', 'koladata/schema_utils.cc', 'koladata/casting.cc'],
    [('evaluation by name over aligned slices', 'SimplePointwiseEval'), ('type checks', 'ExpectConsistentStringOrBytes'), ('new dimension of split', 'Split')],
    observe=['kd.strings.find', 'kd.strings.substr', 'kd.strings.replace', 'kd.strings.strip', 'kd.strings.split', 'kd.strings.agg_join', 'kd.strings.join', 'kd.strings.length', 'kd.strings.decode', 'kd.strings.encode', 'kd.strings.encode_base64', 'kd.strings.decode_base64'],
    check='checks/core_strings.py', technique='property-based testing: generated slices; Python string functions on the nested lists as the oracle; round trips',
    note=SHIM + 'The stand-in also provides find, replace, strip, split and the like on single values, so that only koladata\'s part (types, schemas, missing values, shapes) is decided for these. Regular expressions, printf and format are not covered.',
)
prop(
    'C33', 'Slices survive conversion to JSON and JSON survives conversion to slices',
    'For every slice of valid JSON texts, from_json gives a slice of the same shape in a new immutable bag whose objects, lists and primitives hold exactly what the text says (numbers as INT32, INT64 or FLOAT32 or as the requested type; the last of repeated keys; key order and all values in the lists asked for), and to_json of it is the same JSON, repeated keys and their order included. For every slice with a concrete schema, from_json(to_json(x), schema) equals x up to item ids, for all primitive types and their extreme values; with another entity schema attributes are dropped or missing. Primitives are cast to an explicit schema like kd.schema.cast_to does. to_json gives valid JSON in the requested layout with sorted keys, null (or false for MASK) for missing values, null entries omitted on request, ASCII only on request, and reports cycles, ITEMIDs and schemas as errors. Texts that are not valid JSON, and only those, are errors or become on_invalid.',
    ['inputs', 'configurations'],
    'every JSON text, typed tree, graph, layout and choice of options',
    'Round trips break on particular values, key orders, nested schemas and option combinations; the tests list examples for each in isolation.',
    ['koladata/operators/json.cc', 'koladata/object_factories.cc', 'koladata/casting.cc'],
    [('conversion of parsed primitives', 'JsonNumberToDataItem'), ('objects with key order', 'JsonObjectToEntity'), ('schema of the next value', 'AddJsonObjectKeyAndPrepareNextValueSchema'), ('written entities', 'EntityDataItemToSerializableJson')],
    observe=['kd.json.from_json', 'kd.json.to_json'],
    check='checks/core_json.py', technique='property-based testing: JSON round trips in both directions on generated texts, typed trees and graphs, against an independent strict parser and layout model',
    note=SHIM + 'Integers from 2^63 to 2^64-1 wrap for integer schemas, as upstream tests pin. Numbers beyond double range, lone surrogates and byte order marks are skipped.',
)
prop(
    'C34', 'Protocol buffer messages survive conversion to Koda data and back',
    'For every message type (all field types, presence kinds, oneofs, maps, recursion, extensions, custom defaults, KodaOptions annotations; proto2 and proto3) and all messages of it, from_proto gives one entity per message with exactly the present fields as attributes (fields without presence always), lists and dicts for repeated fields and maps, and the extensions asked for by path, in schemas that depend only on the type and hold exactly the attributes present somewhere; to_proto gives back an equal message, for entities and for objects. With an explicit schema exactly its attributes are filled, cast to its types, with objects from OBJECT on, at every level. schema_from_proto describes all fields and the same extensions, with the full name and custom defaults as metadata. Given item ids, all child ids depend only on the root id and the path. to_proto stores every Koda value that a field can represent exactly and reports all others, missing list items and two fields of a oneof as errors. The descriptor made from a Koda schema is valid, has one field per attribute of a representable type (attribute names being distinct apart from case and underscores) and carries the data there and back. The operators on serialized and JSON messages do the same item by item for every shape, with missing and invalid items.',
    ['inputs', 'configurations'],
    'every message type, message, schema, extension path and list of item ids',
    'The conversion is a recursive product of field type, presence, label, schema and annotation; the tests use one fixed message type with few combinations set.',
    ['koladata/proto/from_proto.cc', 'koladata/proto/to_proto.cc', 'koladata/proto/proto_schema_utils.h', 'koladata/operators/proto.cc', 'koladata/proto/annotations.proto'],
    [('conversion of one message type', 'FromProtoMessage'), ('casts to explicit schemas', 'CastToExplicitForProtoPrimitive'), ('extension paths', 'ParseExtensionInto'), ('checked field values', 'Convert'), ('descriptors of schemas', 'ProtoDescriptorFromSchema')],
    observe=['kd.from_proto', 'kd.to_proto', 'kd.schema_from_proto', 'kd.proto.from_proto_bytes', 'kd.proto.from_proto_json', 'kd.proto.to_proto_bytes', 'kd.proto.to_proto_json', 'kd.proto.get_proto_full_name', 'kd.proto.get_proto_field_custom_default', 'kd.proto.get_proto_attr'],
    check='checks/core_proto.py', technique='property-based testing: generated descriptors and messages; a model against Python\'s protobuf runtime as the oracle; round trips in both directions',
    note=SHIM + 'protobuf C++ is the installed 3.21, so editions are not covered. Integers stored in bool fields, annotations under the OBJECT schema and Any messages are left out.',
)
prop(
    'C35', 'Serialized slices, bags and schemas come back as they were, anywhere',
    'kd.dumps and kd.loads (koladata/s11n) are inverse to each other for every slice (any mix of types, jagged shape, schema, wholeness, with or without a bag), bag (attributes, lists, dicts and schemas after any history; removed and unset values are told apart; forks, frozen bags and layered bags), shape, item and marker, in one message or several, in the same process or another: the same values, shape, schema, bag content per layer, mutability; frozen bags and their slices keep their fingerprint, mutable ones get a new one, values that shared a bag share it again, and the decoded bag behaves under all later operations like the original. Data of many megabytes, stored in parts, included. The stored bytes follow the documented wire format: what an independent writer stores, in any layout the format allows, is read with that meaning, and what is stored is read so by an independent reader, now and with later versions. Malformed messages (inputs missing, superfluous or of the wrong kind, indices out of range, unknown types, values too few or too many, sizes that do not fit, damaged parts) are refused with an error, nothing else.',
    ['inputs', 'histories', 'fault_sequences'],
    'every value, history of the bag before and after, layout of the message and malformation',
    'Encoder and decoder choose between representations by type, size, allocation kind and layers, and stay compatible only if the bytes keep their meaning; the tests round-trip a handful of values with one version.',
    ['koladata/s11n/encoder.cc', 'koladata/s11n/decoder.cc', 'koladata/s11n/codec.proto', 'koladata/internal/data_bag.cc', 'koladata/internal/dtype.h'],
    [('slices by type and part', 'DecodeDataSliceCompactProto'), ('encoded bags', 'EncodeDataBag'), ('attributes of allocations', 'DecodeAttrProto'), ('dicts and schemas', 'DecodeDictProto'), ('layers and ids of bags', 'DecodeDataBagValue')],
    observe=['kd.dumps', 'kd.loads', 'kd.expr.pack_expr'],
    check='checks/core_s11n.py', technique='property-based testing: round trips of generated histories, layers and slices; an independent reader and writer of the pinned wire format; structural fault injection into messages',
    note=SHIM + 'The container of arolla and its own codecs (shapes, expressions) are part of the shim. Known finding: removed and unset values of attribute chunks with equal present values are not told apart.',
)
