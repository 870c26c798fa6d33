# -*- coding: utf-8 -*-
NOTE = ('Sampled, not exhaustive: holds for every generated history of this run (seeded by VERIF_SEED). Trusts the '
        'independent model in the check and PyPy 3.9 as the only interpreter.')

PROPS = []


def prop(id, title, statement, forall, why, files, mechanism, technique, over=('inputs',), note=NOTE, na=None):
    PROPS.append(dict(id=id, title=title, statement=' '.join(statement.split()), forall=' '.join(forall.split()),
                      why=' '.join(why.split()),
                      files=['ngoschema/' + f for f in files.split()],
                      mechanism=[dict(zip(('name', 'where'), m)) for m in mechanism],
                      technique=technique, over=list(over), note=note, na=na))


prop('P01', 'Scalar evaluation yields a typed value within its constraints, or raises',
     """Evaluating a raw value (that is not an expression or a pattern) with a string, integer, number or boolean type
     returns the Python conversion of that value (str, int, Decimal, bool) when it satisfies every declared minimum,
     maximum, exclusiveMinimum, exclusiveMaximum, multipleOf, minLength, maxLength and pattern, None gives the declared
     default (None without one), a constraint failure raises InvalidValue and a failed conversion raises ConversionError.
     The verdict is the same for a type instantiated with keyword constraints, a type built from a schema or
     extended from another (extend_type, or a reference with keywords, the nearest keyword winning), an object property
     (constructed or assigned) and an array item. For a type built from a schema, check (with convert and
     validate) and validate agree with that verdict.""",
     'every scalar schema, every raw value and every entry point',
     'tests/test_types.py evaluates a dozen fixed literals; acceptance and rejection at every bound, for every type pair '
     'and entry point is a statement over all inputs',
     'types/type.py types/numerics.py types/strings.py types/boolean.py protocols/validator.py protocols/converter.py '
     'managers/jsch_validators.py',
     [('conversion then json-schema validation', 'protocols/validator.py Validator._evaluate')],
     'generated scalar schemas and boundary values, online oracle with an independent model of conversion and constraints')

prop('P04', 'Literals are evaluated once, in their context, and converted like any value',
     """Text given to a string, integer, number, boolean, date, uri or path type that starts with a backquote is evaluated as a
     Python expression, and text holding jinja delimiters is rendered, with the names of the evaluation context (keyword
     values, Context mappings with the first one winning, or the sibling properties of an object), afresh at every evaluation.
     The result is evaluated only once (a result that looks like a literal is plain data), then converted and validated like
     any raw value, and an expression that cannot be evaluated raises ConversionError or InvalidValue for the types other
     than text, uri and path.
     Text is kept verbatim when the type declares rawLiterals or raw_literals is asked for, other text is never interpreted, and
     inputs() names every context variable the literal reads and none of the others.""",
     'every expression and template, every context, every scalar type and entry point',
     'the tests evaluate two fixed literals; evaluation order, double evaluation and detection of inputs depend on the literal',
     'types/type.py types/strings.py types/boolean.py utils/jinja2.py utils/utils.py protocols/collection_protocol.py',
     [('literal evaluation', 'types/type.py Primitive._convert'), ('inputs', 'types/strings.py Expr._inputs, utils/jinja2.py')],
     'generated expressions and templates built together with a reference function, online comparison')

prop('P05', 'Enumerated types only ever yield their members',
     """Evaluating a string, an integer or None with an enumerated type (alone, as an object property or as an array item)
     returns one of its members: a member is returned unchanged, an integer or integer string that is a member's value
     gives that member, and otherwise an integer or integer string i with 0 <= i < n selects the i-th member.
     None (an unset property) gives the declared default or else the first member, and the empty string the first member.
     Anything else, including any other index, raises ConversionError or InvalidValue, and validate accepts exactly the
     members.""",
     'every enumeration of strings and/or integers and every string, integer or None',
     'no test exercises enumerations; index bounds and member/index ambiguities only show for particular value sets',
     'types/type.py protocols/type_protocol.py',
     [('enum conversion by value then by index', 'types/type.py Enum._convert')],
     'generated enumerations, online membership and selection oracle')

prop('P02', 'Temporal types read every supported format exactly and refuse the rest',
     """Evaluating text with a date, time or datetime type returns the value the text names for every supported layout
     (day and month layouts of either order separated by dashes, slashes or dots, times with or without seconds, fractions, AM/PM
     or a UTC offset, and for datetimes any day layout followed by a time, or ISO 8601): month layouts name the first day,
     and a datetime keeps its UTC offset.
     Impossible or malformed text (month 13, 30 February, hour 24 or 25, a date given for a time) and values of unrelated
     types raise InvalidValue, and typed values are left alone.
     Without a format the serialization is ISO 8601 and the type reads it back to an equal value; with a format (strftime,
     date tokens, or a name in settings.DATETIME_FORMATS), declared in the schema or given, which wins, it is the value
     written in this format.""",
     'every date, time and datetime, every layout, and every malformed text',
     'the tests parse a handful of fixed strings; months of every length, offsets, fractions and the ambiguity between '
     'layouts cannot be settled by samples',
     'types/datetime.py config/settings.py',
     [('ordered list of layouts', 'config/settings.py DATE_FORMATS, ALT_DATE_FORMATS, ALT_TIME_FORMATS')],
     'generated moments rendered in every layout by the check, online comparison with the moment')

prop('P03', 'Serialized primitives are read back to equal values',
     """For every string, integer, number, boolean, uri and path value, serializing a typed value gives its canonical plain
     form (the geturl of a uri, the text of a path, the value itself for plain scalars) and evaluating that form with the
     same type gives an equal value of the same class.
     An object holding such values flat, nested and in arrays serializes to those forms, and the object rebuilt from its
     serialization equals it and serializes identically.""",
     'every primitive value and object of primitives',
     'the tests round-trip single literals; equality has to hold for all texts, signs, scales, quotings and nestings',
     'types/uri.py types/numerics.py types/type.py types/collection.py types/object.py types/array.py',
     [('serialization per type', 'types/uri.py Uri._serialize, Path._serialize; types/collection.py Collection._serialize')],
     'generated values round-tripped through the real serializers, online equality oracle')

prop('P34', 'Path constraints answer for the file system at evaluation time',
     """Evaluating a path with a path type that declares that it exists, is a directory or is a file (or that it is not)
     returns the pathlib path when the file system satisfies every declared constraint at that moment, and raises a
     validation error otherwise.
     Earlier evaluations never influence later ones, whatever was created or removed in between.""",
     'every history of creations, removals and evaluations',
     'no test creates and removes files around the path types',
     'types/uri.py managers/jsch_validators.py',
     [('custom validators', 'managers/jsch_validators.py isPathDir, isPathFile, isPathExisting')],
     'random file-system histories in a scratch directory, verdict compared with os state at each step',
     over=('histories',))

prop('P07', 'Derived values are never stale',
     """A primitive property holding an expression or a template, or computed by a get_ accessor whose reads are declared in the
     schema dependencies or with depend_on_prop, always reads (as attribute, item, get, through the mapping interface or in the serialization) as
     its definition evaluated on the current values of the properties of the same object it reads, themselves derived or not.
     This holds after every sequence of assignments by attribute, item, alias, dotted path or update(), including
     assignments to properties of a nested object it reads, in place changes of an array it reads or of the objects this array
     holds, and replacements of the literal by another literal or by a value.
     A result that violates the constraints raises InvalidValue when read, and the property is read normally again once the
     values allow it.""",
     'every acyclic dependency graph and every history of assignments and reads',
     'one test reads one derived property after one change; staleness needs particular graphs and interleavings of reads '
     'and writes',
     'protocols/object_protocol.py protocols/collection_protocol.py types/strings.py utils/jinja2.py',
     [('input snapshots', 'protocols/collection_protocol.py CollectionProtocol._is_outdated, _items_inputs_evaluate'),
      ('dependencies', 'protocols/object_protocol.py ObjectProtocol._items_touch')],
     'random dependency graphs and histories, online comparison of every read with a reference evaluation', over=('inputs', 'histories'))

prop('P32', 'Importable types resolve a dotted name to the object Python imports',
     """Evaluating a dotted name with the importable, module, class, function or callable type returns the very object that
     importing the longest module prefix and following the remaining attributes gives (builtins included), an object of
     the right kind is left alone, and serializing it gives its module and qualified name, which resolves to it again.
     A name that resolves to nothing, or an object of another kind, raises ConversionError for module, class, function and
     callable.""",
     'every importable module, class, function and member',
     'tests/test_types_symbols.py resolves a few fixed names and is not among the tests that run here',
     'types/symbols.py utils/_qualname.py',
     [('longest module prefix first', 'types/symbols.py Symbol._convert')],
     'names drawn from the members of real modules, identity oracle against importlib')


prop('P06', 'An object property never reads as a value its type refuses',
     """Whatever way a raw value is given to a declared property (constructor keywords, mapping or create, attribute, item,
     translated name, update or dotted path, lazily loaded or not), the property reads as that value converted to its declared
     type, and only if the converted value satisfies the declared constraints, otherwise ConversionError or InvalidValue is
     raised at the latest when it is read.
     The same holds for names matching patternProperties and for additional properties with a declared type, the other
     properties are not affected by a refused value and the property reads normally again after a valid assignment.
     A name that is neither declared nor allowed as pattern or additional property is refused with KeyError or AttributeError.""",
     'every object schema, value, way of assigning and loading mode',
     'tests assign a handful of values to fixed classes; the verdict over every way in, and after refusals, is a statement over '
     'histories',
     'protocols/object_protocol.py protocols/collection_protocol.py types/object.py',
     [('item evaluation', 'protocols/collection_protocol.py CollectionProtocol._items_evaluate, _set_data_validated'),
      ('item types', 'protocols/object_protocol.py ObjectProtocol._items_type')],
     'random object schemas and assignment histories, every read compared with an independent model of the types',
     over=('inputs', 'histories'))

prop('P08', 'readOnly, required and notSerialized are honoured by every name and way in',
     """A property declared readOnly can be given at construction and afterwards cannot be changed by attribute, item, translated
     name or update: AttributeError is raised and the value stays.
     A required property cannot be deleted by attribute, item or pop, whichever of its names is used (AttributeError or KeyError,
     and the value stays), a property declared notSerialized never appears in do_serialize, and do_serialize(no_readOnly=True)
     leaves out exactly the read only properties that are not required, without changing what later serializations give.
     The same holds for properties restricted in a parent class and in nested objects.""",
     'every object schema, access path and history',
     'no test covers the combinations of restriction, inheritance and way of access',
     'protocols/object_protocol.py protocols/collection_protocol.py types/object.py managers/type_builder.py',
     [('restricted access', 'protocols/object_protocol.py ObjectProtocol.__setattr__, __delitem__, _set_data'),
      ('serialized items', 'types/object.py ObjectProtocol.do_serialize')],
     'random restricted schemas, every way of writing and deleting attempted, oracle from the declared restrictions',
     over=('inputs', 'histories'))

prop('P09', 'All the names and paths of a property denote the same value',
     """The name of a property in its schema, its translated Python name and its aliases read and write the same value (a negated
     alias of a number its opposite), as attribute, as item, with get, with update and at construction, in the class that
     declares them and in its subclasses.
     A dotted path with indices, and a path starting with dots relative to the object, reads and writes what following
     attributes, items and indices step by step does, and a path through a missing name or index raises KeyError as item, gives
     the default with get and is not in the object.""",
     'every schema, name, path and history of writes',
     'tests read one alias and two paths of a fixed object',
     'protocols/object_protocol.py protocols/collection_protocol.py utils/utils.py types/object.py',
     [('name resolution', 'protocols/object_protocol.py ObjectProtocol._properties_translation, __getattr__, __getitem__'),
      ('paths', 'protocols/collection_protocol.py CollectionProtocol._items_set')],
     'random schemas and writes, every name compared with a dictionary of expected values after each write',
     over=('inputs', 'histories'))

prop('P10', 'Objects behave as mappings of their contents',
     """After any sequence of item and attribute assignments, update, setdefault, pop and deletions, the keys an object iterates,
     their number, its items, values, membership and item reads are those of a dictionary of the same history, in which a
     deleted name is missing (KeyError, not in the object) until it is set again.
     Two objects of a class are equal exactly when their contents are, nested objects and arrays included.""",
     'every history of mapping operations',
     'tests never mix deletions, re-assignments and comparisons',
     'protocols/object_protocol.py protocols/collection_protocol.py types/object.py',
     [('mapping interface', 'protocols/object_protocol.py ObjectProtocol.__delitem__, __iter__, __len__, __eq__')],
     'random histories compared step by step with a dictionary', over=('histories',))


prop('P11', 'Defaults: what an unset property reads and what a serialization leaves out',
     """A primitive or array property that was not given reads its default, converted to its type and evaluated on the current
     values when it is an expression or a template: the default comes from the schema or from the class attribute of the same
     translated name (which wins in the same class), the nearest class in the inheritance order first.
     A value given explicitly, be it 0, false, the empty text or the empty array, is never replaced by the default, and changing
     the arrays, nested objects or properties of one instance changes neither the other instances nor the defaults.
     do_serialize leaves out the properties that equal their default (an empty array without declared default), gives
     all the others, and the object built from it reads the same.""",
     'every chain of classes, default and history of instances',
     'one test checks one default; precedence along inheritance, falsy values and independence of instances are statements over '
     'class chains and histories',
     'protocols/object_protocol.py protocols/array_protocol.py types/object.py types/type.py types/array.py',
     [('defaults from class attributes', 'protocols/object_protocol.py ObjectProtocol.build'),
      ('left out defaults', 'types/object.py Object._print_order')],
     'random class chains with schema and attribute defaults, online comparison of reads and serializations with a model',
     over=('inputs', 'histories'))

prop('P12', 'Serialization gives plain data from which an equal object is built',
     """do_serialize gives mappings, lists, texts, numbers and booleans only, from which the class builds an equal object with the same
     values, additional properties, nested objects, arrays and objects of subclasses (marked with $schema) included, and with
     the evaluated values of expressions and templates.
     only= keeps the named properties and excludes= leaves the named ones out, with unchanged values; what a class declares
     notSerialized does not concern the objects it holds.
     Serializing and copying change nothing in the object, the data read from is not modified, and changing the result (the
     collections it holds for declared properties) or the copy does not change the object.""",
     'every object and serialization options',
     'a test serializes a few fixed objects; round trip equality over all the types, nestings and options is a statement over '
     'all objects',
     'protocols/object_protocol.py protocols/collection_protocol.py types/object.py types/collection.py protocols/serializer.py '
     'types/uri.py types/datetime.py',
     [('serialization of items', 'types/collection.py Collection._serialize'),
      ('subclasses', 'protocols/object_protocol.py ObjectProtocol.__new__, _serialize')],
     'random objects of random classes, round trip and selection oracles', over=('inputs',))

prop('P16', 'Arrays behave as lists of values of their item type',
     """After any sequence of append, insert, extend, item and slice assignment and deletion, pop, remove, reverse, clear and
     assignment of the whole array, an array reads (items, negative indices, slices, iteration, length, membership, index and
     count, equality with an array of its class, serialization) as the list of the same history with each item converted to
     the declared item type.
     An item that the type refuses raises ConversionError or InvalidValue: refused by append or insert it leaves the
     array as it was, refused by an assignment only that item raises until it is assigned again, and an index out of range raises
     IndexError.
     One value stands for an array of one item, texts are split when splitString is declared, positional types apply by
     position, and the sequence of the caller is not modified.""",
     'every item type and history of list operations, lazily loaded or not',
     'tests append and read a few items; list histories mixing refusals, slices and moves are not sampled',
     'protocols/array_protocol.py types/array.py protocols/collection_protocol.py',
     [('list interface', 'protocols/array_protocol.py ArrayProtocol.insert, __setitem__, __getitem__'),
      ('item evaluation', 'protocols/collection_protocol.py CollectionProtocol._items_evaluate')],
     'random list histories compared step by step with a Python list', over=('histories',))


prop('P17', 'Queries select exactly the objects which meet the criteria',
     """filter gives, in the order of the source, exactly the non empty objects that meet all the criteria (filter_any_of: at least
     one), exclude and exclude_any_of exactly the others, get the only one (an exception when there are none or several) and
     next the first one: a name asks for a value to be present, name__child=value compares the value of a nested attribute,
     and a trailing operator (lt le eq ne neq ge gt in contains size @n intersects ieq icontains startswith istartswith endswith
     iendswith regex, and not) compares as it says, on texts taken literally except for regex.
     A missing value meets no criterion, negated or not, an attribute named as an operator is read before the operator
     applies, and each object is decided on its own, whatever the objects tested before.
     Text operators and intersects on values of another type raise TypeError whenever the query is read.""",
     'every list of mappings or typed objects and every combination of criteria',
     'tests/test_query.py filters three documents with ten criteria',
     'query.py utils/utils.py',
     [('decision', 'query.py Filter.__call__, _apply_ops_test'), ('paths', 'utils/utils.py get_descendant')],
     'random objects and criteria decided by an independent evaluation', over=('inputs',))

prop('P18', 'Query results: order, distinctness, combinations and independence',
     """However it is read (list, all, count, indices, slices, first, last, membership), and as many times as it is read, a query gives the
     items of its source: only the first of equal ones when distinct, sorted by the order_by path (decreasing when reversed),
     or the other way around when reversed without order.
     union, intersection and difference give the results of the first query followed by those of the others, those that are also in all
     the others, and those that are in none.
     Making a query from another (filters, order_by, reverse, combinations) changes the results of no query and nothing in the
     source, be it a list, a view, an iterator or a generator.""",
     'every source and program of query operations',
     'tests read each query once, and order, reverse, distinct and combine none',
     'query.py',
     [('results', 'query.py Query.result_cache'), ('chained queries', 'query.py Query._chain, filter, union')],
     'random programs of query operations compared with a list model after every step', over=('histories',))


prop('P20', 'A URI designates the value at its JSON pointer in the registered document',
     """resolve_uri gives, for any document registered with register_doc or load_schema and not unregistered since, the value its JSON pointer
     designates (keys with escapes ~0 ~1 and %xx, list indices), from the document registered last under that uri, upper and
     lower case and an empty fragment making no difference.
     A pointer that designates nothing raises InvalidValue, an unregistered uri raises an exception, and scope completes the references
     without document with the one they are in.
     load_schema registers under the id, or failing that the title, and raises SchemaError without both.""",
     'every history of registrations, document and non empty pointer keys',
     'tests resolve a few fixed pointers in documents which never change',
     'resolvers/uri_resolver.py loaders/schemas.py utils/utils.py',
     [('pointers', 'resolvers/uri_resolver.py resolve_fragment'), ('document store', 'resolvers/uri_resolver.py UriResolver._doc_store')],
     'random documents and registration histories, every pointer compared with a walk of the document',
     over=('inputs', 'histories'))

prop('P21', 'References give the types they designate, whatever the order and the cycles',
     """A type loaded by its uri, or reached by references of any length, within or across documents, recursive or not, converts and refuses
     values, gives defaults and nests objects and arrays as the definition designated, whichever definition was loaded first, and
     is the same type each time it is loaded.
     Keywords along a reference (description, default, properties) add to the referenced type.
     A class defined again under the same id or name has the properties of its new schema while the previous class keeps its own,
     inline types (Array(items=), Object(properties=)) have the items they are given, a type whose construction failed
     can be built later, and the schemas given are not modified.""",
     'every graph of definitions and load order',
     'tests load a few acyclic schemas in one order',
     'managers/type_builder.py protocols/type_proxy.py protocols/type_protocol.py types/array.py types/object.py',
     [('types', 'managers/type_builder.py TypeBuilder.build, load'), ('recursion', 'protocols/type_proxy.py TypeProxy')],
     'random graphs of definitions loaded in random orders, values compared with a model of the schemas',
     over=('inputs', 'histories'))

prop('P25', 'Contexts look names up in the innermost map, held objects know their holder',
     """A Context or ReadOnlyChainMap gives for each name the value of the first of its maps that holds it (dicts, other mappings, other contexts,
     None being empty), raises KeyError when none does, and keys, items, length, merged, reversed keys, flattened maps and
     equality all agree with that at any time, after its maps are modified and after append and prepend.
     Children add maps in front and modify no other context, a with statement works on a copy, and find_instance gives the first
     (reverse: last) map of a class.
     Every object held by a typed object, directly, in an array or under a pattern, has it as _parent and the outermost one as _root.""",
     'every history of operations on contexts sharing maps, and of assignments in nested objects',
     'tests build one chain of maps and read it once',
     'utils/utils.py protocols/object_protocol.py types/array.py',
     [('maps', 'utils/utils.py ReadOnlyChainMap, Context'), ('holders', 'protocols/object_protocol.py _parent, _root')],
     'random histories over contexts sharing maps, all views compared with a list of maps after every operation',
     over=('histories',))

prop('P26', 'Registries and case insensitive dictionaries are faithful mappings',
     """CaseInsensitiveDict and UriDict behave as dictionaries where keys that differ by case (for uris, also by an empty fragment) are the same
     key, in any history of set, delete, pop, update, setdefault, popitem and clear.
     What is registered in a Registry is registered in all its parents, and unregistered from them, an absent key raising KeyError;
     a WeakRegistry holds exactly the objects still alive.
     GenericClassRegistry registers a class or function under its name or the one given, returns it unchanged, and
     contains, get (with its default) and item access agree.""",
     'every history of operations on the mappings',
     'tests use none of these mappings directly',
     'utils/utils.py',
     [('dictionaries', 'utils/utils.py CaseInsensitiveDict, UriDict'), ('registries', 'utils/utils.py Registry, WeakRegistry, GenericClassRegistry')],
     'random histories of operations, the whole content compared with a dictionary model after every operation',
     over=('histories',))

prop('P27', 'Collection utilities: dependency order, linearization, paths, brackets',
     """topological_sort puts each node in the level just after the last of its dependencies (self dependencies ignored, dependencies without entry
     first), raises on cycles and leaves its input unmodified; mro and gcs give the linearization and the first common superclass Python would.
     For any nested dictionaries and lists, nested_dict_iter gives the leaves with their joined keys, split_path and get_descendant
     follow any path of keys and indices (None when absent), apply_through_collection visits each element once with its
     container, filter_collection keeps only the names given but the excluded ones in a copy, and grouper, to_list,
     to_none_single_list and is_mapping, is_sequence, is_collection, is_string do what they say.
     Bracket finds every matching pair with its content and what is inside what.""",
     'every graph, class hierarchy, nested collection and balanced text',
     'tests of utilities cover only casts and tokens',
     'utils/utils.py',
     [('order', 'utils/utils.py topological_sort, mro'), ('collections', 'utils/utils.py get_descendant, apply_through_collection')],
     'random graphs, hierarchies, collections and texts compared with direct definitions', over=('inputs',))

prop('P28', 'Decorators apply to every way of calling and hand over exactly what they say',
     """take_arrays calls the function once per item of an array (with its counterpart of the second array, or the only one), gives the results in
     order, flattened if asked, refuses different sizes before any call, and leaves other calls alone; assert_arg hands over the argument
     converted to its type, by position or by name, leaves omitted ones and assert_args=False calls alone and raises before the call
     when the value is invalid: for functions, methods (also of falsy instances), class and static methods alike.
     assert_prop raises AttributeError without calling when a property is missing or None; memoized properties and methods are
     evaluated once per instance and arguments given the same way until reset, never after an error, and keep no instance alive; classproperty is
     computed on the class.
     log_exceptions and log_init change neither results nor errors.""",
     'every signature, way of calling and arguments',
     'tests call a few decorated functions with one set of arguments',
     'decorators.py',
     [('decorators', 'decorators.py take_arrays, assert_arg, memoized_property, memoized_method')],
     'random signatures and calls, the calls received by the function recorded and compared with the expected ones',
     over=('inputs', 'histories'))

prop('P29', 'Threads share counters, sessions, types and classes safely',
     """threadsafe_counter gives each number once, in increasing order for each thread, whatever the threads that call it.
     A scoped session gives the same session to a thread (or scope) until it is removed, never one of another thread, each with its own
     number, and refuses arguments once it exists.
     Threads loading the same or mutually recursive types at the same time get the same working types, and threads using their own
     objects of a class read the values they wrote.""",
     'every schedule of threads',
     'tests are single threaded',
     'utils/utils.py session.py managers/type_builder.py',
     [('counter', 'utils/utils.py threadsafe_counter'), ('sessions', 'session.py scoped_session'),
      ('types', 'managers/type_builder.py TypeBuilder.load')],
     'threads started together with a very short switch interval, their recorded observations judged afterwards',
     over=('schedules', 'programs'))

prop('P30', 'Casts and working directories are undone on every exit',
     """In casted_as an instance has the class of one of its bases, and in working_directory the process is in the directory; both are as before
     when the block is left, normally or by any exception, however nested.
     A class that is not a base is refused with AttributeError and a missing directory with OSError, nothing being changed.
     class_casted_as gives a class with the public members of the base and the other members of the class, neither being modified.""",
     'every nesting of blocks, classes and errors',
     'tests leave one cast normally',
     'utils/utils.py',
     [('casts', 'utils/utils.py casted_as, class_casted_as'), ('directory', 'utils/utils.py working_directory')],
     'random nestings left by errors of all sorts, state compared before and after', over=('histories', 'fault_sequences'))

prop('P33', 'String utilities take texts literally and leave what they format unmodified',
     """multiple_replace replaces every occurrence of the keys (none the beginning of another) in one pass, rreplace the last ones, and split_string
     splits on each of the delimiters, all taken literally, special characters included, in any text.
     shorten, inline and get_unicode give the text cut at the length with dots, on one line, or decoded.
     log_format counts the elements and characters it leaves out, bounded in length for any nested value, and lazy_format gives the
     same text each time it is read; neither modifies its arguments.""",
     'every text, set of keys and value',
     'tests use no string utility directly',
     'utils/str_utils.py',
     [('replacing', 'utils/str_utils.py multiple_replace, split_string'), ('logs', 'utils/str_utils.py log_format, lazy_format')],
     'random texts with special characters compared with direct definitions', over=('inputs',))

prop('P13', 'Classes inherit from all their ancestors, the nearest definition winning',
     """A class has the properties, translated names, pattern properties, accessors, methods, class attribute defaults and schema defaults of all
     its ancestors, given as bases, by extends, or both, in hierarchies with several parents and diamonds: the definition used to convert,
     refuse, compute, default or set a property is the nearest one in the order of python, a redefined property being entirely
     redefined.
     issubclass holds exactly between a class and its ancestors, and an object of a subclass is taken where its parent is expected, in
     properties and arrays, and stays what it is.
     This holds in whatever order mutually referencing definitions are loaded, and neither the parents nor the schemas given
     are modified by building or using children.""",
     'every hierarchy of classes and definitions with a consistent linearization, and every load order',
     'tests define single inheritance between two classes',
     'protocols/object_protocol.py protocols/type_protocol.py managers/type_builder.py protocols/type_proxy.py',
     [('inheritance', 'protocols/object_protocol.py ObjectProtocol.build'), ('waiting types', 'managers/type_builder.py TypeBuilder.load')],
     'random hierarchies compared with python classes holding the same definitions', over=('inputs', 'histories'))

prop('P22', 'Repositories keep one entity per identity, found by its keys',
     """A memory repository keeps, in the order of their first commit, exactly one entity for each identity committed to it (the last
     one committed under it), or only the last entity committed when it is not made for many; an integer key left out is given the first
     value above those in use.
     Membership, resolve_fkey, queries, and resolution by keys or canonical name through the session the repository belongs to (for
     its class and the ancestors of its class) give exactly the entity committed last with these keys, or fail when there is none; other repositories
     and sessions are not affected.
     Entities are serialized, alone or held by other objects, and found in the arrays holding them, by the keys they
     have at that time when asked for.""",
     'every history of commits, with new and changed keys, in the repositories of a session',
     'the only repository test is disabled; identity across replaced, moved and missing keys is a property of histories',
     'repositories/memory_repository.py protocols/repository.py session.py models/instances.py types/foreign_key.py',
     [('commit', 'repositories/memory_repository.py MemoryRepository._commit'), ('look up', 'session.py Session.resolve_fkey'),
      ('serialization by keys', 'models/instances.py Entity._serialize')],
     'histories of commits in several repositories compared with a list model after every commit', over=('inputs', 'histories'))

prop('P31', 'Foreign keys are the keys of entities, and their pointers give these entities',
     """A foreign key given as the keys of an entity, their text, a list of them, or an entity of the class referred to or of a subclass,
     is the value of these keys with the types declared for them (a tuple when there are several), as a property or an item, however it
     is set, serialized and read back as such; None and negative integers are no key, values and entities which give no key of that
     type are refused.
     The pointer of a foreign key gives, at any time, exactly the entity committed last with these keys in the first repository of the
     session of the object having it, and fails when there is none; assigning an entity to it sets the keys.
     This holds for classes referring to themselves and to each other in a document, whatever the order they are loaded in.""",
     'every key type, way of giving keys, and history of assignments and commits',
     'tests evaluate one foreign key with one repository; types of keys, composite keys and cross references are not sampled',
     'types/foreign_key.py managers/relationship_builder.py session.py repositories/memory_repository.py models/instances.py',
     [('conversion to keys', 'types/foreign_key.py ForeignKey._convert'), ('resolution', 'types/foreign_key.py ForeignKey._resolve'),
      ('pointers', 'managers/relationship_builder.py RelationshipDescriptor')],
     'random key types and values given in every way, and histories of commits and assignments against a table of entities',
     over=('inputs', 'histories'))

prop('P36', 'Canonical names of instances follow their holders and resolve back to them',
     """An instance held by another one, directly, in an array or through plain objects, knows it, and its canonical name is made of the
     names of the instances holding it and its own, at any time: after any of them is renamed, replaced, appended, inserted or removed.
     From each of the instances which hold it, resolving the rest of its canonical name (text or list) gives this very object, or the value
     of its attribute the name ends with, by a path of keys and positions leading to it, and a name nothing has is refused.
     Instances are printed with their current name and attributes, and given as attributes of their holder when it declares it.""",
     'every tree of named instances and every history of modifications',
     'tests never use instances; names depend on every holder at the time they are read',
     'models/instances.py contexts/instance_context.py protocols/object_protocol.py protocols/array_protocol.py',
     [('canonical name', 'models/instances.py Instance._canonicalName'), ('resolution', 'protocols/object_protocol.py ObjectProtocol.resolve_cname_path'),
      ('holder', 'contexts/instance_context.py InstanceContext')],
     'random trees of instances modified at random, every name compared with a model and resolved from every holder',
     over=('inputs', 'histories'))

prop('P19', 'Canonical names and identifiers name each other in every namespace',
     """For a definition or a property of a registered document, the canonical name given by a namespace manager is made of the name of
     the most precise namespace containing it (one given to the manager first, else the default name of its document) and of the names of
     the definitions leading to it, and the identifier found for any of its canonical names, absolute or relative to the current
     namespace, is its own; a name is contained by the manager and loads exactly the type its identifier loads, unknown names do neither.
     This holds at any time: after documents are registered, namespaces are added and the current namespace changes, also for names asked
     before that, and for namespaces whose names or uris start alike.
     The types Id and Canonical convert and serialize according to the manager of their context.""",
     'every set of documents, namespaces and histories of additions',
     'the test names one definition with two managers; precision, prefixes and later additions depend on the whole set of namespaces',
     'managers/namespace_manager.py types/uri.py contexts/ns_manager_context.py resolvers/uri_resolver.py',
     [('name of an identifier', 'managers/namespace_manager.py NamespaceManager.get_id_cname'),
      ('identifier of a name', 'managers/namespace_manager.py NamespaceManager.get_cname_id')],
     'random documents and namespaces added one after another, names compared with a table and turned back to identifiers',
     over=('inputs', 'histories'))

prop('P23', 'Files contain what was written, and are read, decoded and described as they are',
     """After a file is written or saved it contains exactly the bytes, or the encoded text, given, after an append what it contained followed
     by them; missing directories are created, a file having already this content is not written again, the other files are left alone, and
     a text which cannot be encoded leaves the file as it was.
     Reading and loading give back the content with the charset, binary mode, encoder (JSON, YAML, XML) and class given to the loader
     or to the call, none of these being kept for later calls or other loaders; missing and undecodable files are refused.
     The size, digest and date of a FileInfo are those of its file, and a Document gives the decoded content and registers it by its id
     exactly while it is loaded.""",
     'every history of writes, appends, saves and reads, content, charset and name of file',
     'no test writes a file; charsets, contents and what is left of the previous operation combine without end',
     'protocols/file_loader.py protocols/loader.py models/files.py serializers/file_serializer.py',
     [('writing', 'protocols/file_loader.py FileSaver._write_file'), ('reading', 'protocols/file_loader.py FileLoader._read_file'),
      ('information', 'models/files.py FileInfo'), ('documents', 'models/files.py Document')],
     'random histories of operations on a scratch directory, compared after each one with a model of its bytes and dates',
     over=('inputs', 'histories'))

prop('P24', 'JSON, YAML and XML texts are read back as the values they were written from',
     """The JSON, YAML and XML serializers write a text which any reader of the format reads as the value given, with the options given,
     and read it back to this value (for XML: to its texts, attributes, repeated elements as lists, names of force_list always as lists),
     however long its texts, leaving the value unmodified; what one serializer or call read or was given does not change what others do.
     The XML parser gives each document its elements, attributes, namespaces and texts before and after children, from strings, bytes, chunks and
     files, whole or streamed item by item; it does not expand entities unless asked.
     Malformed texts, several roots and values without a text are refused.""",
     'every JSON value, XML tree, layout, and options',
     'the tests write and read no text; special characters, lengths, layouts and options combine without end',
     'serializers/json_serializer.py serializers/yaml_serializer.py serializers/xml_serializer.py utils/xmltodict.py',
     [('JSON', 'serializers/json_serializer.py JsonSerializer'), ('YAML', 'serializers/yaml_serializer.py YamlSerializer'),
      ('XML', 'serializers/xml_serializer.py XmlSerializer'), ('XML parser and writer', 'utils/xmltodict.py parse unparse')],
     'random values written and read back, random documents written with liberties and compared with their trees, other parsers as oracles',
     over=('inputs', ))


prop('P39', 'Accessor methods are called when values change, and only then',
     """A set_x method of a class built from a schema is called once, with the converted value the property x already reads as,
     when x is given at construction or by default, after each accepted assignment by any of its names and, for a derived
     property, when it is derived again; with lazy loading it is called at the first read after. It is not called by reads of
     unchanged values or for refused values, its errors are raised to the caller, and what it assigns to other properties is
     read there and reaches their own setters. A del_x method is called once before x is deleted by attribute, item or pop
     with any of its names, and not when x is required or not there; accessors come from the class, its parents or mixins,
     the nearest first.""",
     'every class with accessors and every history of assignments, reads and deletions',
     'tests call no accessor; calls which are missing, doubled, too early or given raw values need histories mixing names, '
     'refused values, lazy loading and derived properties',
     'protocols/object_protocol.py protocols/collection_protocol.py',
     [('descriptors', 'protocols/object_protocol.py PropertyDescriptor.__get__, __set__, __delete__')],
     'accessors recording their calls, compared after each operation of random histories with those a model expects')

prop('P40', 'Validation judges values as their schema says, at every level',
     """For a value whose parts have the declared types, validate with items=True on a type built from a schema returns an
     equal value if every part at every depth, through references and recursive types too, respects the declared constraints
     (bounds, multipleOf, lengths, pattern, enum, const, required, min/maxProperties, propertyNames, dependencies, contains,
     additional and pattern properties, anyOf, oneOf, allOf, not, if), and raises InvalidValue otherwise, each time the same;
     properties named in notValidated are left out at their own level only.
     With items=False it answers for the keywords of the value itself, names those which are broken, and leaves out those
     given by excludes.
     Evaluating raises for the same values as far as bounds, patterns, combinators and additional properties go, gives live
     values do_validate accepts otherwise, and neither modifies the value given.""",
     'every schema made of these keywords and every value of the declared types',
     'tests validate fixed documents; which combinations of keywords, depths and references are really enforced needs '
     'generated schemas and an independent judgement',
     'protocols/validator.py types/collection.py types/object.py types/array.py managers/jsch_validators.py '
     'managers/type_builder.py',
     [('validation of collections', 'types/collection.py Collection._validate'),
      ('keywords', 'protocols/validator.py Validator._errors')],
     'generated schemas and values judged by a reference evaluator of the keywords, online comparison of verdicts')

prop('P38', 'Type checks agree with conversions and evaluations, which give checked values',
     """For every type and every value other than None, check answers True or False, never
     raises and leaves the value as it is: with convert=True it is
     true exactly when convert gives a value, and with validate=True too exactly when evaluate gives one, for scalar and
     enumerated types.
     What convert and evaluate give passes the check of the type and is its own conversion, and collections evaluated are left
     as they are by a second evaluation.
     A value which passes the check of an integer, boolean, string, path or uri type (no literal) is converted to itself.""",
     'every type and every value but None',
     'tests check a few values of the right type; agreement must hold for values nobody thought of giving to a type',
     'protocols/validator.py protocols/converter.py types/type.py types/numerics.py types/strings.py types/boolean.py '
     'types/datetime.py types/uri.py',
     [('checks', 'protocols/validator.py Validator.check'), ('conversions', 'types/*.py _check, _convert')],
     'values of many Python types given to every type, online comparison of the verdicts with what the conversions do')

prop('P35', 'The files, templates and schemas of registered modules are found as theirs',
     """For every module registered, a file of its templates, transforms, objects or static folder, or of a folder registered in
     addition, is found by module/path in the first folder registered which has it and in no other module, files which are not there
     are not found, and its templates (also included by others, and once changed on disk) are rendered from the same files in
     every environment which loads them.
     Every well-formed file of its schemas folder gives a schema, known by its $id or else the name of the file, whatever
     the other files.
     In templates, the filters named after string functions give what these functions give, added globals are known at once and
     hidden by the context, and texts to translate are given as they are.""",
     'every set of modules, of files in them and every order of registrations, names being paths without wildcards',
     'no test registers a module besides the package itself; orders of registration and same names in several folders or '
     'modules are never met',
     'loaders/module.py loaders/schemas.py utils/jinja2.py',
     [('registration and search', 'loaders/module.py GenericModuleFileLoader'),
      ('templates', 'utils/jinja2.py ModulePrefixedJinja2Environment')],
     'packages generated in a scratch folder, registered in random orders, searched and rendered, compared with a model')


prop('P41', 'File and document models give what their files hold, and follow them',
     """The contentRaw of a File or Document is the text of its file, its bytes when binary, and nothing without a file; a Document's
     content is this text decoded by its encoder (nothing if malformed), doc_id the $id it contains, identifier and filename those of
     its path; FileInfo gives the size, digest and dates of its file.
     All follow an assignment of filepath, binary or file, whatever was read before, and unload() makes the file be read again;
     load() makes the document resolvable by its id until unload().
     write() replaces or appends the bytes of the content given, which the document then gives, del_file() removes this file and no other.""",
     'every file and every history of operations',
     'the tests which read files depend on missing models; stale contents need histories',
     'models/files.py protocols/file_loader.py types/collection.py resolvers/uri_resolver.py',
     [('models', 'models/files.py File FileInfo Document')],
     'random histories on scratch files, every read compared with the bytes on disk', over=('inputs', 'histories'))


prop('P42', 'Printing shows what types and values hold, in bounded size, changing nothing',
     """str and repr of an object show its name, and each of its set properties that differs from its default (repr: without readOnly ones) with
     the value last read, or given if not read; of an array its items in order; of an instance its canonical name and required
     properties, of an entity its current keys.
     At most 10 elements are shown, each cut at 40 characters with dots, and the others are counted; a type shows all its keywords, which
     make an equivalent type (cut at 100 characters), and the errors of refused values always print.
     Printing never fails, whatever is held, and no value read, serialized or compared afterwards is different.""",
     'every class, contents and history, printed at any time',
     'tests never check what is printed, which logs and errors rely on',
     'protocols/object_protocol.py protocols/array_protocol.py protocols/type_protocol.py protocols/collection_protocol.py models/instances.py utils/str_utils.py',
     [('protocols', 'protocols/object_protocol.py __str__ __repr__')],
     'printed texts compared with those made from the values read; twins, one printed and one not, compared', over=('inputs', 'histories'))

prop('P43', 'Loaders, savers and converters give what they are made for, however called',
     """A Loader gives an instance of its class, or of the class given with the call (not kept for the next), holding exactly the content,
     a list of them with many, or the content itself without a class; refused contents are refused the same way.
     A Saver gives the value, loaded when asked, and file loaders (json and yaml repositories too) and savers do the same with the decoded
     content of files.
     Calling a loader, saver, resolver, converter, checker or transformer gives what its method gives, and leaves unmodified what it is
     given.""",
     'every class, content and options, by calls or methods, one after another',
     'the tests load one file with one class; options kept from one call to the next show only in histories',
     'protocols/loader.py protocols/file_loader.py protocols/resolver.py protocols/converter.py protocols/checker.py protocols/transformer.py',
     [('load', 'protocols/loader.py Loader._load'), ('save', 'protocols/loader.py Saver._save')],
     'random histories of loads and saves compared with the contents and with instances made directly', over=('inputs', 'histories'))

prop('P44', 'Using the library leaves the process as it was and keeps nothing dropped',
     """Building types and calls on types, objects, files, queries and repositories, whether they succeed or fail, leave as they were the
     decimal context, locale, working directory, environment, import path, warning filters, random state, signal handlers, umask,
     recursion limit and root logger of the process.
     Files opened by a call and threads started by it are closed and ended when it returns or fails, and nothing is written in the
     working directory.
     Objects, repositories and sessions which are no longer referenced are freed, and the registries of the library do not grow with the
     objects made.""",
     'every operation, succeeding or failing, in every state of the process',
     'tests run in a fresh process and never look at what is left in it',
     'types/numerics.py protocols/file_loader.py models/files.py session.py registries.py utils/utils.py',
     [('decimal context', 'types/numerics.py Number._evaluate'), ('sessions', 'session.py _sessions')],
     'the state of the process is marked before and compared after cases of all the other workloads; descriptors, weak references and sizes of containers',
     over=('inputs', 'histories'))

prop('P45', 'Types registered by the user behave as the types of the library',
     """A type registered with register_type (derived from a type of the library or from Primitive, extended or not) is used wherever a
     schema says its name: as an instance, a built type, a property, an item of an array, an additional or pattern property, an assigned
     value, an expression and a default, its conversion being applied, its keywords and those of the schema enforced (the nearest wins),
     and its serialization written and read back to the same value.
     is_type and check tell its values from those of other types.
     Registering another type under the name concerns only the types built afterwards, and types of the library are never changed.""",
     'every registered type, keywords and value, in every place a schema can name a type',
     'tests use a few types of the library and register none',
     'managers/type_builder.py protocols/type_protocol.py types/type.py types/object_protocol.py types/array_protocol.py',
     [('registration', 'managers/type_builder.py TypeBuilder.register_type'), ('keywords', 'protocols/type_protocol.py TypeProtocol')],
     'values read, refused and serialized at random places of random types are those of the conversion and keywords of the type, computed apart',
     over=('inputs', 'configurations'))

prop('P46', 'Command line applications find their commands and give them their options',
     """ComplexCLI lists as commands exactly the cmd_*.py files of its folder (underscores written as dashes, sorted), those added while it
     runs included, finds every one it lists under its name, and finds no other.
     Under base_cli, the command asked is called exactly once with its arguments and the home, verbosity and logging level of the options
     (their defaults otherwise), resolves paths against its home, and writes its messages as they are on the error output, the verbose
     ones only when asked, while options which are not understood call nothing.
     run_cli prints what the command prints on both outputs, and tells the error when it fails.""",
     'every folder of commands, every order of options, every current directory and every history of calls',
     'tests run no command line',
     'cli/__init__.py',
     [('commands', 'cli/__init__.py ComplexCLI'), ('options and environment', 'cli/__init__.py base_cli, CliEnvironment, run_cli')],
     'what each command recorded of its call and what was printed compared with an independent model of the command line, over histories',
     over=('inputs', 'histories', 'configurations'))
