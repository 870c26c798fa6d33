# -*- coding: utf-8 -*-
"""what decides each property: monitored points, oracle, bounds"""
D = {
'P01': 'Every raw value is given to six entry points (type, built schema, property at construction, property assigned, array item, check/validate); '
       'an independent model of conversion and of each constraint says the value, InvalidValue or ConversionError. Values are drawn at and around each bound.',
'P02': 'A model parses every supported format from the components which made the text; texts with one broken component must be refused.',
'P03': 'Serialized text is read back by the same type and compared with the value; files and the current directory are in a scratch folder.',
'P04': 'Expressions and templates are generated together with a Python closure giving their value from the environment.',
'P05': 'A set of members is the oracle; every value, index and literal is tried through every entry point.',
'P06': 'After every operation, accepted or refused, each property is read and judged by the constraint model; dictionary model for the values.',
'P07': 'A dependency graph model recomputes every derived property after each change; raw, attribute and item reads are compared.',
'P08': 'A dictionary with the declared restrictions says which operations are refused and what is serialized.',
'P09': 'All spellings of one property (raw, translated, alias, negated alias, dotted path, index) are read after each write through one of them.',
'P10': 'A python dictionary receives the same operations; keys, order, values, equality and copies are compared after each.',
'P11': 'A model of the declared and class defaults, of what was set and unset, and of what must be left out of the serialization.',
'P12': 'The serialization is compared with a plain data model for each combination of options, and an equal object is built from it.',
'P13': 'Python classes with the same definitions (plain attributes) are the oracle of resolution order; schemas given are compared with copies.',
'P16': 'A python list of converted values receives the same operations.',
'P17': 'Criteria are generated together with a predicate over the plain data.',
'P18': 'Results of operation chains are compared with lists computed from the plain data; every query is read again at the end.',
'P23': 'A dict of paths and bytes is the model of a scratch directory: after each operation every file is read by the harness and the dates of the unwritten ones compared.',
'P24': 'JSON texts against the json module, XML trees written by the harness (CDATA, references, padding, chunks) and texts read by ElementTree.',
'P19': 'A table of definitions with their fragments, and of the namespaces declared: the names with the longest uri, turned back to identifiers.',
'P20': 'A table of registered documents and an independent JSON pointer resolver.',
'P21': 'References are expanded by an independent resolver; the types built are compared by what they accept, whatever the load order.',
'P22': 'A list of (keys, entity) per repository is the model; content, membership, look ups through repository, session and queries after every commit.',
'P25': 'Lists of dictionaries looked up from the innermost to the outermost.',
'P26': 'Python dictionaries with normalized keys; weak references observed after collection.',
'P27': 'Reference definitions (permutation respecting the edges, C3 by python itself, list algorithms).',
'P28': 'Undecorated functions are the reference; calls are recorded with their arguments, log records are captured.',
'P29': 'Threads run with a short switch interval and barriers; recorded histories are judged for uniqueness, isolation and conservation.',
'P30': 'State is recorded before and compared after, with exceptions raised at each point, including nested uses.',
'P31': 'The keys an entity was built with are the expected foreign keys, however given; a table of commits says which entity a pointer gives.',
'P32': 'Python import machinery (importlib, getattr) is the oracle.',
'P33': 'Reference functions on characters; equal results on repeated formatting.',
'P34': 'os.path on a scratch tree changed between evaluations.',
'P36': 'A tree of names and positions is the model, every instance of it is read again after every modification.',
'P39': 'Accessors of random classes (own, inherited, overridden, from mixins, eager and lazy) record every call; after each operation the calls are compared with those of a model.',
'P40': 'A reference evaluator of the keywords on plain data: the verdict of validate, of the evaluation of a copy and of do_validate on the live result are compared with it, at every depth and through recursive references; messages name the keywords broken.',
'P38': 'Consistency of verdicts: check in its three forms, convert and evaluate are asked about the same value, of a pool of Python values of every kind, and what they give is given back to them.',
'P35': 'Packages written in a scratch folder: a model of the folders registered says which file each name designates; rendered templates, schemas and filters are compared with the files and with reference functions.',
'P41': 'Histories of files rewritten, written by the document, reassigned, loaded and unloaded in a scratch folder, with relative paths too: a model of the folder (bytes each path has held) says what every model may give; digests, sizes and dates from hashlib and os.stat.',
'P42': 'Random objects, arrays, expressions, instances, entities and types printed at random points of histories; the texts are rebuilt from the values read and the documented limits, and twins which are never printed must stay equal.',
'P43': 'Loaders, savers, resolvers, converters, checkers and transformers made with random options are called and used by their methods, one after another, options given with some calls only; results are compared with the contents, with instances made directly and with the files as json/yaml read them, and what was given with copies of it.',
'P44': 'Cases of every workload of the other properties (what they judge is left to them), every method of every type with any value, and histories of files (undecodable, malformed, missing) are run in a process whose state has been given random marks (decimal precision and rounding, locale, a working folder, variables, filters, levels, limits), compared afterwards with descriptors of /proc/self/fd and threads; objects put through reads, copies, queries, sessions... are dropped and watched by weak references after collections, and the sizes of all the containers of the modules and classes of the library compared.',
'P45': 'Random types (text and integer types with a conversion and keywords of their own, a type of a class unknown to the library) are registered, used in random places and registered again under their name; an independent model applies the conversion and the keywords and says what reads, is refused and is serialized.',
'P46': "Folders of generated command files (beside files which are not commands, added to while the application runs) are served by ComplexCLI under base_cli; each command records its environment, its arguments, its verbosity, its home and the level of the root logger, and prints what it was asked on both outputs. A history of command lines (options in any order and form, from any current directory, failing or raising commands, misused options) goes through click's runner and through run_cli, and an independent model says what is listed, what the command received once, the exit code, what is printed where, and that misuse calls nothing.",
'P46': 'Folders of generated command files (beside files which are not commands, added to while the application runs) are served by ComplexCLI under base_cli; each command records its environment, arguments, verbosity, home and the level of the root logger, and prints on both outputs. Histories of command lines (options in any order and form, any current directory, commands which fail or raise, misused options) go through the runner of click and through run_cli, and an independent model says what is listed, what the command received and how often, the exit code and what is printed where.',
}
