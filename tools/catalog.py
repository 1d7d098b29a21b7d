#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = 'ts2pythonParser.py'
ABS = ('static: trace-partitioned abstract interpretation of the transpiler source over grammar-derived document '
       'skeletons with unknown names; rule checked on the inferred output template')
NOTE = ('Decided from the current source on every run: the parser table, the AST-transformation table and every compiler '
        'method are read and interpreted abstractly (names and string contents are unknowns, branches on unknowns split '
        'the path); nothing of ts2python is imported or executed. Exhaustive over the enumerated skeletons '
        '(type forms x positions, declaration kinds, member pairs), hence for every document of these shapes with any '
        'distinct names; nesting deeper than the enumerated depth is extrapolated. Trusts the models of DHParser 1.8.0 '
        'and of the standard library in sa/.')
T = []


def prop(pid, title, statement, over, text, why, mech, files=(P, 'ts2python.ebnf'), technique=ABS, note=NOTE,
         na=None, thorough=True, state=None):
    T.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, mech=mech, files=files,
                  technique=technique, note=note, na=na, thorough=thorough, state=state))


IN, CF, HI = 'inputs', 'configurations', 'histories'

prop('C01', 'Every supported document is transpiled without rejection or crash',
     'A document written in the subset of TypeScript that the shipped grammar describes (interfaces, classes, type aliases, enums, namespaces, '
     'modules, constants, functions, with any nesting of the type constructors) is accepted without a syntax error, and its '
     'transpilation ends with Python source text, never with an exception or an internal error, whatever names, order and '
     'nesting it uses and whatever rendering options are set.',
     [IN, CF], 'all documents of the supported grammar, all combinations of the rendering options',
     'The tests transpile a few dozen fixed documents; type forms, positions and options combine multiplicatively.',
     [('grammar, transformation table', f'{P}: ts2pythonGrammar, ts2python_AST_transformation_table'),
      ('compiler methods', f'{P}: ts2pythonCompiler.on_*')])

prop('C02', 'Nothing is lost, invented, duplicated or reordered by the transpilation',
     'Every interface, class, alias, enum, enum item, namespace, constant, property, method and function of the source '
     'document occurs exactly once in the generated module, under its own name (or the documented replacement of a reserved '
     'name), in the corresponding scope and in source order. The generated module declares nothing else, apart '
     'from its fixed header, type variables, and the classes made for anonymous interfaces.',
     [IN, CF], 'all supported documents, all rendering options',
     'The tests compare a handful of outputs; a drop can depend on the combination of member kinds, siblings and position.',
     [('member and declaration compilation', f'{P}: on_declarations_block, on_document, on_enum, on_virtual_enum, on_namespace')])

prop('C03', 'Declarations are translated independently of their neighbours',
     'The meaning of the code generated for a declaration depends only on that declaration and on which names are already '
     'declared before it: putting unrelated declarations before or behind it never changes, mixes up, or drops its members, '
     'its generated helper classes, its optional fields or its overload marks.',
     [IN, CF], 'all sequences of declarations',
     'Interference needs two particular neighbours (state leaking from one declaration into the next); tests sample few pairs.',
     [('compiler state per declaration', f'{P}: local_classes, optional_keys, obj_name, scope_type, known_types, overloaded')])

prop('C04', 'The result depends only on the document and the configuration',
     'Transpiling a document yields the same module and the same messages as in a fresh process, whatever documents have been transpiled '
     'before by the same process, with whatever options, and whether these transpilations succeeded or were aborted by an error. '
     'Neither does the result depend on the iteration order of sets, i.e. on the hash seed of the process.',
     [HI, CF], 'all sequences of documents, options and aborted transpilations',
     'The tests run every transpilation once and in a fixed order; the compiler object is a singleton whose state survives.',
     [('initialisation of the compiler', f'{P}: ts2pythonCompiler.reset'),
      ('collections of unknown types', f'{P}: compile_type_expression')],
     state=[('compiler attributes', 'known types, scopes, local classes, optional keys', f'{P}: ts2pythonCompiler')],
     technique='static: abstract interpretation of the transpiler over sequences of documents with unknown names, configurations '
               'and aborted transpilations; the inferred output is compared with that of a fresh state')

prop('C05', 'Names that are reserved words of Python are replaced everywhere and consistently',
     'If a TypeScript name, in whatever role (property, parameter, type, alias, enum, enum item, namespace, function, method, constant, '
     'type parameter, part of a qualified name), is a reserved word of Python, the generated module is nevertheless valid Python: the name occurs with an '
     'appended underscore at its declaration and at every reference, also inside forward references and in the names of derived classes.',
     [IN, CF], 'all Python keywords x all positions of names',
     'The tests contain one or two reserved names; there are 35 keywords and more than 30 positions.',
     [('renaming of reserved words', f'{P}: on_identifier, on_name, on_type_name, on_variable')])

prop('C06', 'Every name used in the generated module is bound',
     'Importing the generated module raises no NameError caused by the transpiler: every type name, helper class, type '
     'variable, decorator and imported object that the generated code evaluates is defined or imported by the module itself, '
     'except for names the TypeScript document itself leaves undefined, and these occur only inside quoted references.',
     [IN, CF], 'all supported documents, all rendering options (imports depend on them)',
     'The tests execute few outputs; missing imports show only with the feature that needs them.',
     [('module header', f'{P}: on_root, GENERAL_IMPORTS, TYPEDDICT_IMPORTS, PYDANTIC_IMPORTS'),
      ('known types, quoting', f'{P}: is_known_type, on_type_name, on_generic_type')])

prop('C07', 'Basic types, literals and well-known names are mapped as documented',
     'string, number, integer, boolean, null, void, any, unknown, object and array, literal types, and the well-known library types '
     '(undefined, Array, ReadonlyArray, Thenable, Error, RegExp, IterableIterator, Uint32Array) are mapped to their '
     'documented Python counterparts at every place where a type may stand; any other type name is kept.',
     [IN, CF], 'all basic types and references in all positions of types',
     'The tests check some basic types in some positions only.',
     [('type name substitution', f'{P}: on_basic_type, on_type_name, TYPE_NAME_SUBSTITUTION, on_literal, on_type')])

prop('C08', 'Optional and required members are marked as such',
     'A property or parameter is marked as optional in the generated code if and only if it is marked with "?" in the source, or its own type admits '
     'null or undefined; the class-level totality and the per-field marks agree with the chosen notation '
     '(Optional or NotRequired), at every nesting level.',
     [IN, CF], 'all types x optional marks x member kinds x notation options',
     'The marks result from string manipulation of already rendered types, so that nested forms decide; tests hold few of them.',
     [('optional fields', f'{P}: on_declaration, on_optional, optional_keys, render_class_header, on_argument')])

prop('C13', 'References to later declarations are deferred',
     'A type that is referred to before its declaration (later in the document, or within its own declaration) occurs in the generated code '
     'only in a form that Python does not evaluate at that place, so that importing the module works for every '
     'order of declarations.',
     [IN, CF], 'all orders of declarations, all positions of references',
     'The order of declarations and the position of references combine; tests have few forward references.',
     [('quoting of unknown types', f'{P}: on_type_name, is_known_type, on_generic_type, render_union')])

prop('C14', 'Type constructors keep their structure and their component types',
     'Arrays, tuples, unions, mapped types, index signatures, generic types, parenthesised types and function types are '
     'rendered as the corresponding Python types with the translations of their components in the same roles and the same number, in every '
     'position and to any depth of nesting; no alternative of a union, element of a tuple, parameter or type argument is lost, added or exchanged.',
     [IN, CF], 'all type constructors x component types x positions',
     'Compositionality over nested type forms; the tests hold a few dozen concrete types.',
     [('type rendering', f'{P}: on_type, on_types, on_array_of, on_generic_type, on_mapped_type, on_func_type, on_type_tuple, render_union')])

prop('C15', 'The generated module is syntactically valid Python',
     'The generated module is always valid Python: statement layout and indentation survive every nesting of interfaces, '
     'namespaces, modules and anonymous interfaces, empty bodies get a placeholder, and quoted references stay well-formed.',
     [IN, CF], 'all supported documents, all rendering options',
     'Outputs are assembled by text replacement; the tests parse few of them.',
     [('text assembly', f'{P}: on_declarations_block, on_interface, on_namespace, render_local_classes')])

prop('C16', 'Enum items and constants keep their values and their enum nature',
     'An enum item or constant has exactly the value written in the source; items without a value get an automatic value; '
     'enumerations and namespaces of constants become Enum or IntEnum classes according to their values, or plain '
     'classes if enums are switched off, and their items are members, not annotations.',
     [IN, CF], 'all literals x item positions x enum options',
     'The tests have few literals; the enum class depends on the set of all values.',
     [('enums', f'{P}: on_enum, on_item, on_virtual_enum, on_const, on_literal')])

prop('C17', 'Class headers: bases, type parameters, kind and decorator',
     'The class generated for an interface or class has the translations of its base types as bases in source order, declares its type parameters, '
     'is a TypedDict (or has the configured base class) exactly if it has no methods and all its bases are such, and '
     'carries the configured class decorator.',
     [IN, CF], 'all headers x member kinds x base kinds x options',
     'The kind of a class depends transitively on its bases and members; tests hold few such combinations.',
     [('class header', f'{P}: on_interface, render_class_header, bases, process_type_parameters, typed_dicts')])

prop('C18', 'Signatures of functions and methods are preserved, overloads are all registered',
     'Every function and method keeps its parameters in order, with their types, defaults for optional parameters, rest parameter '
     'and return type; methods receive self, functions do not. If a function or method is overloaded, one dispatcher is generated and each further '
     'signature is registered with it without overwriting it; functions that are not overloaded carry no such decoration.',
     [IN, CF], 'all parameter lists x scopes x overload patterns',
     'Overload handling depends on siblings and scope; the tests have few patterns.',
     [('functions', f'{P}: on_function, on_arg_list, on_argument, on_arg_tail, mark_overloaded_functions')])

prop('C23', 'The declarations of a generated module can be executed',
     'When a generated module is imported, and when its quoted references are resolved later, no TypeError arises from the generated '
     'declarations: every generic class or alias is given as many type arguments as it takes and nothing else is, '
     'the base classes of every class can be combined, and types and quoted references are never combined in a way that Python rejects.',
     [IN, CF], 'all supported documents, all rendering options',
     'Whether a declaration can be executed depends on how other declarations it refers to have been rendered; tests execute few modules.',
     [('class headers, type variables', f'{P}: on_interface, process_type_parameters, render_class_header'),
      ('aliases, unions, generic types', f'{P}: on_type_alias, render_union, on_generic_type, compile_type_expression')])

prop('C29', 'Types that are only approximated are announced',
     'Whenever a type of the source cannot be expressed and is replaced by something wider (intersections, indexed access '
     'types, keys taken from another type), wherever it occurs, the transpiler reports a notice or warning for it.',
     [IN], 'all approximated types x positions',
     'The tests look at the messages of one or two positions.',
     [('warnings', f'{P}: on_intersection, on_indexed_type, on_index_signature, new_error')])

prop('C30', 'Rendering options take effect everywhere and only where they should',
     'Each rendering option (type unions, literal types, NotRequired, variadic generics, enums, base class, class decorator, anonymous '
     'interface style) changes the generated code at every place it concerns, and newer language features are never used '
     'when their option is off.',
     [CF, IN], 'all options x declarations x types',
     'The tests set few options on few documents.',
     [('options', f'{P}: ts2pythonCompiler.reset and its uses')])

prop('C31', 'Names are never torn apart at embedded keywords or type names',
     'A name that merely begins with a keyword or with the name of a basic type (such as "letter", "stringify", "readonlyFlag", "newest", "inner") '
     'is treated like any other name in every position where a name may stand.',
     [IN], 'all keywords and basic types of the language x suffixes x positions',
     'The tests use ordinary names; about 30 prefixes times 30 positions.',
     [('word boundaries in the grammar', 'ts2python.ebnf: basic_type, literal, keywords; ts2pythonParser.py: ts2pythonGrammar')])

prop('C32', 'Comments and layout never change the generated code',
     'Line breaks, indentation, and comments, wherever they stand between two tokens, do not change what the generated code declares, '
     'whether or not comments are kept, and never lead to rejection or a crash.',
     [IN, CF], 'all positions between tokens x kinds of comments, layouts',
     'The tests have comments in customary places only.',
     [('whitespace and comments', 'ts2python.ebnf: @whitespace, @comment; ts2pythonParser.py: on_comment__, keep_comments')])

prop('C33', 'Anonymous interfaces become properly named, linked classes',
     'Each anonymous interface (in a property, parameter, return type, alias, constant, union, array or map) yields exactly one class with exactly its own '
     'members, which is rendered in the configured style, visible where it is referred to, and referred to at the '
     'place of the anonymous interface; several of them in one declaration are kept apart.',
     [IN, CF], 'all nestings of anonymous interfaces x positions x rendering styles',
     'Naming and placement depend on nesting, position and siblings.',
     [('local classes', f'{P}: render_local_classes, render_declarations, on_type, on_types, obj_name, local_classes')])

JV, TD, SD = 'ts2python/json_validation.py', 'ts2python/typeddict_shim.py', 'ts2python/singledispatch_shim.py'
ABV = ('static: abstract interpretation of the validator source with unknown JSON values, refined by the questions the code '
       'asks (value-set partitioning); every path is compared with the meaning of the type')
NOTEV = ('The module source is read from /repo and interpreted abstractly on every run; JSON values are unknowns (kind, '
         'length, keys, equality are split only where the code asks), so one case covers all values. Exhaustive over the '
         'enumerated type expressions and class styles; deeper nesting is extrapolated. Python\'s typing, inspect and '
         'functools modules are used as models of themselves. bool where a number is expected and type arguments of generic '
         'TypedDicts are not judged.')

prop('C19', 'Validation accepts exactly the JSON values of a type',
     'validate_type() passes every JSON value that conforms to the annotated type (TypedDicts, unions, literals, enums, arrays, '
     'tuples, maps, nested in each other) and reports every value that does not conform, at any depth, with a TypeError '
     '(or a ValueError for enums).',
     [IN], 'all JSON values x type expressions x ways to declare a TypedDict',
     'Soundness and completeness over an infinite set of values and nested types; the tests sample a few pairs.',
     [('validation', f'{JV}: validate_type, validate_compound_type, validate_uniform_sequence, validate_TypedDict')],
     files=(JV, TD), technique=ABV, note=NOTEV)

prop('C20', 'Checked functions judge every argument and the return value',
     'A function decorated with type_check raises if and only if one of its arguments, however it is passed (by position, by keyword, as '
     'default, as rest-argument), or its return value does not conform to its annotation; otherwise the '
     'function is called once with unchanged arguments and its return value is passed through.',
     [IN], 'all parameter kinds x ways of passing x argument values',
     'Parameter kinds and call forms multiply; the tests cover few.',
     [('decorator', f'{JV}: type_check')], files=(JV,), technique=ABV, note=NOTEV)

prop('C21', 'A verdict depends only on value and type, and validation changes nothing',
     'Validating a value yields the same verdict whatever has been validated before (with success or failure), and leaves the '
     'value, the type, and the annotations of the classes unchanged.',
     [HI, IN], 'all pairs of earlier and later validations',
     'Caches and evaluated annotations could carry over from earlier validations; tests start from fresh state.',
     [('state', f'{JV}: validate_TypedDict, module-level state')], files=(JV, TD), technique=ABV, note=NOTEV)

ABT = ('static: abstract interpretation of the TypedDict replacement on class declarations with unknown field and type names; '
       'rule on the resulting key sets')
NOTET = ('The metaclass is interpreted abstractly from the current source; field names and class names are unknowns. Exhaustive '
         'over the annotation forms x class hierarchies listed in sa/shims.py. typing.py is used as a model of itself.')

prop('C22', 'TypedDict shim: every field is required or optional, never both',
     'The required and optional keys of a class derived from the TypedDict replacement partition all of its fields, inherited and '
     'redeclared ones included; a field is optional exactly if its annotation is NotRequired or a union with None, '
     'evaluated or quoted, and never because None occurs somewhere inside of its type.',
     [IN], 'all annotation forms x class hierarchies x names',
     'The decision for quoted annotations is a string analysis; tests have few forms and hierarchies.',
     [('metaclass', f'{TD}: _new_typed_dict, _TypedDictMeta'), ('quoted annotations', f'{TD}: _union_with_None')],
     files=(TD,), technique=ABT, note=NOTET)

prop('C24', 'TypedDict shim: all ways to declare a TypedDict agree',
     'Classes declared with class-syntax, with the functional syntax (dictionary or keywords), or in modules with postponed evaluation of '
     'annotations have the same fields and the same required and optional keys, and belong to the module that declares them (where types they '
     'refer to by name are looked up); they are recognised by is_typeddict() and calling them returns a plain dictionary.',
     [IN], 'all annotation forms x ways of declaration',
     'Tests use mostly the class-syntax.',
     [('functional syntax', f'{TD}: TypedDict, _TypedDictMeta.__new__'), ('predicate', f'{TD}: is_typeddict')],
     files=(TD,), technique=ABT, note=NOTET)

ABD = ('static: abstract interpretation of the single-dispatch replacement through event histories over an unknown class '
       'hierarchy; rule on the implementation selected on every path')
NOTED = ('The module is interpreted abstractly from the current source; the hierarchy of the classes (kind-of facts, search order, '
         'abstractness) is unknown and split only where the code or the rule asks. Exhaustive over the annotation forms and '
         'over histories of up to three registrations with all positions of declarations and several of calls; functools._find_impl is '
         'modelled by its contract (the first registered class in the search order), typing is used as a model of itself.')

prop('C25', 'Single dispatch: the most specific registered implementation is called',
     'A call of a generic function ends up in the implementation that was last registered for the most specific class of its first '
     'argument, no matter in which order implementations were registered, when the classes they refer to by name were declared, which calls '
     'were made before, or whether the classes were named directly, in a union, or as generic type. A reference that is still unknown is '
     'reported by a NameError and never ignored.',
     [HI, IN], 'all histories of registrations, declarations, calls x class hierarchies x annotation forms',
     'Postponed registrations and the dispatch cache make the outcome depend on the history; tests have few of them.',
     [('dispatch and registration', f'{SD}: singledispatch.dispatch, register, register_postponed, _dispatch_classes')],
     files=(SD,), technique=ABD, note=NOTED,
     state=[('registry', 'implementations per class, postponed registrations', f'{SD}: singledispatch'),
            ('dispatch_cache', 'implementations found earlier', f'{SD}: singledispatch')])

prop('C26', 'Single dispatch: methods, arguments, results, and registration errors',
     'Generic methods (also class- and static methods) dispatch like generic functions and bind their receiver; implementations receive all '
     'arguments unchanged and their result is passed through; register() returns the registered function. '
     'Anything that is no class and carries no usable annotation is rejected with a TypeError and changes nothing.',
     [HI, IN], 'all kinds of methods x annotation forms x histories',
     'Binding, registration and dispatch interact; the tests have plain methods only.',
     [('methods', f'{SD}: singledispatchmethod'), ('wrapper', f'{SD}: singledispatch.wrapper, register')],
     files=(SD,), technique=ABD, note=NOTED)


ABC = ('static: abstract interpretation of the command line program over a model of files, processes and configuration with '
       'unknown file names and contents; rules on the resulting files, messages and exit code')
NOTEC = ('The driver part of ts2pythonParser.py is interpreted abstractly from the current source; the file system, process pools, '
         'argument parser and configuration of DHParser are modelled (sa/cli.py), names and contents are unknowns. Exhaustive over the '
         'listed options, file layouts, outcomes and histories; no concurrent writers are considered.')

prop('C09', 'Every way to set an option has the promised effect, in every process',
     'Options given on the command line (-k, -a, -d, -b, -c, -p with PEP numbers, names or "~" exclusions) or in a configuration file have '
     'the documented effect on the output, in single-file as well as in batch mode and in all worker processes; options that are '
     'not given keep their defaults.',
     [CF], 'all options and combinations x ways to set them x modes of processing',
     'The tests run the compiler directly; whether an option reaches the worker process that needs it depends on the mode.',
     [('options', f'{P}: main (argument parser, set_preset_value)'), ('configuration', f'{P}: ts2pythonCompiler.reset')],
     files=(P,), technique=ABC, note=NOTEC)

prop('C10', 'Results and messages are written to the right files and nothing is lost',
     'For every source file the result is written completely, in UTF-8, under the promised name (same base name with ".py", in the '
     'output directory if one is given), the messages are written to "..._ERRORS.txt" or "..._WARNINGS.txt" next to it and shown, '
     'fatal errors leave an existing result untouched, source files are never overwritten, no other file is touched, and in batch mode the exit code tells whether '
     'errors have occurred.',
     [IN, CF], 'all names and locations of files x states of the result x outcomes x modes',
     'File handling is hardly touched by the tests; names, outcomes and modes multiply.',
     [('single document', f'{P}: process_file, _process_file'), ('batch', f'{P}: batch_process, main')], files=(P,),
     technique=ABC, note=NOTEC)

prop('C11', 'A result is reused if and only if it is complete and up to date',
     'process_file() leaves an existing result alone if it stems from the same document, the same configuration and the same version of the '
     'transpiler, and makes it anew in all other cases, also if an earlier run was interrupted while writing it or '
     'if the result has been made with different options.',
     [HI, 'crash_points', CF], 'all histories of runs, edits, upgrades and interruptions',
     'Requires sequences of runs with changes and crashes in between; the tests have single runs.',
     [('up to date', f'{P}: process_file, source_hash, END marker')], files=(P,), technique=ABC, note=NOTEC,
     state=[('result file', 'hash of source, configuration and version in the generated module', f'{P}: process_file')])


ABG = ('static: abstract recognition - the grammar class is read as data (parsing expressions), whose meaning is applied to document '
       'skeletons with unknown names')
prop('C12', 'The shipped parser implements the shipped grammar',
     'Unless it is marked as outdated (in which case it is regenerated before it is used), the parser section of ts2pythonParser.py '
     'accepts exactly the documents that the grammar ts2python.ebnf describes and assigns the same syntax trees to them.',
     [IN], 'all documents, valid or not',
     'Tests parse samples with the shipped parser only and never compare it with the grammar.',
     [('grammar', 'ts2python.ebnf'), ('parser section', f'{P}: ts2pythonGrammar')], technique=ABG + '; symbol by symbol comparison of shipped '
     'and generated parsing expressions',
     note='Compared symbol by symbol in canonical form with what the parser generator of DHParser makes of ts2python.ebnf; if '
          'they differ in form, the trees of all document skeletons, intact and damaged, are compared, and only differences in '
          'trees are reported. Trusts the parser generator of DHParser.')

prop('C34', 'Damaged documents are rejected, not silently misread',
     'A document that cannot be TypeScript, because of a stray character, a missing, additional or wrong bracket, a missing or misspelt '
     'keyword, a missing name, type, comma, "=" or "=>", or because it ends in the middle of a declaration, is reported as '
     'erroneous; the damaged part is never dropped or reinterpreted in silence.',
     [IN], 'all documents x kinds and places of damage',
     'The tests check that valid documents are accepted, hardly any that invalid ones are not.',
     [('grammar', f'{P}: ts2pythonGrammar'), ('grammar source', 'ts2python.ebnf')], technique=ABG + ' that have been damaged at each token',
     note='Parsing expressions evaluated from the current source; names unknown. Exhaustive over the listed kinds of damage at every token '
          'of every document skeleton (quick: rotating share). Damage that leaves a document readable as another one (e.g. a missing '
          'separator or type mark between two members) is not judged.')

prop('C35', 'Generated modules and the runtime library work on all Python versions',
     'A module generated for compatibility with Python 3.x can be imported by every Python version from 3.x on (3.7 to 3.13), with or without '
     'typing_extensions and, where that is provided for, without the ts2python runtime library: no name is missing and no construct is used that '
     'the version does not know. The same holds for the modules of the runtime library itself.',
     [CF, IN], 'all supported Python versions x compatibility settings x installed packages x declarations',
     'The tests run on the one Python version that is installed, with the packages that are installed.',
     [('header of the generated module', f'{P}: GENERAL_IMPORTS, TYPEDDICT_IMPORTS, TYPEDDICT_IMPORTS_LEGACY, FUNCTOOLS_IMPORTS'),
      ('runtime library', 'ts2python/typeddict_shim.py, ts2python/json_validation.py, ts2python/singledispatch_shim.py')],
     files=(P, 'ts2python/typeddict_shim.py', 'ts2python/json_validation.py', 'ts2python/singledispatch_shim.py'),
     technique='static: abstract evaluation of module bodies per Python version (version guards decided, failing imports routed to handlers), names and '
               'constructs checked against a table of language and library versions',
     note='Only what importing evaluates (module level, class bodies, decorators, annotations) and, in the library, the names and constructs '
          'in function bodies. Trusts the version table in sa/versions.py. Python 3.14 (lazy annotations) is not covered.')

prop('C27', 'The LSP extractor yields all TypeScript declarations and nothing else',
     'From a specification of the language server protocol, extract_ts_from_lsp_specs.py takes every line of every ```typescript block, in order and '
     'unchanged, up to the first line that is a mere example (a call or a value), leaving out line comments, and nothing from outside of these blocks. '
     'Documents that are included, relative to the including document or from _includes, appear where they are included, to any depth, '
     'marked with their name; a missing document is an error and leaves no result.',
     [IN], 'all specifications: sequences of blocks, text and include-directives, spread over any number of documents',
     'There are no tests of the script at all; it depends on the network.',
     [('extraction', 'demo/extract_ts_from_lsp_specs.py: extract, no_declaration'),
      ('included documents', 'demo/extract_ts_from_lsp_specs.py: download_specs, download_specfile, RX_INCLUDE')],
     files=('demo/extract_ts_from_lsp_specs.py',),
     technique='static: abstract interpretation of the script over specifications put together of all kinds of lines (unknown names and texts), model '
               'of web and files',
     note='Bounded: all sequences of two (thorough: three) parts of a block, pairs of surroundings, two levels of inclusion. A declaration whose '
          'brace stands alone at the beginning of a line is taken for an example by design and not covered, nor are chains of links.')


prop('C36', 'Threads do not interfere with each other',
     'Operations that run in different threads of one process have the results they have one after the other, whatever the interleaving: the '
     'transpilation of two documents (each with the settings of its thread), the validation of two values and the calls of checked functions, '
     'and the calls of and registrations with a generic function. No interleaving makes an operation fail or makes the threads wait for each other.',
     ['schedules', IN, HI], 'all interleavings of two operations (bounded number of preemptions) x documents, values, histories',
     'The tests run everything in one thread; a race needs a particular interleaving.',
     [('compiler objects per thread', f'{P}: compile_src, get_compiler, compiling'),
      ('postponed registration', f'{SD}: singledispatch.dispatch, register, register_postponed'),
      ('validation', 'ts2python/json_validation.py: validate_type, type_check')],
     files=(P, SD, 'ts2python/json_validation.py'),
     technique='static: abstract interpretation of two operations at the same time; the scheduler branches before every statement that '
               'is not private to its thread (models of locks and thread-local objects); results compared with those of the operations alone',
     note='The source is interpreted abstractly by two abstract threads; branching before statements that deal with anything shared. Bounded: two '
          'threads, one preemption (two for some histories in the thorough tier), the compiler is interrupted at the beginning of its '
          'methods only. Preemptions within a statement or within modelled library functions are not considered.',
     state=[('registry, dispatch_cache', 'implementations of a generic function, postponed ones', f'{SD}: singledispatch'),
            ('compiler', 'compiler object of the thread', f'{P}: ts2pythonCompiler')])

NEVER = dict(files=(P,), technique='-', note='-')
prop('C37', 'Transpilation always ends and its cost stays proportionate to the document',
     'Every document, however damaged, is either transpiled or rejected within a time that stays proportionate to its length and nesting.',
     [IN], 'all texts', 'Tests have small, well-formed documents.',
     [('parser, compiler', f'{P}: ts2pythonGrammar, ts2pythonCompiler')],
     na='Running time of a backtracking packrat parser and of regular expressions is a quantity at run time, decided mostly by the parsing '
        'library and the regular expression engine, the sources of which are not part of this repository: no static bound is in reach. '
        '(Termination without progress, i.e. empty loops, is excluded by the library at run time.)', **NEVER)
prop('C38', 'The generated types accept exactly the values the TypeScript compiler would accept',
     'A value is valid for the generated Python type if and only if the TypeScript compiler accepts it for the type of the source document.',
     [IN], 'all documents x all values', 'Tests have a few documents and values.',
     [('types', f'{P}: ts2pythonCompiler.on_types')],
     na='TypeScript\'s type system (structural subtyping, mapped, conditional, template literal types, inference) is not modelled by ts2python, which '
        'approximates such types as documented; there is no oracle in reach that a static argument could compare with. What ts2python does promise about '
        'the types it supports is claimed in C07, C08, C14, C16, C19 and C33; that approximations are announced in C29.', **NEVER)
prop('C39', 'Extraction follows the published specification of the Language Server Protocol',
     'Running the extraction against the live web site yields the type definitions of the current version of the protocol.',
     [IN, 'fault_sequences'], 'all versions of the web site, all failures of the network', 'Tests do not use the network.',
     [('download', 'demo/extract_ts_from_lsp_specs.py')],
     na='It depends on a server and its contents, not on the source alone. What the extractor does with any text it receives is claimed in C27.', **NEVER)



def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf-8') as f:
        for t in T:
            a = {'files': list(t['files']), 'mechanism': [{'name': n, 'where': w} for n, w in t['mech']]}
            if t['state']:
                a['state'] = [dict(zip(('name', 'meaning', 'where'), s)) for s in t['state']]
            f.write(json.dumps({'id': t['id'], 'title': t['title'], 'statement': t['statement'],
                                'quantifier': {'over': t['over'], 'text': t['text']},
                                'why_tests_cant': t['why'], 'anchors': a}, ensure_ascii=False) + '\n')
    checks, na = [], []
    for t in T:
        if t['na']:
            na.append({'property': t['id'], 'reason': t['na']})
            continue
        c = {'property': t['id'], 'quick_cmd': f'python3 check.py {t["id"]} --tier quick'}
        if t['thorough']:
            c['thorough_cmd'] = f'python3 check.py {t["id"]} --tier thorough'
        c.update(technique=t['technique'], level='other', level_note=t['note'])
        checks.append(c)
    m = {'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.dont_write_bytecode=True; import sa.props"',
         'checks': checks, 'not_applicable': na,
         'notes': 'All checks analyse the source text in /repo (override: environment variable VERIF_REPO). '
                  'properties.jsonl and this file are written by tools/catalog.py.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')


if __name__ == '__main__':
    main()
