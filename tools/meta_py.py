# The Python side (executed by meta.py).
PYSYM = ('symbolic execution of the real Python source of pbtools and textparser (own executor pysym: characters and choices are z3 '
         'variables), every branch and assertion decided by z3')
CSRC, MAIN = 'pbtools/c_source/__init__.py', 'pbtools/__init__.py'
PB = 'bounds per job in the evidence; '


def py(id_, title, statement, over, text, why, files, mech, note):
    prop(id_, title, statement, over, text, why, files, mech, note, technique=PYSYM)


py('C23', 'Layout and comments do not matter; stray text is rejected',
   'White space and comments, of any content, between any two tokens of a proto-file do not change the generated code, and string literals '
   'with comment markers, escapes or punctuation are read as one token. '
   'Unterminated comments and text that belongs to no token are rejected.',
   ['inputs'], 'every text of a few characters at every gap of two files', 'The tests parse a few dozen fixed, uniformly formatted files.',
   [PARSER], [('comments', 'Parser and the comment handling in pbtools/parser.py'), ('tokens', 'Parser.tokenize, textparser.Tokenizer')],
   PB + 'two base files, gaps of up to 2-4 characters (thorough 3-6)')
py('C24', 'Type references resolve as protobuf scoping says',
   'A field type names the innermost definition visible from its message, or with a package or leading dot exactly the named one, as message or enum, '
   'local or imported, from this or an enclosing package, in ordinary, repeated, oneof and map fields alike. A type that is not defined is rejected.',
   ['programs', 'inputs'], 'every combination of definitions with up to three names at four levels, packages of none, one or two parts, local and imported',
   'The tests use types with distinct names.', [PARSER, CSRC],
   [('resolution', 'Proto.resolve_message_field_types and the functions it uses in pbtools/parser.py')],
   PB + 'two levels of nesting, two imports; two open findings, see known_findings.json')
py('C25', 'Generated structs and functions are declared before use',
   'However the messages and enums of a file refer to each other, in any order, nested or recursively, every type in the generated header is '
   'defined before it is needed.',
   ['programs'], 'every choice of field types among three or four types, singular or repeated',
   'The tests compile a few dozen fixed schemas.', [CSRC, PARSER],
   [('ordering', 'generate_structs and the sorting of used message types')],
   PB + 'three or four types with one or two fields; the generated text is checked by a declaration-before-use scan')
py('C26', 'Numbers mean the same in every base and place',
   'Field numbers and enum values given as decimal, octal, hexadecimal or negative literals appear in the generated code with the value protobuf '
   'gives them; malformed literals are rejected.',
   ['inputs'], 'every literal of up to three or four characters in fields, oneofs, maps, repeated fields and enums',
   'The tests use decimal numbers.', [PARSER, CSRC], [('integers', 'load_integer and the grammar in pbtools/parser.py')],
   PB + 'literals of 2-4 characters (thorough 5)')
py('C27', 'Generated names follow the proto names',
   'For every identifier used as message, nested message, field, enum, enumerator or oneof name, the generated C names are the documented '
   'transformation (snake case, package and parent prefixes) and everything else in the generated code stays the same.',
   ['inputs'], 'every identifier of up to six characters', 'The tests use a handful of names.', [CSRC],
   [('naming', 'camel_to_snake_case, full_name_snake_case, name_snake_case and their users')], PB + '3-6 characters')
py('C28', 'Generated code does not depend on set or hash order',
   'Generating the same file always gives the same bytes, whatever order the interpreter iterates sets in.',
   ['schedules'], 'every iteration order of every set the generator iterates', 'A test run sees one order per interpreter start.', [CSRC, PARSER],
   [('sorting', 'sorted() and set use in pbtools/c_source/__init__.py and pbtools/parser.py')], PB + 'one schema, sets of up to five elements')
py('C29', 'Imports and output files are found by their documented names',
   'An imported file is the first match in the import path, a missing one is reported by name, the generated files are named after the '
   'proto-file and included by this name, and generating several files equals generating each alone.',
   ['inputs', 'configurations'], 'every subset and order of three directories, every file name of a few characters, every order of three of four files',
   'The tests use one directory and lower case file names.', [PARSER, CSRC],
   [('import path', 'find_file in pbtools/parser.py'), ('file names', 'generate_files')], PB + 'three directories, names of up to 4-5 characters')
py('C30', 'Options, reserved and empty statements never change the code',
   'Options with identifier, integer and string constants, reserved statements and empty statements are accepted wherever protobuf allows them '
   'and do not change the generated code.',
   ['inputs'], 'every constant of up to three characters at every place', 'The tests contain a few options.', [PARSER],
   [('grammar', 'Parser.grammar in pbtools/parser.py')], PB + '2-6 characters, 20 places; float, single-quoted and aggregate constants are not covered')
py('C31', 'Upper case enumerators are a pure renaming',
   'With --enums-upper-case the generated code is the same but for the names of enumerators, which are the documented upper case ones.',
   ['inputs'], 'every name of an enum, enumerator and field of four to six characters', 'The tests use one schema.', [CSRC],
   [('option', 'enums_upper_case in pbtools/c_source/__init__.py')], PB + '4-6 characters')
py('C32', 'Every field gets the documented member and calls its own codec',
   'A field of any type and label becomes a struct member of the documented C type, initialised, encoded and decoded by the function of its own '
   'type and number, with exactly the functions its label needs.',
   ['programs'], 'every pair of types and labels', 'The tests use selected pairs.', [CSRC],
   [('members', 'generate_struct_member_fmt, generate_message_*_body')], PB + 'one or two fields')
py('C33', 'Adding a definition leaves the code of others unchanged',
   'Adding an unrelated message, enum or service to a file, with any name and before or after the rest, leaves the code generated for the '
   'existing ones as it is.',
   ['inputs', 'programs'], 'ten kinds of definition, every name of up to three characters, three packages', 'No test compares two schemas.', [CSRC, PARSER],
   [('generation', 'generate and sort functions')], PB + 'one added definition')
py('C34', 'Files that are not protobuf are rejected with a diagnostic',
   'A proto-file is accepted exactly when it follows the supported grammar; otherwise generation fails with a diagnostic, never an internal '
   'error. A reported syntax error position is a line of the file.',
   ['inputs'], 'every file one token or two characters away from two base files, and every prefix', 'The tests contain some thirty invalid files.', [PARSER],
   [('grammar', 'Parser.grammar'), ('errors', 'parse_string, InternalParserError in pbtools/parser.py')],
   PB + 'one-token changes with 47 tokens, two-character insertions, truncation; the oracle is a reference recogniser of the grammar')

py('C35', 'parse_file returns what the file declares',
   'For every accepted proto-file, pbtools.parse_file() returns exactly its package, imports, options, services, rpcs, messages, oneofs, fields, enums and '
   'enumerators: their names, full names, types and type kinds, numbers, labels, stream flags and option values.',
   ['inputs', 'programs'], 'every name of two characters and every choice of types, labels, literals and forms in small files',
   'The tests look at a few attributes of a few files.', [PARSER, MAIN], [('model', 'Proto, Message, Field, Enum, Oneof, Service, Option in pbtools/parser.py')],
   PB + 'two services, two options, a message of one or two fields')

na('C41', 'The Mys generator produces code equivalent to the schema',
   'For every schema the Mys generator writes encoders and decoders that follow the protobuf wire format.',
   ['programs', 'inputs'], 'every schema and every value', 'The tests compare generated text with committed files.', ['pbtools/mys_source/__init__.py'],
   [('generation', 'pbtools/mys_source')],
   'The meaning of the output is defined by the Mys compiler and its protobuf runtime, neither of which is in the repository or the sandbox, so generated code cannot be encoded.')
na('C42', 'Generated Rust decoders never panic on arbitrary bytes',
   'For any input, the decode function of a generated Rust message returns a result or an error.',
   ['inputs'], 'all inputs', 'The tests decode a few fixed messages.', ['crate/src/lib.rs'], [('decoder', 'crate/src/lib.rs')],
   'The Rust decoder is a stub in this version of the repository (documented as unfinished); there is no behaviour to hold it to.')
na('C43', 'Every valid schema gives C code that compiles',
   'For every schema the generator accepts, the generated C code compiles without warnings.',
   ['programs'], 'all schemas', 'The tests compile some thirty schemas.', [CSRC], [('generation', CSRC)],
   'Whether C text compiles is decided by a compiler, which cannot be executed symbolically here; the encodable parts are C25 (declaration order), C27 (names) and C32 (members). Names that are C keywords or collide after conversion are known not to compile.')
