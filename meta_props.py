prop('C06', 'Generator.Enumeration/EnumValue, Typedef of an enum and CursorHandler.ENUM_DECL/ENUM_CONSTANT_DECL proved for enumerations '
     'with any number of enumerators, any values and sizes; end-to-end sampling (bounded) only for the glue between them.',
     'The emitted text is proved to be exactly: one assignment per enumerator in order, the value table, the type of the C size and sign.',
     assumptions=['enumerator names and values are what libclang says', 'enumerator names of one enumeration are pairwise different (C)'])
prop('C10', 'filter_types, filter_symbols and filter_expressions proved for item lists, symbol lists and expression lists of any '
     'length; the option parsing that fills the selections is proved (C18.kinds, C18.parse_options, C18.command_line); that '
     'generate_code applies them and generates dependencies is only sampled (bounded).',
     'Postconditions of the three filters over sequences of unknown length: the result is exactly the items of the selected '
     'kinds / named / matched, in order.',
     assumptions=['item names are pairwise different (C11)',
                  'regular expressions are any relation with fullmatch => match => search'])
prop('C14', 'Library symbol reading proved for nm outputs of any number of lines, find_library_with_func for any number of libraries, '
     'get_sharedlib for three libraries with arbitrary names and paths (the number is a bound).',
     'Postconditions: symbols offered, first library offering a name is chosen, one entry per library key, opened by the given path.',
     assumptions=['the output of nm has the documented format', 'os.path.* behave as their axioms in pyvc/hooks.py'])
prop('C15', 'Diagnostics loop proved for any number of diagnostics of any severity; parse, parse_string and main proved to raise / exit '
     'non-zero exactly then.',
     'Postconditions over the exceptions raised and the exit status for every list of diagnostics.',
     assumptions=['clang lists every diagnostic in tu.diagnostics and in document order'])
prop('C16', 'start_element and filter_location proved for every location, parse for repeated files, parse_input_files for lists of files '
     'and declarations of any length.',
     'Postconditions: the requested items are exactly the registered ones located in one of the files.',
     assumptions=['cursor.location.file.name is the name of the file the declaration is in'])
prop('C18', 'Every function between argparse and the configuration / the parser is proved: parse_options, kinds, clang arguments, '
     'translate_files, make_clang_parser, main, output, input and the option table itself.',
     'Postconditions over the configuration and parser state for arbitrary option values; argument lists of any length.',
     trusted=['argparse (the stdlib parser): which strings it stores for which option'])
prop('C03', 'The scalar kinds table, pointer/array/size conversions and the two-parsers independence proved for every size and kind '
     '(contracts on ClangParser\'s size tables and TypeHandler\'s scalar functions); the end-to-end comparison with the C compiler is '
     'sampled (bounded).',
     'For every scalar kind and every size the target may give it, the ctypes type that is emitted has exactly that size and signedness.',
     assumptions=['clang reports sizeof of the scalar kinds of the target'])
prop('C05', 'type_name, function_type_name, POINTER, arrays, FUNCTIONPROTO and named types proved for arbitrary inner types (induction '
     'hypothesis on sub-types) and any number of parameters; end-to-end sampling (bounded) for the glue.',
     'Compositional contracts: the expression of a type is the constructor applied to the expressions of its parts, in order.',
     assumptions=['types of the C program are finite (structural induction)'])
prop('C09', 'Generator.Function, FUNCTION_DECL and PARM_DECL proved for any number of parameters; the rest is sampled (bounded).',
     'The emitted prototype has the result type and one argument type per parameter, in order, on the function of its own name.',
     assumptions=['clang lists the parameters in order'])
prop('C01', 'STRUCT_DECL / UNION_DECL with _record_decl, _fixup_record and _make_padding proved for records with any number of members at any '
     'byte offsets and sizes: the members lie at their offsets, the gaps and the tail are padding of exactly the missing size, nothing overlaps; '
     'FIELD_DECL (offset, size) and StructureBody (packed, one entry per member in order) proved; the ctypes layout of the loaded module against the '
     'C compiler is sampled (bounded).',
     'Loop invariants inferred and proved inductive: the items written so far tile [0, offset) in order; with `_pack_ = 1` the ctypes offset of '
     'an item is the sum of the sizes before it, which is therefore the offset clang reports.',
     assumptions=['clang lists the fields of a struct in order of their offsets, none overlapping, and those of a union at offset 0',
                  'ctypes with _pack_ = 1 puts every member right after the previous one (structures) or at 0 (unions)',
                  'records without bit-fields and without bases (the layout of bit-fields is outside the property)'])
prop('C02', 'FIELD_DECL, StructureHead and StructureBody proved for any number of members of any type (unnamed members: two of them between any number '
     'of others, a bound); the members after layout are proved to be the declared ones in order (C01.struct, C01.union; with bit-fields '
     'C12.bitfield_padding); the types of bit-fields (C02.bitfields) bounded: records of up to three members.',
     'Postconditions over the emitted class text, read with the Python grammar: exactly one entry per member, in order, with its name and type.',
     trusted=['re.sub for the one pattern StructureBody uses (private names are looked up in the module)'],
     assumptions=['clang lists the fields of a record in order'])
prop('C11', 'register, _record_decl (declarations before and after the definition, incomplete in an earlier file or not), TYPEDEF_DECL, _generate and '
     'generate_all proved for any earlier registry and members of any number; every round of generate_items by induction (C11.generate_round), whole runs bounded: lists of two, two rounds; random programs with '
     'repeated and reordered declarations sampled (bounded).',
     'Postconditions: one registered entity per name; the definition completes the entity that was declared; every description is generated exactly once.',
     assumptions=['clang gives every declaration of an entity the same name', 'entities of different kinds have different generated names'])
prop('C12', 'Generator.Structure (order of heads, needed types and bodies), StructureHead, Enumeration, Function, generate_all and generate_code proved for '
     'any number of members, names and items, with _generate by its contract; every round of generate_items by induction (C11.generate_round); that whole modules execute is '
     'sampled (bounded).',
     'Postconditions: when the fields of a record are written every type they need is declared or defined; every handler exports the name it defines; '
     '__all__ is the sorted list of the exported names.',
     trusted=['textwrap breaks the text of __all__ at blanks only'],
     assumptions=['record names start with struct_/union_ and no typedef name does'])
prop('C13', 'The text of records, enumerations, functions, library tables, selections and of the module frame is proved to be a fixed function of the '
     'descriptions in their order, for inputs of any size (the verifier refuses iteration over sets); the whole tool is sampled under several hash seeds '
     '(bounded).',
     'Each contract equates the generated text with an expression of the inputs in which no set order, hash or identity occurs.',
     assumptions=['libclang reports the declarations in document order'])
prop('C17', 'Structure.__init__, _field_names_, get_type, bind, AsDictMixin.as_dict and the string casts proved on the template text as it is copied into the '
     'modules, for any number of members of every kind, any names, arguments and callbacks; the executed modules are sampled (bounded).',
     'Postconditions over the keyword arguments that reach ctypes.Structure, over the dictionary returned by as_dict (one entry per member that is no '
     'padding, by the kind of its value) and over the objects bind makes for every member; bind rejects exactly the mappings with other names.',
     trusted=['ctypes.Structure(**kw) sets the named members', 'ctypes.cast, c_char_p and codecs: decode is the inverse of encode, texts without NUL'],
     assumptions=['ctypes hands out members as the stand-ins do: Python values for scalars, objects with _length_ and _type_ for arrays, with contents for pointers'])
prop('C19', '_generate, print_comment, set_comment/set_location, Typedef, Enumeration, StructureHead/StructureBody, Function, Alias, Variable and Macro proved with every '
     'combination of the three options, any comment and any place: the program that is emitted (comments have no meaning in it) is the one without the '
     'options, plus __doc__ of functions; whole modules are sampled (bounded) with adversarial comments and file names.',
     'The postcondition of every generator function is proved once for all option values; what it says of the program does not mention the options.',
     trusted=['textwrap.wrap returns lines without line breaks'],
     assumptions=['file names have no line breaks'])
prop('C07', '_literal_handling (integer, floating, string), _operator_handling, VAR_DECL with _VAR_DECL_type/_VAR_DECL_value and the initialiser '
     'extraction, INIT_LIST_EXPR, UNEXPOSED_EXPR and Generator.Variable proved for every spelling of a literal (any number of digits, every notation '
     'and suffix), any string and lists of any length; whole modules are sampled (bounded).',
     'The value of a digit string in a base is an uninterpreted function of its digits: the handlers are proved to hand on exactly the digits, base and '
     'sign of the C literal, and the generator to print a Python expression that reads back as that value.',
     trusted=['int() and float() read digits as C does; repr() of a float reads back as that float'],
     assumptions=['libclang gives a literal expression its tokens (possibly followed by tokens that are punctuation, comments or outside of its extent)',
                  'libclang shows the initialiser of a variable as a child, below any number of implicit casts'])
prop('C08', 'MACRO_DEFINITION, _literal_handling, _clean_string_literal, _is_function_like_macro, _is_one_group, util.from_c_float_literal, '
     'util.contains_undefined_identifier and Generator.Macro, run one after the other, proved for every spelling of an integer or floating literal '
     '(any number of digits, every notation and suffix), negated or in up to two parentheses, any string of plain characters, macros naming such a macro, '
     'empty macros, function-like macros with any parameters and body, and bodies of any length with an unknown identifier anywhere; whole modules are '
     'sampled (bounded).',
     'The handler and the generator are proved together: the program that is written is read back and has exactly the constant and its value, or nothing.',
     trusted=['int() and float() read digits as C does'],
     assumptions=['libclang gives a macro definition its tokens, possibly followed by a comment or by a token outside of its extent',
                  'a longer chain of macros follows from one step: the registered body of an alias is the body of its target',
                  'in the contracts on unknown identifiers and function-like macros a literal token is cleaned to some text of one line',
                  'string literals without escapes; macros not named NULL or __thread; a string in parentheses is not a numeric literal'])
prop('C04', 'Frame of every contract: on every path of every function under contract (loops for any number of iterations) nothing shared by the translations of '
     'a process - module globals, class attributes, defaults and attributes of functions - is changed, and a generator and a translation only read their '
     'configuration; the constructors of configurations, parsers, generators and translations are proved to give out only objects of their own, whatever '
     'was made and used before; histories of whole translations are compared with fresh processes (bounded).',
     'Non-interference by ownership: what a translation is made of is its own (constructors), what is shared is never changed (frame), and the contracts of '
     'the other checks give the output as a function of the descriptions and the configuration.',
     assumptions=['functions without a contract are only covered by the bounded histories (clang loading, util.get_tu, Library, argparse set-up)',
                  'libclang answers for one translation unit do not depend on the others', 'the state of the standard library (logging levels, sys.path) '
                  'does not enter the generated module',
                  'in the quick tier, contracts that run the same functions on other literals are left out'])
