prop('E01', 'ion_equals is equality in the Ion data model',
     'For any two values the library reads or writes (plain Python, Ion natures, mixed, nested), ion_equals returns, never raises, gives the same answer in both orders, and is True exactly '
     'when type, content and annotations agree as Ion data: sign of zero and NaN of floats, exponent and sign of decimals, precision, offset and fraction digits of timestamps, '
     'text or import location of symbols, order in sequences, multiplicity and no order in structs; an operand with annotations never equals one without. '
     'With timestamps_instants_only, timestamps (of microseconds) are equal when they are the same instant.',
     ['inputs'], 'all pairs of about 130 scalars and containers, with each side plain or Ion, within lists, structs and repeated fields, under 12 annotation lists, and pairs of abstract numbers and texts',
     'The tests compare listed values; equality must be right for each pair of kinds in each place, in both orders.',
     ['amazon/ion/equivalence.py', 'amazon/ion/simple_types.py', 'amazon/ion/core.py'],
     [('equality', 'equivalence.py: _ion_equals'), ('structs', 'equivalence.py: _structs_eq; core.py: Multimap'),
      ('timestamps', 'equivalence.py: _timestamps_eq, _timestamp_instants_eq'), ('symbols', 'equivalence.py: _symbols_eq')],
     ('abstract interpretation of ion_equals on pairs of values, compared with a model of data model equality', 'other',
      'Trusted: the abstract machine\'s models of Python, the model in sa/checks/equal.py. Left open: a plain str against a symbol, plain list against s-expression, plain bytes against clob, '
      'instants of more than six digits.'))
prop('V01', 'A timestamp holds what it is made from, and nothing inconsistent is made',
     'For all arguments, Timestamp and timestamp() hold exactly the fields, precision and offset given; the fraction is that of fractional_seconds with its digits, or of microsecond at '
     'fractional_precision, and microsecond, fractional_precision and fractional_seconds always agree (microsecond truncates, precision is at most 6). ValueError is raised exactly when '
     'they conflict or are out of range. Offset hours and minutes may each be negative; the offset is their sum.',
     ['inputs'], 'the product of 14 microseconds, 10 precisions, 22 fractions and 5 ways to pass them; 8 field lists with all ways to pass them; abstract offsets',
     'The tests construct about a hundred timestamps; the rules interact in a product of argument combinations.',
     ['amazon/ion/core.py'], [('timestamps', 'core.py: Timestamp.__new__, timestamp'), ('offsets', 'core.py: OffsetTZInfo')],
     ('abstract interpretation of the constructors over products of arguments, compared with the documented rules', 'other',
      'Trusted: the abstract machine\'s models of datetime and Decimal; the model in sa/valexp.py. The date itself is of a list; leap days are datetime\'s own.'))
prop('V02', 'A multimap keeps every value of every key, in order',
     'After every sequence of assignments, add_item and removals, starting empty or from a dict, a Multimap or IonPyDict has exactly the values added since the last assignment or removal '
     'of each key, in that order: items() and iteritems() in order of keys, len() the number of values, [] the newest value, get_all_values all, iteration each key once; a missing key raises KeyError.',
     ['histories'], 'all sequences of up to 4 (thorough 5) operations over two keys and None, each followed by all observations',
     'The tests perform a few fixed sequences.',
     ['amazon/ion/core.py', 'amazon/ion/simple_types.py'], [('multimap', 'core.py: Multimap, MultimapValue')],
     ('abstract interpretation of all operation sequences up to a length, compared with a model', 'other',
      'Trusted: the abstract machine\'s models of Python. Longer sequences are not explored.'))
prop('S03', 'Symbol tables and the catalog map IDs and text as documented',
     'Every symbol table built from any symbols, imports, version and maximum ID has exactly the tokens its arguments define, with consecutive IDs from 1 and the import location of their '
     'origin: len, max_id and iteration agree; get and [] find an ID, or the first definition of a text, and otherwise give the default or KeyError (0 is the unknown symbol); intern adds only '
     'new text and only to local tables; placeholders and substitutes have exactly the maximum ID asked for; two tables are equal exactly when type, name, version and tokens are. '
     'The catalog gives the exact table, the substitute of the greatest version or a placeholder. Invalid arguments raise.',
     ['inputs', 'histories'], 'all symbol lists of up to 3, pairs of 12 kinds of imports, up to 3 interns, 27 tables compared in pairs, 16 registration histories with all requests',
     'The tests build some dozens of tables; off-by-one errors need particular lengths, duplicates and unknown texts.',
     ['amazon/ion/symbols.py'], [('tables', 'symbols.py: SymbolTable'), ('derived tables', 'symbols.py: placeholder_symbol_table, substitute_symbol_table'), ('catalog', 'symbols.py: SymbolTableCatalog')],
     ('abstract interpretation of the constructors and operations on all listed shapes, compared with a model', 'other',
      'Trusted: the abstract machine\'s models of Python; the model in sa/tabexp.py. Larger tables are not explored; the code treats positions uniformly.'))
prop('N01', 'A float read from text is the nearest double to the digits written',
     'For every float literal the value delivered is the IEEE double nearest to the decimal number written, ties to even; for every float written as text the digits denote exactly that double.',
     ['inputs'], 'all digit sequences', 'Rounding is decided by every digit of a literal of any length.',
     ['amazon/ion/reader_text.py', 'amazon/ion/writer_text.py'], [('conversion', 'reader_text.py: _parse_float; writer_text.py: _float_str')],
     na='The repository delegates the conversion to float() and repr() of the Python runtime; that the right digits reach float() is decided by T01 and W02, the rounding itself is not in /repo\'s source.')
prop('N02', 'Reading uses bounded memory and time per octet, at any nesting depth',
     'Reading n octets takes time linear in n and memory bounded by the largest value and the nesting depth; no input makes the interpreter\'s stack overflow.',
     ['inputs'], 'all inputs', 'Tests use small inputs.', ['amazon/ion/reader.py', 'amazon/ion/reader_text.py', 'amazon/ion/simpleion.py'],
     [('buffering', 'reader.py: BufferQueue'), ('recursion', 'simpleion.py: _load')],
     na='A resource bound over run-time quantities: _load and dump recurse once per nesting level by design, so the stack bound is false for the runtime\'s recursion limit, and time per octet '
        'depends on library operations (slicing, int conversion) that no static rule in reach bounds.')
prop('N03', 'The JSON encoder down-converts every Ion value as documented',
     'IonToJSONEncoder turns every Ion value into the JSON value the Ion cookbook prescribes, at any nesting.',
     ['inputs'], 'all values', 'Its tests do not run in this environment.', ['amazon/ion/json_encoder.py'], [('encoder', 'json_encoder.py: IonToJSONEncoder.default')],
     na='The module refuses to be imported on the interpreter installed here, and its base class comes from the package jsonconversion, whose source is not available offline; '
        'how and when default() is called is decided there.')
