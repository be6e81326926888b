SYM = ['amazon/ion/symbols.py', 'amazon/ion/reader_managed.py']
SNOTE = ('Trusted: the abstract machine\'s models of Python, the independent model of Ion 1.0 symbol tables (sa/refsym.py). Local tables are those of the listed '
         'shapes (up to 2 imports or 3 symbols, appended up to 3 times); the tables\' contents do not matter to the code beyond being text or unknown.')
prop('S01', 'A symbol ID read means what the symbol table in effect there says',
     'For every stream of raw events the managed reader delivers exactly the user\'s events, in order, and each symbol ID among their values, annotations and field '
     'names resolves by the Ion 1.0 rules: system symbols; local tables with symbols that are null, not strings, containers; imports in any field order by exact '
     'match, substitute or placeholder with the given maximum ID, defaults for unusable version, maximum ID or name; append to the current table; reset at a version '
     'marker; unknown text keeps its import location; an ID that is not defined raises IonException; an event read before a table change keeps its meaning when '
     'looked at later; SKIP and interruptions for data change nothing.',
     ['inputs', 'histories'], 'abstract symbol IDs after about 2 400 shapes of symbol tables, markers, skips and interruptions',
     'The tests use some twenty tables; the meaning of an ID depends on the whole history of tables and on every odd element in them.',
     SYM, [('managed reader', 'reader_managed.py: managed_reader'), ('tables', 'reader_managed.py: _local_symbol_table_handler, _imports_handler, _symbols_handler'),
           ('resolution', 'symbols.py: SymbolTable, SymbolTableCatalog.resolve')],
     ('abstract interpretation of the managed reader on scripted raw events with abstract IDs, compared with an independent model of Ion symbol tables', 'other', SNOTE))
prop('S02', 'The managed binary writer\'s symbols read back as the symbols written',
     'For every sequence of events, list of imported shared tables and any symbol texts, the octets of the managed binary writer are, once their symbol IDs are '
     'resolved by the symbol tables they contain (and the same shared tables), the events that were written: text of values, field names and annotations, empty text, '
     'text that occurs in the system table, in an import or in several, new text, IDs of system and imported symbols including those without text; each stream starts '
     'with one version marker, defines its symbols before its values, and starts afresh after STREAM_END; misplaced markers and ends raise.',
     ['inputs', 'histories'], 'abstract texts of up to 2 characters in up to 5 places, 6 import lists, up to 260 symbols, sequences of three streams, all forests of 3 values',
     'The tests write fixed symbols; which ID a text gets depends on every import and on all symbols interned before it.',
     ['amazon/ion/writer_binary.py', 'amazon/ion/symbols.py', 'amazon/ion/writer.py'],
     [('managed writer', 'writer_binary.py: _managed_binary_writer_coroutine'), ('table writer', 'writer_binary.py: _symbol_table_coroutine'), ('tables', 'symbols.py: SymbolTable')],
     ('abstract interpretation of the managed writer; the octets are decoded and their symbols resolved by independent models', 'other', SNOTE.replace('Local tables', 'Import lists')))
