WRT = ['amazon/ion/writer_text.py', 'amazon/ion/writer.py', 'amazon/ion/core.py']
WRB = ['amazon/ion/writer_binary_raw.py', 'amazon/ion/writer_binary_raw_fields.py', 'amazon/ion/writer_buffer.py', 'amazon/ion/writer.py']
WNOTE = ('Trusted: the abstract machine\'s models of Python and its libraries, the independent readers of the output (sa/reftext.py, sa/wrbin.py). '
         'Both are written from the Ion specification, not from the repository\'s readers.')
WAI = 'abstract interpretation of the writer coroutines; the partly abstract output is read by an independent '
prop('W01', 'The text writer\'s output reads back as the events it was given, at any time',
     'For every sequence of events, with or without pretty printing, the text handed out so far is legal Ion and holds the given events in order: delimiters, '
     'line breaks, indentation, field names, annotations (repeated ones too), version markers and container ends; COMPLETE is answered exactly at the '
     'top level and then everything given so far is readable; events that are illegal where they are sent raise TypeError and write nothing that changes '
     'what was written.',
     ['inputs', 'histories'], 'all event sequences of any length, containers nested to depth 2 with all value forms (4 with few), five indentations, illegal requests at every answer',
     'The tests write some fifty fixed sequences; adjacency of tokens, indentation and completion depend on combinations of neighbours and depth.',
     WRT, [('writer coroutine', 'writer_text.py: _raw_writer_coroutine'), ('trampoline', 'writer.py: writer_trampoline')],
     (WAI + 'grammar of Ion text, to a fixpoint of (writer state, grammar state, events outstanding)', 'other', WNOTE))
prop('W02', 'The text writer writes every scalar so that it reads back as the same value',
     'Every scalar, field name and annotation the text writer accepts is written as text that Ion defines to be the same value: escapes in strings, symbols '
     'and clobs, quoting of symbols that look like something else, the exact digits and exponent of decimals, shortest exact floats with sign, infinities and '
     'nan, timestamps with their precision, fraction digits and offset, base64 of blobs, typed nulls, symbol IDs. Only legal, ASCII text is written.',
     ['inputs'], 'texts and lobs of up to 3 abstract characters/bytes, all integers to 10**11, decimals of up to 11 abstract digits and fixed exponents, abstract timestamp fields, all offsets',
     'The tests sample values; quoting and escaping depend on each character, the number forms on digits, exponent and sign together.',
     WRT, [('symbol quoting', 'writer_text.py: _symbol_needs_quotes, _UNQUOTED_SYMBOL_REGEX'), ('escapes', 'writer_text.py: _escape, _bytes_text'),
           ('numbers', 'writer_text.py: _float_str, _decimal_str'), ('timestamps', 'writer_text.py: _bytes_datetime, _bytes_utc_offset')],
     (WAI + 'grammar of Ion text', 'other', WNOTE))
prop('W03', 'The binary writer encodes every scalar as the same value, bit for bit',
     'The octets written for a scalar decode, by the Ion binary format, to the value given: magnitude and sign of ints of any size, floats, decimal coefficient '
     'and exponent including negative zero and any number of digits, timestamps in UTC with their precision, offset and fraction, UTF-8 text, lobs, symbol IDs, '
     'typed nulls; every subfield has minimal or legal form.',
     ['inputs'], 'all ints below 2**70 (2**200 thorough), all IDs, all floats, decimals of 1 to 40 abstract digits at 18 exponents, abstract timestamp fields with 11 offsets and all offsets on a fixed date',
     'The tests sample a few dozen values per type; errors sit at bit and digit boundaries and in sign handling.',
     WRB, [('integer fields', 'writer_binary_raw_fields.py: _write_base, _FieldCache'), ('decimals', 'writer_binary_raw.py: _write_decimal_value, _serialize_decimal'),
           ('timestamps', 'writer_binary_raw.py: _serialize_timestamp, _write_timestamp_fractional_seconds')],
     (WAI + 'decoder of Ion binary over abstract bit fields', 'other', WNOTE))
prop('W04', 'The binary writer\'s lengths and order are right for every tree and size',
     'For every sequence of events the binary writer hands out, at STREAM_END and never earlier, exactly the encoding of the events since the last one: type and '
     'length of every value, container and annotation wrapper span exactly what they contain, headers precede their contents, field names precede values, '
     'whatever the nesting, the sizes and the symbol IDs; an illegal event raises TypeError, ending containers that are not open does not succeed, and '
     'nothing is left over for the next stream.',
     ['inputs', 'histories'], 'all forests of up to 3 values with annotations (4 with two container types), payloads of symbolic length to 2**21, symbolic IDs to 2**21, up to 70 annotations, sequences of three streams',
     'The tests write small fixed trees; lengths of two and more octets inside lengths, deep leftmost nesting and reuse after STREAM_END are combinations they lack.',
     WRB, [('buffer tree', 'writer_buffer.py: BufferTree'), ('annotation wrapper', 'writer_binary_raw.py: _serialize_annotation_wrapper'),
           ('containers', 'writer_binary_raw.py: _serialize_container, _write_length')],
     (WAI + 'decoder of Ion binary, with symbolic lengths', 'other', WNOTE))
