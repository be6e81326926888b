BIN = ['amazon/ion/reader_binary.py', 'amazon/ion/reader.py', 'amazon/ion/util.py', 'amazon/ion/core.py']
ABI = 'abstract interpretation of the binary reader over abstract octets, compared with a reference reader of Ion 1.0 binary'
ABNOTE = ('Octets are abstract; the reader and a reference in sa/refbin.py advance in lockstep and every event is compared, values as linear '
          'forms over the octets read. All 256 type octets are covered; payloads are bounded to a few octets and nesting to a few levels. '
          'Between top-level values the stream position is taken to be irrelevant. Trusted: the models of Python and its libraries.')
WHY_B = 'The tests sample a few dozen encodings; the property ranges over every octet sequence, including %s.'
prop('B01', 'Binary scalars are decoded exactly and malformed scalars are rejected',
     'For every Ion 1.0 binary input, each scalar (null, bool, int, float, decimal, timestamp, symbol, string, clob, blob) is delivered once, with the '
     'type, typed null or value its octets encode: sign and magnitude of integers, coefficient, exponent and negative zero of decimals, precision, '
     'offset and fraction of timestamps, symbol identifier, text and bytes. A scalar the specification forbids is rejected with an error and no '
     'value is delivered for it.',
     ['inputs'], 'all type octets, lengths (explicit and implied) and representation octets of scalars',
     WHY_B % 'reserved type codes, zero-length representations, negative zeros and representations that end early',
     BIN, [('scalar parsers', 'reader_binary.py: _parse_*, _int_factory, the handlers they are bound to'),
           ('variable length fields', 'reader_binary.py: _parse_var_int, _parse_signed_int_components; _var_uint_field_handler'),
           ('timestamp construction', 'core.py: timestamp, Timestamp.__new__')],
     (ABI, 'other', ABNOTE))
prop('B02', 'Binary containers, wrappers, padding and markers follow the stream exactly',
     'For every Ion 1.0 binary input, containers open and close exactly where their lengths say, at the right depth; every value carries exactly the field name '
     'and annotations encoded for it; NOP padding is invisible; version markers are recognised only between top-level values. A length that exceeds its '
     'container, an illegal annotation wrapper, a reserved type or a variable length field that overruns is rejected with an error and never '
     'yields a value, and the end of the stream is reported only between top-level values.',
     ['inputs', 'histories'], 'all sequences of type octets, lengths, field names, annotation wrappers and pads, nested',
     WHY_B % 'lengths that disagree with the enclosing container, nested wrappers and padding in every position',
     BIN, [('container coroutine', 'reader_binary.py: _container_handler, _HandlerContext'),
           ('annotations', 'reader_binary.py: _annotation_handler'), ('padding', 'reader_binary.py: _nop_pad_handler'),
           ('version marker', 'reader_binary.py: _ivm_handler')],
     (ABI, 'other', ABNOTE))
prop('B03', 'Binary events do not depend on how input arrives; SKIP equals NEXT',
     'For every Ion 1.0 binary input and every way of splitting it into successive pieces handed to the reader, the same events and errors result; the reader asks '
     'for more data while a value is incomplete, and never delivers a partial value. Skipping a value or the rest of a container leaves the reader '
     'exactly where reading it would have.',
     ['inputs', 'schedules'], 'all inputs, splits into pieces of up to three octets, and choices of NEXT or SKIP at every event',
     'The tests feed whole documents or single fixed splits; the property ranges over every split point and every point at which SKIP is possible.',
     BIN, [('data requests', 'reader_binary.py: _read_data_handler, _lazy_parser usage'), ('buffer queue', 'util.py/reader.py: BufferQueue'),
           ('trampoline', 'reader.py: reader_trampoline')],
     (ABI + ' under nondeterministic input splitting and skipping', 'other', ABNOTE))
