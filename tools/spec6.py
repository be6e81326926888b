SIM = ['amazon/ion/simpleion.py', 'amazon/ion/simple_types.py']
LNOTE = ('Trusted: the abstract machine\'s models of Python, the independent document encoder and decoders (sa/docs.py, sa/refbin.py, sa/reftext.py). The values are '
         'those of a list of some 400 representatives of every type plus symbolic text and digits; structure is enumerated up to the listed size.')
prop('L01', 'load returns the values the document holds',
     'For every Ion document, as binary, as octets of ASCII text (decoding of others is documented as not implemented) or as a str, load and loads return its top level values in order with the content, the Ion type (nulls '
     'included), annotations and nesting the document has: lists and expressions by order, structs with repeated fields in order of first occurrence of each name '
     'and the last occurrence under the plain key, fields without known name, booleans, integers, floats, decimals, timestamps with precision, fraction and offset, '
     'symbols, strings and lobs; with single_value the one value, and IonException for none or several; IonException for text cut off inside a container.',
     ['inputs'], '420 scalar forms in 7 places and 3 encodings, all trees of up to 3 containers, symbolic texts of up to 3 characters, struct cut at every character',
     'The tests compare a few dozen documents with values by ion_equals, which ignores much; the mapping is a product of type, null, annotation, place and encoding.',
     SIM + ['amazon/ion/reader.py', 'amazon/ion/equivalence.py'],
     [('load', 'simpleion.py: load, _load'), ('types', 'simple_types.py: _IonNature, IonPy*'), ('structs', 'core.py: Multimap')],
     ('abstract interpretation of load on documents from an independent encoder, the values compared with the document\'s content', 'other', LNOTE))
prop('L02', 'dump writes the value it is given',
     'For every Python value of a mapped kind (None, bool, int, float, Decimal, datetime, Timestamp, str, bytes, tokens, list, tuple, dict, IonPyDict with repeated fields, the IonPy types '
     'with any annotations, typed nulls), nested anyhow, dump and dumps produce, as binary or text with any indent, a document of exactly that value: type, content, '
     'annotations, field order; with sequence_as_stream the elements as top level values, with tuple_as_sexp tuples (but not tokens) as expressions, imports used and '
     'declared, the version marker present unless omitted; a str or bytes as asked for.',
     ['inputs', 'configurations'], '420 values in 4 places with 4 annotation lists and 2 encodings, all trees of up to 3 containers, all combinations of the options',
     'The tests dump fixed values with mostly default options; the result is a product of Python type, Ion type, annotations, place and options.',
     SIM + ['amazon/ion/writer.py', 'amazon/ion/writer_binary.py', 'amazon/ion/writer_text.py'],
     [('dump', 'simpleion.py: dump, dumps, _dump, _ion_type'), ('types', 'simple_types.py: _IonNature.to_event, from_value')],
     ('abstract interpretation of dump on Python values, the output read by independent decoders', 'other', LNOTE))
