prop('P02', 'What is read does not depend on how the input arrives',
     'For every Ion document (binary, octets of ASCII text, str) and every way its content is handed out by the file (read sizes, short reads, a cut anywhere, in a number, '
     'symbol, string, escape, length or fraction), the blocking reader over the managed reader delivers exactly the events of the document, with type, value, '
     'annotations, field name and depth, then STREAM_END; SKIP at the start of a container delivers the end of that container next and then what follows it.',
     ['inputs', 'schedules'], '420 scalar forms in containers in pieces of 1 to 8, long values cut at every position, all trees of up to 2 (thorough 3) containers with every container skipped',
     'The tests cut a fixed set of documents in a few ways; the reader can be interrupted in any state.',
     ['amazon/ion/reader.py', 'amazon/ion/reader_binary.py', 'amazon/ion/reader_text.py', 'amazon/ion/reader_managed.py'],
     [('blocking reader', 'reader.py: blocking_reader'), ('buffer', 'reader.py: BufferQueue'), ('interruptions', 'reader.py: reader_trampoline'),
      ('skipping', 'reader_binary.py: _container_handler; reader_text.py: _skip_container')],
     ('abstract interpretation of the reader stack on documents cut into pieces, compared with the document\'s content', 'other',
      'Trusted: the abstract machine\'s models of Python, the independent document encoder (sa/docs.py). The documents are those of a list; cuts are all single cuts '
      'and all uniform sizes up to 8, not all partitions.'))
