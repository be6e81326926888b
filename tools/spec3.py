prop('T08', 'SKIP in the text reader delivers the end of the current container, nothing else',
     'For every Ion text input and every event within a container, answering the event with SKIP makes the next event the end of the container the '
     'consumer is in (the one just started, after a container start), at its depth; nothing in between is delivered, however the text is split into '
     'pieces and whatever nests or is quoted inside; what follows is read as if nothing had been skipped, and malformed text that is skipped is still rejected. '
     'The reader always answers.',
     ['inputs', 'schedules', 'histories'], 'all inputs, all points at which SKIP is possible (after a container start, a value, the end of an inner container), pieces of one or two characters',
     'The tests skip a handful of documents; the property ranges over every skipped content, split and sequence of SKIP and NEXT.',
     TXT, [('skip trampoline', 'reader_text.py: _skip_trampoline'), ('container coroutine', 'reader_text.py: _container_handler'),
           ('data requests', 'reader_text.py: _read_data_handler')],
     (AI + '; non-termination by repeated states', 'other', AINOTE))
prop('P01', 'Readers reject every request that the read protocol forbids',
     'At every point of every conversation with the text or binary reader: the first request must be NEXT; after INCOMPLETE or STREAM_END only DATA is '
     'accepted (the text reader accepts NEXT after INCOMPLETE as a flush); after any other event DATA is refused; empty data is refused; SKIP at the '
     'top level is refused except directly after a container start. A refused request raises TypeError (ValueError for empty data) and is never '
     'answered with an event.',
     ['histories', 'schedules'], 'all event histories of both readers and every illegal request after each',
     'The tests send each illegal request at one or two points; the property ranges over every point of every conversation.',
     TXT + ['amazon/ion/reader_binary.py'], [('trampoline', 'reader.py: reader_trampoline'), ('reader construction', 'reader_text.py: reader; reader_binary.py: raw_reader')],
     ('abstract interpretation of both readers; at every reached answer each illegal request is tried on a copy of the abstract state', 'other',
      'The conversations are those of the text and binary explorations (bounded nesting, all characters/octets abstract).'))
prop('G01', 'Readers and writers share no mutable state through the modules',
     'No call changes an object that exists since the modules were imported: no module or class attribute is rebound, no shared list, buffer, coroutine or iterator is '
     'changed or advanced, no existing entry of a shared table is replaced. Readers and writers that are used alternately, or one after the other after an '
     'error, therefore cannot influence each other.',
     ['histories', 'schedules'], 'all calls on all explored paths of the readers and writers, in any interleaving of instances',
     'Tests use one reader or writer at a time and check its own output; leaked state shows only in interleavings they do not run.',
     TXT + ['amazon/ion/reader_binary.py'], [('shared tables', 'reader_text.py, reader_binary.py: module-level transition and parser tables'),
           ('shared helpers', 'util.py: coroutine; reader.py: BufferQueue, CodePointArray')],
     ('effect analysis: every heap write on the abstractly interpreted paths is traced to the creation of its target', 'other',
      'Adding a new key to a shared dictionary (cache, defaultdict default) is not counted as a change. Paths: the explorations of the other checks.'))
prop('G02', 'Behaviour does not depend on assert statements (python -O)',
     'With assertions disabled, at import and in calls, the readers deliver the same events and values and reject the same inputs, and the writers write the same and reject the same events, as with assertions enabled: '
     'no assert statement has an effect that the program needs, and none stands in for input validation.',
     ['inputs', 'histories'], 'all inputs of the reader and writer explorations, with every assert removed',
     'The tests always run with assertions enabled.',
     TXT + ['amazon/ion/reader_binary.py'], [('assert statements', 'reader_text.py, reader_binary.py, reader.py, writer_*.py, symbols.py: every assert')],
     ('abstract interpretation of the program with its assert statements removed, compared with the same references', 'other', AINOTE))
