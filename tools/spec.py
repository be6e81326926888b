"""Generates properties.jsonl and MANIFEST.json.  Edit the tables below, then run: python3 tools/spec.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TXT = ['amazon/ion/reader_text.py', 'amazon/ion/reader.py', 'amazon/ion/util.py', 'amazon/ion/core.py']
AI = 'abstract interpretation of the reader coroutines to a fixpoint, in lockstep with a reference grammar'
AINOTE = ('Every character class is one abstract character; states are canonicalised and explored to a fixpoint, so all inputs '
          'of any length within the stated nesting and annotation bounds are covered. Trusted: the abstract machine\'s models of '
          'Python and its libraries, the reference grammar in sa/reftext.py. Inputs the reference leaves open (OOS) are not judged.')

P = []


def prop(id, title, statement, over, text, why, files, mech, check=None, na=None):
    assert len(title) <= 80, title
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), check, na))


WHY_IN = 'The tests sample a few hundred literals; the property ranges over every character sequence, including %s.'

prop('T01', 'Text number literals are recognised exactly and deliver their digits',
     'For every Ion text input, an int, decimal or float literal is accepted exactly when Ion 1.0 allows it in its context and is '
     'delivered once, with the right type and with the value its characters denote. A malformed number is never delivered; it is '
     'rejected with an IonException.',
     ['inputs'], 'all character sequences that form or resemble numbers, at top level and inside containers, ended by any character or by end of input',
     WHY_IN % 'numbers followed by comments, misplaced underscores and signs, and numbers cut off at the end of input',
     TXT, [('numeric token handlers', 'reader_text.py: _number_*_handler, _numeric_handler_factory and the handlers built from it'),
           ('number parsing thunks', 'reader_text.py: _parse_number, _base_10, _base_n'),
           ('value termination', 'reader_text.py: _ends_value, _number_slash_end_handler')],
     (AI, 'other', AINOTE))
prop('T02', 'Text timestamps are recognised exactly and keep precision and offset',
     'For every Ion text input, a timestamp literal is accepted exactly when it is a complete Ion 1.0 timestamp of some precision, '
     'and the delivered value has the year, month, day, hour, minute, second, fraction, local offset and precision that were written. '
     'A malformed timestamp is rejected and never delivered as a value.',
     ['inputs'], 'all character sequences that begin like a timestamp, ended by any character or by end of input',
     WHY_IN % 'timestamps that break off after each component and every placement of T, Z, signs and colons',
     TXT + ['amazon/ion/core.py'], [('timestamp state machine', 'reader_text.py: _timestamp_handler, _timestamp_zero_start_handler'),
                                    ('component marshalling', 'reader_text.py: _parse_timestamp; core.py: timestamp')],
     (AI, 'other', AINOTE + ' Ranges of the components (month 13, hour 24) are checked when the value is built and are not part of the grammar.'))
prop('T03', 'Keywords, typed nulls, symbols and version markers are told apart',
     'For every Ion text input, an unquoted token is delivered as null, typed null, bool, nan/inf, version marker, symbol identifier, operator or '
     'plain symbol exactly as Ion 1.0 prescribes for its context. A token that merely begins like a keyword is never mistaken for it, and a symbol '
     'keeps all of its characters.',
     ['inputs'], 'all unquoted tokens at top level, in lists and s-expressions, as annotations, followed by any character or end of input',
     WHY_IN % 'every proper prefix and extension of every keyword and typed null',
     TXT, [('keyword matching', 'reader_text.py: _symbol_or_keyword_handler, _typed_null_handler, _inf_or_operator_handler_factory'),
           ('symbol tokens', 'reader_text.py: _unquoted_symbol_handler, _symbol_identifier_or_unquoted_symbol_handler, _IVMToken, _as_symbol')],
     (AI, 'other', AINOTE))
prop('T04', 'Quoted text and its escapes are decoded exactly',
     'For every Ion text input, strings, long strings and quoted symbols end at their closing quotes and nowhere else, deliver exactly the '
     'characters written with every escape decoded and every newline normalised, and adjacent long strings are joined. An illegal escape, an '
     'unpaired surrogate escape or an unescaped newline in short text is rejected.',
     ['inputs'], 'all quoted tokens as values, annotations and field names, with any sequence of characters and escapes',
     WHY_IN % 'escapes next to quotes, surrogate pairs and empty quoted symbols next to long strings',
     TXT, [('code point reader', 'reader_text.py: _next_code_point_handler; util.py: _next_code_point, CodePoint'),
           ('quoted text handlers', 'reader_text.py: _quoted_text_handler_factory, _long_string_handler, _single_quote_handler_factory')],
     (AI, 'other', AINOTE))
prop('T05', 'Containers, field names, annotations and comments nest exactly as written',
     'For every Ion text input, containers open and close in matching order at the right depth, every value carries exactly the field name and the '
     'annotations written for it, and white space and comments never change the values delivered. Missing or surplus delimiters, dangling '
     'annotations, and field names without values are rejected.',
     ['inputs', 'histories'], 'all interleavings of structural characters, symbols, comments and values',
     WHY_IN % 'comments at every position between annotation, field name, value and delimiter',
     TXT, [('container coroutine', 'reader_text.py: _container_handler, _HandlerContext'),
           ('comments', 'reader_text.py: _comment_handler, _sexp_slash_handler')],
     (AI, 'other', AINOTE + ' Nesting is explored to depth 2 (3 when thorough) with at most two annotations per value.'))
prop('T06', 'Text blobs and clobs are recognised exactly and deliver their content',
     'For every Ion text input, a blob or clob is accepted exactly when Ion 1.0 allows it and is delivered once, with the base-64 digits or the '
     'characters and escapes that were written. Comments, stray quotes and separated closing braces inside lobs are rejected.',
     ['inputs'], 'all character sequences that begin with two opening braces',
     WHY_IN % 'quotes, pads and white space at every position within the braces',
     TXT, [('lob handlers', 'reader_text.py: _lob_start_handler, _lob_end_handler_factory, _blob_end_handler, _clob_end_handler, _parse_lob')],
     (AI, 'other', AINOTE + ' Wrongly padded base-64 is left open by the reference.'))
prop('T07', 'Text events do not depend on how the input is split into requests',
     'For every Ion text input and every way of splitting it into successive pieces handed to the reader, the same events and errors result, and '
     'the reader asks for more data instead of failing or delivering a partial value while a value is incomplete.',
     ['inputs', 'schedules'], 'all inputs and all splits into pieces of one or two characters in any order, for every token kind',
     'The tests feed whole documents or single fixed splits; the property ranges over every split point of every token.',
     TXT, [('data requests', 'reader_text.py: _read_data_handler and every len(queue) == 0 test'), ('buffer queue', 'util.py/reader.py: BufferQueue'),
           ('trampoline', 'reader.py: reader_trampoline')],
     (AI + ' under nondeterministic input splitting', 'other', AINOTE))

for _n in range(2, 9):
    _f = os.path.join(HERE, 'tools', 'spec%d.py' % _n)
    if os.path.exists(_f):
        exec(open(_f).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for d, _, _ in P:
            f.write(json.dumps(d) + '\n')
    man = dict(version=1, setup_cmd='sh ./setup.sh', checks=[], not_applicable=[])
    for d, c, na in P:
        if c:
            man['checks'].append(dict(property=d['id'], quick_cmd='./check.sh %s quick' % d['id'],
                                      thorough_cmd='./check.sh %s thorough' % d['id'], technique='static analysis: ' + c[0],
                                      level=c[1], level_note=c[2]))
        else:
            man['not_applicable'].append(dict(property=d['id'], reason=na))
    json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


main()
