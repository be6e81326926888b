REGISTRY = {
    'T01': 'text:run', 'T02': 'text:run', 'T03': 'text:run', 'T04': 'text:run', 'T05': 'text:run', 'T06': 'text:run',
    'T07': 'text:run', 'T08': 'text:run',
    'G01': 'shared:shared', 'G02': 'shared:asserts',
    'P01': 'proto:run', 'P02': 'chunk:run',
    'S01': 'symbol:run', 'S02': 'symbol:run', 'L01': 'simple:run', 'L02': 'simple:run',
    'W01': 'writer:run', 'W02': 'writer:run', 'W03': 'writer:run', 'W04': 'writer:run',
    'E01': 'equal:run', 'V01': 'value:run', 'V02': 'value:run', 'S03': 'tables:run',
    'B01': 'binary:run', 'B02': 'binary:run', 'B03': 'binary:run',
}
