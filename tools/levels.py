"""How each property is decided: id -> (technique, level note)."""
NOT_APPLICABLE = []

M = 'runtime monitoring of the real code under random, hostile and history workloads; oracle: '
NOTE = ('Decides the executions of the run only: seeded random cases plus fixed scenarios through the public API, '
        'counted in the evidence; not a proof. ')

_ORACLES = {
    'P01': ('an independent model of adaptation and serialization', ''),
    'P02': ('an independent walk computing the pairs, and equality of the rebuilt tree', ''),
    'P03': ('a reference model of flat loading applied to the state before', ''),
    'P04': ('a reference model of list indexes and an allocation and step monitor', ''),
    'P05': ('an invariant monitor that walks the whole tree after every operation', ''),
    'P06': ('a Python list of adapted values run in lockstep', ''),
    'P07': ('a Python dict model with the key rules run in lockstep', ''),
    'P08': ('names and paths recomputed by an independent walk', ''),
    'P09': ('an independent parser and evaluator of path expressions', ''),
    'P10': ('a reference validation engine compared with the log of validator calls', ''),
    'P11': ('signal receivers compared one to one with the log of validator calls', ''),
    'P12': ('independent predicates for every validator, and element state before and after', ''),
    'P13': ('an independent message expander', ''),
    'P14': ('snapshots of all classes and instances before and after each derivation', ''),
    'P15': ('a reference model of property lookup over the class tree', ''),
    'P16': ('a reference model of field inheritance, and a Dict of the same fields run in lockstep', ''),
    'P17': ('recomposition of every whole from its parts after each step', ''),
    'P18': ('the target element found independently after each step', ''),
    'P19': ('a reference model of selection, and objects that log attribute access', ''),
    'P20': ('expat and an HTML tokenizer re-parsing every output', ''),
    'P21': ('a simulated browser submitting the parsed form', ''),
    'P22': ('a reference model of the settings stack and attribute transforms', ''),
    'P23': ('differential comparison of both front ends after parsing', ''),
    'P24': ('sequential runs of the same operations compared with concurrent ones, real threads and barriers',
            'Interleavings are sampled by the JVM scheduler with injected yields, not enumerated. '),
    'P25': ('a reference model of defaults', ''),
    'P26': ('independent reimplementations of each contract', ''),
    'P27': ('independent recognisers of addresses and URLs', ''),
    'P28': ('independent checksum, brand and phone models', ''),
    'P29': ('identity and result logs of all threads against a sequential run',
            'Interleavings are sampled by the JVM scheduler with injected yields, not enumerated. '),
    'P30': ('the definition of equality, emptiness and aggregation computed from the data', ''),
}
LEVELS = dict((k, (M + oracle, NOTE + extra)) for k, (oracle, extra) in _ORACLES.items())
