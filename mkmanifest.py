#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
T = 'TLA+ specification checked with TLC; '
STD = T + 'traces of the real code followed by the specification (TraceStd: every result must be the one the specification computes)'
REL = T + 'traces of the real code followed by the relational specification (%s)'
K = {'C01': (STD, 'messages of every length 0..260, long ones and constructed carries; compression function itself computed by the specification'),
     'C02': (REL % 'uninterpreted hash, kind inc', 'every TLC-enumerated call history to the given depth plus seeded longer ones'),
     'C03': (STD, 'single-bit walks of key and block, chained encryptions, random keys'),
     'C04': (STD, 'every cipher x mode x padding x IV length x data length near the boundaries; one known finding (padding procedure 2 pinned by the tests)'),
     'C05': (REL % 'uninterpreted cipher, kind stream', 'round trips cut independently on both sides'),
     'C06': (REL % 'uninterpreted cipher, kind stream', 'every TLC-enumerated way of cutting to the given depth, more than 256 blocks included'),
     'C07': (REL % 'gamma pieces pairwise distinct, kind gamma', 'every TLC-enumerated sequence of ragged and whole pieces to the given depth; up to 70000 gamma blocks per object'),
     'C08': (STD, 'every TLC-enumerated history of updates to the given depth; both reductions of both subkeys'),
     'C09': (STD, 'every key length 0..64; TLC-enumerated histories with copies and resets'),
     'C10': (STD, 'block boundaries, more than 255 blocks, iteration counts 1..2100'),
     'C11': (STD, 'counter carries up to the exhaustion of 1- and 2-byte counters, TLC-enumerated life cycles'),
     'C12': (STD, 'every built-in curve; constructed keys, digests and random values'),
     'C13': (STD, 'constructed adversarial signatures: range edges, point at infinity, coinciding summands, keys off the curve'),
     'C14': (STD, 'every built-in curve; edge and random private keys'),
     'C15': (STD, 'generated parameter sets violating each single condition, embedding degrees 1..131, both forms'),
     'C16': (REL % 'kind err', 'every entry point x every kind of wrong argument, on fresh and used objects'),
     'C17': (REL % 'results as functions of the own history, kind iso', 'interleavings of objects, writes into every passed and returned buffer'),
     'C18': (REL % 'noninterference of twins after clear, kind clear', 'twins that differ in the secret only, every kind of object'),
     'C19': (STD, 'component and length boundaries, malformed text, the whole register'),
     'C20': (REL % 'kind fresh, with the system source recorded and scripted', 'scripted source values outside the range, freshness across objects and separate processes'),
     'C21': (REL % 'kind attr', 'attributes read throughout TLC-enumerated histories of every kind of object'),
     'C22': (REL % 'objects with refused calls against objects without, kind refuse', 'every kind of object, refused calls at every position of a history, several per history; refused constructors'),
     'C23': (STD, 'every length to 140, cancelling differences, single bits, widths around the size of the number')}
json.dump({'version': 1, 'setup_cmd': 'python3 check.py --setup',
           'checks': [{'property': p, 'quick_cmd': 'python3 check.py %s quick' % p, 'thorough_cmd': 'python3 check.py %s thorough' % p,
                       'technique': t, 'level': 'model_checking', 'level_note': n} for p, (t, n) in K.items()],
           'not_applicable': []}, open('/verif/MANIFEST.json', 'w'), indent=1)
