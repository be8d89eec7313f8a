#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of checks."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'analysis'))
import checks
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
TECH = 'static analysis: path-sensitive abstract interpretation (value flow) of the rustc MIR of the current source, '
HOW = {
 'wire': 'comparing symbolic encodings and decodings of arbitrary values with the wire format',
 'hist': 'deciding pre/postconditions of the history and reader tables over arbitrary contents',
 'value': 'deciding pre/postconditions over arbitrary argument values',
 'decode': 'deciding the transition relation of the message decoder over arbitrary buffers',
}
KIND = {}
for i in ('C15','C16','C21','C22','C23','C24','C25','C26'): KIND[i] = 'value'
for i in ('C17','C18','C19','C20'): KIND[i] = 'hist'
for i in ('C09','C10','C11','C12','C13','C14'): KIND[i] = 'wire'
for i in ('C01','C02','C03','C04','C05','C06','C07','C08'): KIND[i] = 'decode'
NOTE = {}
try: NOTE = json.load(open(os.path.join(here, 'tools', 'notes.json')))
except OSError: pass
NA = {
 'C30': 'The code does not implement it: StatefulWriter::new, new_change and is_acked_by_all are unimplemented!() and there is no reader or sending side, so there is no source whose behaviour could be decided.',
 'C31': 'The code does not implement it: data and data-fragment submessages are unsupported kinds that the decoder skips (C02, C06 decide that).',
 'C32': 'The code does not implement it: nothing sends, ReaderLocator methods and unsent_changes_reset are unimplemented!(); the resend period is stored and never read.',
}
cs, na = [], []
for p in props:
    i = p['id']
    if i in NA: na.append({'property': i, 'reason': NA[i]})
    elif i in checks.CHECKS:
        cs.append({'property': i, 'quick_cmd': 'bash check.sh ' + i, 'thorough_cmd': 'VERIF_TIER=thorough bash check.sh ' + i,
                   'evidence_file': 'evidence/%s.json' % i, 'technique': TECH + HOW[KIND[i]], 'level': 'other',
                   'level_note': NOTE.get(i, 'Every path of the anchored functions is followed over arbitrary inputs; the violation is reported with the path through the source and a concrete assignment that takes it. See DESIGN.md for the bounds.')})
    else: na.append({'property': i, 'reason': 'check under construction'})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': cs, 'not_applicable': na}, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(cs), 'checks', len(na), 'not applicable')
