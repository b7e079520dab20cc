# Regenerates /verif/MANIFEST.json (development helper).
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'P01': 'record-sequence monitor over generated/fixture streams against a reference splitter/encoder',
 'P02': 'model monitor: every decoded field compared online with a reference decoder of the format layout',
 'P03': 'fault-injection monitor: exception type/location, delivery and work/allocation budgets of damaged payloads',
 'P04': 'trace checker: text runs, shapes, lines and conservation against raw payloads',
 'P05': 'trace checker: document XML tree against an independently built tree plus structural invariants',
 'P06': 'trace checker: every attribute of every XML element against reference formatting; embedded data round trip',
 'P07': 'output oracle: plain text against a reference text built from the records, through several output routes',
 'P08': 'package monitor: manifest/parts/styles/schema/text/image oracle over produced ODT packages',
 'P09': 'output monitor: XHTML/CSS oracle over produced pages, stylesheets and binaries',
 'P10': 'differential monitor: every stream view against bytes written by an independent compound-file writer',
 'P11': 'differential monitor: decrypted streams and head/digest/key/tail views against a reference protection scheme',
 'P12': 'acceptance monitor over valid, near-valid and corrupted files, exception type and exit status watched',
 'P13': 'differential monitor: property sets against an independent property-set writer',
 'P14': 'history/interleaving/threads/environment monitor: outputs compared across schedules and processes',
 'P15': 'fault injection at every reached system-level step with residue, descriptor and exit-status monitors',
 'P16': 'differential monitor: command output against the library and the reference decoder',
 'P17': 'invariant monitor over the language tokenizer, exhaustive over code points',
 'P18': 'file-system monitor (audit hook and before/after snapshots) over hostile trees',
 'P19': 'stream monitor: every byte stream read under many read-size schedules, codec round trips, damage',
 'P20': 'differential monitor between the available platform backends',
 'P21': 'viewer monitor: stand-in window toolkits record the page and files shown, compared with the converter\'s output',
 'P22': 'import monitor: a stand-in office suite records what the filter imports, compared with the converter\'s output',
 'P23': 'output monitor: computed style of every page element (own CSS engine) against the records\' shapes',
 'P24': 'output monitor: resolved OpenDocument styles of every element against the records\' shapes',
}
NA = {
}
NOTE = ('Runs the real code from /repo\'s working tree under the generated '
        'workload; holds for the executions observed.')
have = sorted(p for p in TECH if os.path.exists(
    os.path.join(V, 'checks', p.lower() + '.py')))
na = dict(NA)
for p in TECH:
    if p not in have:
        na[p] = 'check not built yet'
m = dict(version=1, setup_cmd='true', checks=[dict(
    property=p, quick_cmd='VERIF_TIER=quick ./run ' + p,
    thorough_cmd='VERIF_TIER=thorough ./run ' + p,
    technique='runtime monitoring: ' + TECH[p], level='exploration',
    level_note=NOTE) for p in have],
    not_applicable=[dict(property=p, reason=na[p]) for p in sorted(na)])
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
