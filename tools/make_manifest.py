"""Writes MANIFEST.json for every check module present."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'C01': ('runtime monitoring: round-trip workload judged by an independent content model', ''),
 'C02': ('runtime monitoring: recorded bytes and readers compared with an independent SEG-Y encoder/decoder', ''),
 'C03': ('runtime monitoring: packers of generated header formats compared with placement by offset', ''),
 'C04': ('runtime monitoring: conversions compared with exact rational arithmetic', ''),
 'C05': ('runtime monitoring: IBMFloat operations compared with exact rational arithmetic', ''),
 'C06': ('runtime monitoring: histories of catalog operations compared with a dictionary', ''),
 'C07': ('runtime monitoring: random access histories and enumerated truncation points against a content model', ''),
 'C08': ('runtime monitoring: indexes of generated surveys compared with the numbers in their trace headers', ''),
 'C09': ('runtime monitoring: histories of cached reading, across processes, compared with uncached readers', ''),
 'C10': ('runtime monitoring with fault injection: enumerated crash points, failing operations and racing processes', ''),
 'C11': ('runtime monitoring: pickled and restored objects compared with the originals, across processes', ''),
 'C12': ('runtime monitoring: trace of callback arguments judged by an online specification', ''),
 'C13': ('runtime monitoring: operation logs of tracing handles and datasets, weak references, allocation tracing', ''),
 'C14': ('runtime monitoring: bytes and lines compared with independent formatting', ''),
 'C15': ('runtime monitoring: pages, bytes and positions compared with independent pagination', ''),
 'C16': ('runtime monitoring: detected encodings compared with those used to write', ''),
 'C17': ('runtime monitoring: collections and utilities compared with reference definitions', ''),
 'C18': ('runtime monitoring: bytes of chains of rewrites compared with canonical encodings', ''),
 'C19': ('runtime monitoring: members and bytes of delegating datasets compared with their sources', ''),
 'C20': ('runtime monitoring: extracted arrays compared with dictionaries filled from the trace headers and samples', ''),
 'C21': ('runtime monitoring: mutated files and failing handles under exception, operation-count and resource monitors', ''),
 'C22': ('runtime monitoring: outputs and exit statuses of processes compared with the library and the content model', ''),
 'C23': ('runtime monitoring: histories of header operations compared with a dictionary per object, weak references', ''),
 'C24': ('runtime monitoring: toolkit calls and file positions compared with an independent encoder', ''),
 'C26': ('runtime monitoring: threads under a controlled scheduler and alternating activities, each judged against its own content model', ''),
 'C27': ('runtime monitoring: process-wide state, descriptors, output, weak references and allocations observed around calls which succeed or fail', ''),
 'C28': ('runtime monitoring: results of a battery of uses compared between processes with different environments', ''),
 'C29': ('runtime monitoring: conversions in processes with installed implementations which can be told apart by their results', ''),
 'C30': ('runtime monitoring: lines and calls executed, allocations and processor time of the same accesses at two sizes', ''),
 'C25': ('runtime monitoring: outputs, files and exit statuses of the example programs compared with a content model', ''),
}
import ast
checks = []
missing = []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    path = os.path.join(V, 'checks', i.lower() + '.py')
    if not os.path.exists(path):
        missing.append(dict(property=i, reason='The check is still being built.'))
        continue
    consts = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and node.targets[0].id in ('LEVEL', 'RULE', 'ASSUMPTIONS'):
            consts[node.targets[0].id] = ast.literal_eval(node.value)
    note = ('Held on the executions observed, which the evidence file counts: ' + consts['RULE']
            + ' Trusts the oracle in /verif/harness and the check module. Assumes: ' + '; '.join(consts['ASSUMPTIONS'] or ['nothing further']) + '.')
    checks.append(dict(property=i, quick_cmd='./check.sh {} quick'.format(i), thorough_cmd='./check.sh {} thorough'.format(i),
                       evidence_file='evidence/{}.json'.format(i), technique=TECH[i][0], level=consts['LEVEL'], level_note=note))
doc = dict(version=1, setup_cmd='true', checks=checks, not_applicable=missing,
           notes='No build and no hooks: segpy is pure Python, imported from /repo; everything observed passes through its public interfaces. DESIGN.md explains each check.')
json.dump(doc, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(missing), 'missing')
