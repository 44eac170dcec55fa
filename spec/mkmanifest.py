"""Write MANIFEST.json from properties.jsonl (python3 spec/mkmanifest.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 'P31': 'Robustness against malformed proofs is a negative statement about every slice index, unwrap and subtraction reachable from verify() with adversarial lengths; the code does abort on truncated proofs by design (slice indexing in the channel), so the property does not hold as a whole and no static rule over the current tree could both pass and mean it. The accept/reject conditions themselves are decided under P01, P02, P05.',
 'P32': 'A probability bound over the random oracle (soundness error of FRI and of the query phase) is a mathematical theorem about the protocol, not a property of constructs in the source; the parameters it depends on are decided under P21 and the protocol steps under P01 and P02.',
 'P33': 'Timing depends on the generated machine code, the allocator and data dependent loops the design deliberately has (Lehmer gcd inversion, wNAF): the code does not claim it, and the source level analysis here has no timing model.',
}
TECH = {
 'default': 'canonical value graphs of the MIR compared with the reviewed graph of each anchored function',
 'P09': 'constant evaluation: the constants are read from the compiler and their defining equations recomputed exactly',
 'P25': 'unsafe-site census over MIR with dominating-guard analysis, plus value graphs of the guards',
 'P26': 'effect analysis over the resolved call graph (ambient sources), plus value graphs',
 'P27': 'value graphs of every member of the operator and trait families (by value, by reference, assigning, inline) compared with the graphs reviewed to denote one operation',
 'P28': 'dataflow of Result values (discarded errors) and exact error conditions in the value graphs',
}
LEVEL = 'other'
checks = []; na = []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); i = p['id']
    if i in NA: na.append(dict(property=i, reason=NA[i])); continue
    t = TECH.get(i, TECH['default'])
    checks.append(dict(property=i, quick_cmd=f'bin/check {i} quick', thorough_cmd=f'bin/check {i} thorough', technique='static analysis: ' + t, level=LEVEL,
      level_note='Static analysis of the type-checked program (MIR): every path of every anchored function is covered symbolically by the analysis, for all inputs, up to the modelled primitives listed in the evidence; equality of value graphs is decided by canonical form (sound for "unchanged", conservative for "changed").',
      evidence_file=f'evidence/{i}.json'))
json.dump(dict(version=1, setup_cmd='bash bin/setup.sh', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), len(na))
