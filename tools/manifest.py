#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
HOOK = 'ac1dc3b'
field_note = ('Random search, not a proof: millions of operands per field in the quick tier, in representations reached by expressions '
 'of the public API, against schoolbook integers that share nothing with the code. Trusts the reference integers (self-tested at '
 'every start) and that pack on a copy shows the integer an element stands for (itself decided by F08).')
curve_note = ('Random search, not a proof: points from a structured pool, scaled and lazily represented coordinates, structured '
 'scalars, against the affine addition law over reference integers. Trusts the reference law and the guarded accessors of the '
 'stored coordinates.')
TECH = {
 'F01': 'property-based testing: generated operands and targeted results against reference integers, shrinking',
 'F02': 'property-based testing: generated operands and targeted results against reference integers, shrinking',
 'F03': 'property-based testing: generated operands, inverted targets and power chains against reference integers, shrinking',
 'F04': 'property-based testing: generated elements and machine integers against reference integers, shrinking',
 'F05': 'property-based testing: generated non-zero elements; inverse and quotient against reference integers',
 'F06': 'property-based testing: generated residues and non-residues; Jacobi symbol by reciprocity as oracle',
 'F07': 'property-based testing: generated squares; the root must square back over reference integers',
 'F08': 'property-based testing: round trips and reference little-endian encodings of generated integers',
 'F09': 'property-based testing: metamorphic (two routes to one integer) and reference comparison of normal forms',
 'F10': 'property-based testing: generated congruent and nearly congruent pairs against integer equality',
 'F11': 'property-based testing: every generated bit index against the reference integer',
 'F12': 'property-based testing: generated masks, bitwise operations and selects against reference integers',
 'F13': 'property-based testing: differential testing of the spellings of each operation on generated operands',
 'F14': 'property-based testing: formatting of generated elements against reference hexadecimal',
 'F15': 'property-based testing: generated random sources (including adversarial words) with canonicity, determinism and spread invariants',
 'F16': 'stateful model-based testing: generated operation histories over registers against reference integers',
 'F17': 'property-based testing with a differential of build modes: the same generated chains in an overflow-checked and an unchecked build',
 'F18': 'metamorphic property-based testing: equal sequences of control-flow edges and array indices for two generated operand sets (LLVM edge and index instrumentation)',
 'F19': 'property-based testing: published constants against their names, and their laws on generated operands',
 'F20': 'property-based testing: stored forms after normalising operations against a second route and reference bits',
 'F21': 'property-based testing: generated buffers around generated encodings; metamorphic (surroundings must not matter or change)',
 'F22': 'property-based testing with fault injection: generated elements formatted whole and into sinks that fail after a generated number of bytes',
 'F23': 'metamorphic property-based testing: generated lists of operations repeated in generated orders and on several threads at once',
 'C01': 'property-based testing: generated point pairs (equal, opposite, small order, scaled) against the reference addition law',
 'C02': 'property-based testing: generated points and doubling chains against the reference addition law',
 'C03': 'property-based testing: generated points and tripling chains against the reference addition law',
 'C04': 'property-based testing: generated constructions over old content against the reference law',
 'C05': 'property-based testing: generated points and scalars against reference double-and-add',
 'C06': 'metamorphic property-based testing: group relations between generated multiples',
 'C07': 'property-based testing: generated witnesses, multiples and points against the published parameters (Miller-Rabin, Hasse interval, reference group laws)',
 'C08': 'metamorphic property-based testing: equal sequences of control-flow edges and array indices for two generated points and scalars (LLVM edge and index instrumentation)',
 'C09': 'property-based testing: generated fields and curves, small ones searched completely, against the affine law',
 'C10': 'stateful model-based testing: generated histories of point operations against a reference group',
 'C12': 'property-based testing with a differential of build modes: the same generated point operations in an overflow-checked and an unchecked build',
 'C13': 'metamorphic property-based testing: generated lists of point operations repeated in generated orders and on several threads at once',
 'C11': 'property-based testing: differential testing of the spellings of each point operation',
}
NOTE = {
 'F17': field_note + ' "Never panics" is over what was generated; the unchecked build is compared through the reference and through a hash of all results.',
 'F18': 'Random search over pairs of operand sets; the branches and array indices compared are those of an unoptimised build (LLVM edge and index instrumentation of the library), compared through a 64-bit hash and a count. What an optimising back end or the processor makes of them is not judged.',
 'C07': 'The parameters are fixed, so the generated part is primality witnesses, multiples and points; agreement with documented values, curve equations, orders and Hasse interval is decided exactly. Primality is up to Miller-Rabin error (at most 4^-24 per order and run).',
 'C09': 'For every prime up to 61 and every non-square d the point, pair and scalar spaces are enumerated completely (in pseudo-random scalings and representations); beyond that random search. Assumes that the harness\'s small field implements the documented interface.',
}
NOTE['C08'] = NOTE['F18']
NOTE['F23'] = field_note + ' The interleavings of the threads are those that happened: schedules are sampled by running, not enumerated.'
NOTE['C13'] = curve_note + ' The interleavings of the threads are those that happened: schedules are sampled by running, not enumerated.'
NOTE['C12'] = curve_note + ' "Never panics" is over what was generated; the builds are compared through a hash of all resulting coordinates.'
m = {
 'version': 1,
 'setup_cmd': 'bash ./check.sh build',
 'hooks': {
  'guard': 'cfg verif_hooks',
  'enable': 'RUSTFLAGS="--cfg verif_hooks" (check.sh sets it for its own builds)',
  'source_commits': [subprocess.check_output(['git', '-C', '/repo', 'rev-parse', HOOK], text=True).strip()],
 },
 'checks': [],
 'not_applicable': [],
 'notes': 'DESIGN.md explains the machinery; known_findings.txt lists the defects found and repaired. '
          'bash ./check.sh replay <file> runs a recorded case again.',
}
for p in props:
    i = p['id']
    m['checks'].append({
     'property': i,
     'quick_cmd': f'bash ./check.sh {i} quick',
     'thorough_cmd': f'bash ./check.sh {i} thorough',
     'evidence_file': f'evidence/{i}.json',
     'technique': TECH[i],
     'level': 'exploration',
     'level_note': NOTE.get(i, field_note if i[0] == 'F' else curve_note),
    })
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
