#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
T = {
 'C01': ('property-based testing: grammar-generated instructions against an independent reference encoder', 'Every instruction form with random and swept operands and modifiers is compared bit for bit with a reference encoder written separately from the code. Trusts that reference encoder.'),
 'C02': ('property-based testing: boundary-biased integer literals against an interval/encoding model', 'Values on, next to and far beyond the boundaries of every integer field, in every notation.'),
 'C03': ('property-based testing: generated literals against exact rational IEEE rounding', 'Literals biased to ties, subnormals, overflow, signed zero; exact arithmetic in the oracle.'),
 'C04': ('metamorphic property-based testing: pairs of instructions (injectivity, field independence)', 'Generated pairs and perturbations; relations between real encodings. Trusts the reference list of which spellings are synonyms.'),
 'C05': ('metamorphic property-based testing: guarded versus unguarded instruction', 'All forms under all guards, valid and malformed.'),
 'C06': ('property-based testing: generated programs with annotations against a control-word model', 'Programs of varied length, annotations in any order, invalid annotations.'),
 'C07': ('property-based testing: generated programs against group-layout model and single-instruction differential', 'Programs of up to hundreds of instructions compared with separately assembled instructions.'),
 'C08': ('model-based testing: generated programs of labels and branches, targets computed by a reference layout', 'Includes far targets at both ends of the 24-bit range.'),
 'C09': ('property-based testing: independent dksh reader over generated programs', 'The container is parsed by an independent reader and compared with the raw program and the directives.'),
 'C10': ('property-based testing: generated directive sets, valid and invalid, against a directive model', 'Order, placement, values on boundaries, malformed and repeated directives.'),
 'C11': ('metamorphic property-based testing: same program in two layouts and spellings', 'Random relayout and respelling of valid and invalid programs.'),
 'C12': ('property-based testing: token mutations judged by a reference grammar, plus enumeration of short statements', 'A mutated statement the reference grammar does not generate must be rejected. Trusts that grammar.'),
 'C13': ('fuzzing under ASan/UBSan/libstdc++ assertions: grammar, mutation and byte generators plus coverage-guided libFuzzer', 'No crash, hang, undefined behaviour or silent failure on the inputs explored.'),
 'C14': ('property-based testing: planted errors at known positions against a line/column model', 'One error planted in a generated program at a known token.'),
 'C15': ('property-based testing of the command line tool with generated invocations, files and injected I/O faults', 'Runs the real tool in scratch directories; write faults injected with file size limits, full devices and permissions.'),
 'C16': ('stateful property-based testing: call histories and concurrent schedules against fresh-process results, plus ThreadSanitizer', 'Generated histories of calls, file names, buffers and threads.'),
 'C17': ('property-based testing: generated addresses against an address-field model', 'Offsets on, next to and beyond every boundary and alignment, with and without base register.'),
 'C18': ('metamorphic property-based testing: instruction with and without reuse hints', 'All subsets of slots on all forms, and .reuse where there is no slot.'),
}
m = dict(version=1, setup_cmd='bash setup.sh', hooks=dict(guard='none (no hooks were needed)', enable='nothing to enable: the checks use the public entry points of the code', source_commits=[]),
         checks=[dict(property=k, quick_cmd='python3 check.py %s quick' % k, thorough_cmd='python3 check.py %s thorough' % k,
                      evidence_file='evidence/%s.json' % k, technique=t, level='exploration', level_note=n) for k, (t, n) in T.items()],
         not_applicable=[], notes='Replay a reported violation with: python3 check.py <id> --replay <path>. Repaired defects are listed in KNOWN_FINDINGS.txt.')
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
