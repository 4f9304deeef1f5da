"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PBT = 'property-based testing (Hypothesis) '
T = {
    'C01': PBT + 'of the text/parse round trip against an independent spelling table, plus enumerated pitch range',
    'C02': PBT + 'with grammar-based and mutated texts against an independent recogniser',
    'C03': PBT + 'against integer and exact-ratio arithmetic',
    'C04': PBT + 'differential against exact fractions',
    'C05': PBT + 'differential against exact fractions, operation chains, invalid-argument generation',
    'C06': PBT + 'of notes in all argument forms and derivation chains against a tuple model',
    'C07': PBT + 'differential against tuple comparison, sorting',
    'C08': PBT + 'stateful: generated histories against a list model, bounded-exhaustive small histories',
    'C09': PBT + 'stateful: generated histories against an exact length model',
    'C10': PBT + 'metamorphic: rewritten and minimally changed twin tracks against a multiset model',
    'C11': PBT + 'of the repr/eval round trip',
    'C12': PBT + 'with an independent strict MIDI file parser as oracle',
    'C13': PBT + 'with an independent event model computed from exact fractions',
    'C14': PBT + 'of the export/import round trip on the common time grid',
    'C15': PBT + 'of the export/import round trip with exact error bounds',
    'C16': PBT + 'with synthetic foreign files; coverage-guided differential fuzzing (atheris) in the thorough tier',
    'C17': PBT + 'with synthetic multi-channel files, all channel arguments',
    'C18': PBT + 'byte-level mutation fuzzing; coverage-guided fuzzing (atheris) in the thorough tier',
    'C19': PBT + 'exhaustive truncation and generated header damage',
    'C20': PBT + 'placing unrepresentable elements anywhere, with a recording output file',
    'C21': PBT + 'with fault injection at every read/write call and every exception type',
    'C22': PBT + 'stateful: histories of use of shared writers, readers, files against fresh objects',
    'C23': PBT + 'against an independent interval table',
    'C24': PBT + 'against a model of argument inheritance, generated invalid arguments',
    'C25': PBT + 'differential: regenerated module against the shipped one',
    'C26': PBT + 'comparing shape before and after, with later edits of both tracks',
    'C27': PBT + 'exact bounds, generated invalid settings, seeded statistical comparison with the clamped normal law',
    'C28': PBT + 'metamorphic: repeated import/export of synthetic files, independent parser as oracle',
    'C29': PBT + 'stateful: multi-track histories across all modules against one model',
    'C30': PBT + 'against the stated text formats, over growing tracks',
    'C31': PBT + 'generated thread schedules on a deterministic scheduler, and re-entrant file objects, against each operation alone',
    'C33': PBT + 'stateful: wrong arguments and failing iterables mixed into histories, against a track without them',
    'C32': PBT + 'of deep copies and pickles against twins built afresh',
}
with open(os.path.join(ROOT, 'properties.jsonl')) as f:
    ids = [json.loads(x)['id'] for x in f if x.strip()]
assert sorted(T) == sorted(ids)
checks = []
for i in ids:
    checks.append(dict(
        property=i, quick_cmd=f'./check {i} --tier quick', thorough_cmd=f'./check {i} --tier thorough', technique=T[i], level='exploration',
        level_note='Holds on every generated and enumerated case; counts, the rule for non-trivial cases and samples are in the evidence file. '
                   + ('One recorded finding (see KNOWN_FINDINGS.txt) is reported as such. ' if i == 'C28' else '')
                   + 'Nothing is proved for inputs that were not generated.'))
m = dict(version=1, setup_cmd="/opt/veriftools/pyvenv/bin/python -c 'import hypothesis, atheris' && chmod +x ./check", checks=checks, not_applicable=[])
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
