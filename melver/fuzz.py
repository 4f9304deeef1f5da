"""Coverage-guided stage (atheris / libFuzzer) for byte-level properties, thorough tier only.

run(prop_id, check, seed, scratch): eight fuzzing processes with instrumented melodia code, started from generated valid files;
a crash is re-run and shrunk here and returned in the form of a shard result whose case replays through the `file bytes` check.
"""
import hashlib
import os
import subprocess
import sys

SECONDS = int(os.environ.get('MELVER_FUZZ_SECONDS') or 240)
WORKERS = 8


def seeds():
    """Small valid files of many kinds, and fragments of invalid ones."""
    from . import smf
    from .miditools import encode_foreign
    from .props.midi_read import TOKENS, one
    out = []
    for k in range(12):
        evs = []
        for i in range(k):
            evs.append(['note', i * 3, (k + i // 2) % 16, 60 + i // 2, 1 + 9 * i, i % 2, k % 2])
            if i % 3 == 1:
                evs.append(['chan', i, 0xA + k % 5, k % 16, 5, 6, k % 2])
            if i % 4 == 2:
                evs.append(['sysex', 1, (0xF0, 0xF7)[k % 2], 3 + k])
            if i % 5 == 3:
                evs.append(['meta', 1, (1, 3, 0x51, 0x59, 0x7F)[k % 5], 3])
        out.append(encode_foreign(one(evs, tpq=(96, 480, 1, 3, 1000, 32767)[k % 6], ts=None if k % 3 == 0 else [k, k % 4], before=[['JUNK', k]] if k % 4 == 0 else [],
                                      extra=k % 3))[0])
    for t in TOKENS:
        out.append(smf.header() + smf.chunk(b'MTrk', b'\x00\x90\x3c\x40' + t + smf.EOT))
    return out


def shrink(data, bad, budget=4000):
    """Greedy removal and zeroing of bytes while the check still fails."""
    size = max(1, len(data) // 2)
    while size and budget:
        i, changed = 0, False
        while i < len(data) and budget:
            budget -= 1
            cand = data[:i] + data[i + size:]
            if bad(cand):
                data, changed = cand, True
            else:
                i += size
        if not changed:
            size //= 2
    return data


def run(prop_id, seed, scratch):
    import importlib
    from .lib import Violation
    mod = importlib.import_module('melver.props.midi_read')
    check = mod.FUZZ[prop_id]
    root = os.path.join(scratch, 'fuzz-' + prop_id)
    os.makedirs(root, exist_ok=True)
    procs = []
    for w in range(WORKERS):
        corpus, arts = os.path.join(root, f'corpus{w}'), os.path.join(root, f'artifacts{w}')
        os.makedirs(corpus), os.makedirs(arts)
        for s in seeds():
            with open(os.path.join(corpus, hashlib.sha1(s).hexdigest()), 'wb') as f:
                f.write(s)
        log = open(os.path.join(root, f'log{w}'), 'wb')
        wseed = int.from_bytes(hashlib.sha256(f'{seed}/{prop_id}/{w}'.encode()).digest()[:4], 'big') or 1
        procs.append((subprocess.Popen(
            [sys.executable, '-m', 'melver.fuzz_target', prop_id, corpus, f'-seed={wseed}', f'-max_total_time={SECONDS}', '-max_len=512', '-timeout=60',
             '-rss_limit_mb=4096', f'-artifact_prefix={arts}/', '-print_final_stats=1', '-verbosity=1'], stdout=log, stderr=subprocess.STDOUT), arts, corpus, log))
    evaluations, kept, failure, error = 0, 0, None, None
    samples, hashes, labels = [], set(), {}
    for p, arts, corpus, log in procs:
        p.wait()
        log.close()
        with open(log.name, 'rb') as f:
            text = f.read().decode(errors='replace')
        stats = {}
        for line in text.splitlines():
            if line.startswith('stat::'):
                k, v = line[6:].split(':')
                stats[k.strip()] = int(v)
        evaluations += stats.get('number_of_executed_units', 0)
        kept += len(os.listdir(corpus))
        for name in sorted(os.listdir(corpus)):
            hashes.add(name[:16])
        for name in sorted(os.listdir(arts)):
            with open(os.path.join(arts, name), 'rb') as f:
                data = f.read()

            def bad(d):
                try:
                    check(d)
                except Violation:
                    return True
                except Exception:                   # noqa: BLE001
                    return False
                return False

            if name.startswith('timeout-'):
                failure = (data, 'the import did not return within 60 s')
            elif bad(data):
                small = shrink(data, bad)
                try:
                    check(small)
                except Violation as e:
                    failure = (small, str(e))
            else:
                error = error or f'artifact {name} does not reproduce'
        if 'stat::number_of_executed_units' not in text and failure is None:
            error = error or text[-800:]
    labels['inputs kept for new coverage'] = kept
    res = dict(sub='file bytes', index=-1, evaluations=evaluations, labels=labels, nontrivial=sorted(hashes), samples=samples, truncated=False,
               harness_error=error if failure is None else None, known={})
    if failure is not None:
        res['failure'] = dict(case=[failure[0].hex()], message=failure[1], flaky=False, history=[])
    return res
