#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
T = {
 'C01': ('differential monitor: real binary vs reference decoder', 'Every token, every single byte and every two-byte lead of every model is decoded by the real binary and compared with a reference decoder'),
 'C02': ('round-trip monitor on generated texts', 'Generated texts are encoded and decoded by the real binary in all model, display and encode modes'),
 'C03': ('online check of every token choice against a reference encoder', 'Every token chosen by the real binary is compared with the documented choice; the two known deviations of smart mode are recognised exactly'),
 'C04': ('repetition monitor: fresh processes, hash seeds, directories, environments', 'Every command is repeated 6 (thorough: 16) times in processes of its own and all outputs are compared'),
 'C05': ('structural invariant monitor on every file written', 'Every structural rule of the format is recomputed on each file the real binary writes'),
 'C06': ('round-trip monitor on generated programs', 'Generated programs are converted to text and back by the real binary and compared byte for byte'),
 'C07': ('differential monitor: JSON route vs direct route', 'The JSON route is compared with the direct route byte for byte'),
 'C08': ('history monitor with a sequential model of the file', 'Random histories of edits are compared byte for byte after every step with a sequential model'),
 'C09': ('accept/refuse monitor with file snapshots', 'Every character to U+017F and every length to 69 on every route, and random strings'),
 'C10': ('crash and hang monitor: overflow and debug assertions, signals, cpu limit', 'Arbitrary, damaged and truncated input, hostile JSON and command lines on a build with overflow checks and debug assertions'),
 'C11': ('directory snapshot monitor over refusals, declines and injected errors', 'Every refusal and decline of every writing command, errors injected at every changing operation'),
 'C12': ('fault injection at every file-system operation, kills and a power-loss replay of the operation log', 'Every file-system operation of every saving command is interrupted in every way (kill before, after, error, short), and every prefix of the recorded operation log is replayed for power loss'),
 'C13': ('snapshots and order of operations in the file-system log', 'Every edit command x relation of the two paths, order of removal and save from the operation log, faults at every operation'),
 'C14': ('differential monitor: mass conversion vs single conversions', 'Generated directories are converted at once and file by file and compared'),
 'C15': ('containment monitor on the file-system log and the surrounding tree', 'Hostile names in mass conversions; every changing operation is logged, and refused outside the sandbox'),
 'C16': ('monitor on the token sets the library returns and on accept/refuse of the binary', 'Token sets of the library for 25 models x all versions, and every unavailable token and name through the binary'),
 'C17': ('output monitor against a reference lookup', 'Every token name in both spellings, all byte values, arbitrary text'),
 'C18': ('output monitor against the file content', 'All views of generated files and texts are parsed and compared'),
 'C19': ('differential monitor: one program in three containers', 'The same generated program in 8xp, 83p and 82p form and all conversions between them'),
 'C20': ('metamorphic monitor on command lines', 'Spelling and order variants of command lines against a reference spelling, refusals, option-like values'),
 'C22': ('schedule exploration: a second command at every file-system step of the first, serial results as oracle', '18 x 18 pairs of commands, the second run whole at every file-system step of the first (stopped by the monitor library), files and outputs compared with those of the serial orders; many commands at once'),
 'C23': ('refusal monitor on malformed interchange files, with intact controls', 'Every head line and every part of the JSON is removed, doubled, replaced by near misses and by values of other kinds, and given to every way in'),
 'C24': ('differential monitor: calls in one process, in sequence and on threads, vs. fresh processes (thorough: also under ThreadSanitizer)', 'Random histories of library calls on 1 to 8 threads are compared with each call alone in a fresh process; mass previews with single ones'),
 'C25': ('snapshots with metadata and a rule on the log of file-system operations', 'Every command among files of many names and permissions, with links and directories where temporary files are made; the tree is compared with all metadata, and every changing operation must be on an output or a file the command made itself'),
 'C26': ('monitor of messages and exit status against the tree of files, with faults at every operation', 'Every saving command agreed to, declined, refused and failing at each of its file-system operations; mass conversions with mixed answers and faults; what is said is compared with what was done'),
 'C27': ('differential monitor: the same command on plain names and elsewhere', 'Every command with inputs and outputs in 26 kinds of directories and spellings and under 24 kinds of names, from other working directories, against the run on plain names; near extensions are refused'),
 'C28': ('reference monitor over JSON: each field compared with the bytes, model and text it is about', 'JSON of programs in all formats, signatures, modes and sizes, of texts for all 25 models and of edited programs; each of its 26 fields is recomputed from the file, the model and the text'),
 'C21': ('monitor on written and read headers', 'All 25 models and all 256 product ids'),
}
checks = []
for p, (t, n) in T.items():
    checks.append({
        'property': p,
        'quick_cmd': f'./check.sh {p} quick',
        'thorough_cmd': f'./check.sh {p} thorough',
        'evidence_file': f'evidence/{p}.json',
        'technique': t,
        'level': 'fault_enumeration' if p == 'C12' else 'exploration',
        'level_note': n + '. Held on the executions counted in the evidence, not proved; trusts the reference model in driver/src/spec.rs and the token sheet in spec/.',
    })
json.dump({
    'version': 1,
    'setup_cmd': './build.sh',
    'hooks': {'guard': 'none', 'enable': 'none: the real binary is observed from outside (LD_PRELOAD monitor), built with debug assertions and overflow checks', 'source_commits': []},
    'checks': checks,
    'not_applicable': [],
    'notes': 'Driver in driver/, monitor library in shim/, library harness in libcheck/. Known and fixed findings in known-findings.txt.',
}, open('MANIFEST.json', 'w'), indent=1)
