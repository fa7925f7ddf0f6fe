#!/usr/bin/env python3-vt
"""Writes MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PBT = 'property-based testing: '
MODEL = ('Trusts vf/refmodel.py, an independent model of CommonMark 0.29 that '
         'reproduces all 649 examples of the specification; texts the '
         'specification leaves open are excluded and counted.')
T = {
 'C01': (PBT + 'random and structured fuzzing with a crash, time and memory oracle; enumerated deep nestings',
         'Exploration: no exception or hang on the generated texts in every output format.'),
 'C02': (PBT + 'differential against an independent reference model; bounded enumeration of short line sequences',
         'Exploration. ' + MODEL),
 'C03': (PBT + 'differential against an independent reference model; bounded enumeration of short strings',
         'Exploration. ' + MODEL),
 'C04': (PBT + 'hostile text generation, strict HTML reader, round-trip of every text',
         'Exploration. Trusts the strict reader in vf/htmlread.py.'),
 'C05': (PBT + 'adversarial destinations against a browser-like scheme reader; safe output compared with unsafe',
         'Exploration. Trusts the scheme reader in the check; destinations between the zones of the statement are only checked for consistency.'),
 'C06': (PBT + 'round-trip of random strings written with escapes and references; enumeration of code points',
         'Exploration; backslash cases enumerate code points (all of them when thorough).'),
 'C07': (PBT + 'round-trip of arbitrary content through code blocks and spans in containers',
         'Exploration. Expected content known by construction.'),
 'C08': (PBT + 'metamorphic relations: wrapping, indenting, lazy continuation',
         'Exploration. The document alone is the oracle of the wrapped one.'),
 'C09': (PBT + 'documents of definitions and references against a resolution model; enumeration of case variants',
         'Exploration. Case folding as in the Python that runs the check.'),
 'C10': (PBT + 'byte-level equivalence and idempotence of destinations; enumeration of code points',
         'Exploration. Compares decoded bytes and reserved characters.'),
 'C11': (PBT + 'metamorphic relations between equivalent spellings',
         'Exploration.'),
 'C12': (PBT + 'stateful histories of several parsers and renderers against fresh instances and a package imported anew; interruptions after a random number of executed lines',
         'Exploration of random histories.'),
 'C13': (PBT + 'stateful operation sequences against an ordered-tree model',
         'Exploration of random operation sequences.'),
 'C14': (PBT + 'walks and resumed walks against a recursive traversal model',
         'Exploration.'),
 'C15': (PBT + 'normalize on random trees against a merge model',
         'Exploration.'),
 'C16': (PBT + 'dump decoded and compared with the tree (round-trip)',
         'Exploration.'),
 'C17': (PBT + 'output matched line by line against a layout model; text order on every document',
         'Exploration. Constructs the renderer does not support are only checked for text order.'),
 'C18': (PBT + 'random texts through the command against the library (differential)',
         'Exploration; a tenth of the cases run a real process.'),
 'C19': (PBT + 'invariants of source ranges and re-parsing of the ranges',
         'Exploration.'),
 'C20': (PBT + 'metamorphic relation between smart and plain trees, and a model of quotes and dashes; enumerated runs',
         'Exploration. Trusts the smart mode of vf/refmodel.py for quotes.'),
 'C21': (PBT + 'enumeration of all named references and of numeric references, random near misses',
         'Exploration; names are exhaustive, numbers exhaustive when thorough. Trusts html.entities.html5.'),
 'C22': (PBT + 'lists written from a specification of their blank lines; reference model; bounded enumeration',
         'Exploration. ' + MODEL),
 'C23': (PBT + 'random built and edited trees, HTML read back to the tree (round-trip)',
         'Exploration. Trusts the strict reader in vf/htmlread.py.'),
 'C24': (PBT + 'random repeated families, growth of executed lines and CPU time',
         'Exploration. Growth judged on executed lines (deterministic) and, with a wide margin, on CPU time.'),
 'C25': (PBT + 'metamorphic relations: joining documents, changing one text',
         'Exploration.'),
 'C26': (PBT + 'words of the raw HTML and autolink grammars and near misses of them',
         'Exploration. ' + MODEL),
 'C27': (PBT + 'numbered words in random markup, conservation and order of words',
         'Exploration. Needs no model of Markdown.'),
 'C28': (PBT + 'generated trees written in random spellings and parsed back (round-trip)',
         'Exploration. The expected tree is known by construction.'),
 'C29': (PBT + 'random renderers and subclasses over random trees against a model of the event loop (metamorphic)',
         'Exploration.'),
 'C30': (PBT + 'random repeated fragments, proportionality of executed lines (deterministic); CPU time for long hard families',
         'Exploration. Growth judged on executed lines, confirmed over three doublings.'),
}
m = {
    'version': 1,
    'setup_cmd': 'python3-vt tools/selfcheck.py',
    'checks': [
        {'property': p,
         'quick_cmd': 'python3-vt run.py %s --tier quick' % p,
         'thorough_cmd': 'python3-vt run.py %s --tier thorough' % p,
         'evidence_file': 'evidence/%s.json' % p,
         'technique': t, 'level': 'exploration', 'level_note': n}
        for p, (t, n) in sorted(T.items())],
    'not_applicable': [],
}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
