#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design.tmpl.md, the registry of checks, properties.jsonl,
known_findings.txt, tools/seeds.txt and tools/costs.json (refreshed from evidence/ with --costs)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
T = os.path.join(V, 'tools')
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
cf = os.path.join(T, 'costs.json')
costs = json.load(open(cf)) if os.path.exists(cf) else {}
if '--costs' in sys.argv:
    for p in props:
        ev = os.path.join(V, 'evidence', p['id'] + '.json')
        if not os.path.exists(ev): continue
        e = json.load(open(ev)); c = e['coverage']
        costs[p['id']] = dict(wall=round(sum(j['wall_s'] for j in c['jobs'])), paths=sum(j['paths'] for j in c['jobs']),
            queries=sum(j['queries'] for j in c['jobs']), solver=round(sum(j['solver_s'] for j in c['jobs'])),
            functions=len(c['functions_encoded']))
    json.dump(costs, open(cf, 'w'), indent=0, sort_keys=True)
SPEC = {
'C01': ('parseWord returns; the engine\'s own checks (memory, asserts, exceptions, steps) are the assertions.',
        'none needed: absence of faults. Replays run under ASan/UBSan.'),
'C02': ('every edge of the result lies on a path 0 → text length, labels are complete and carry their target as end position.',
        'forward and backward reachability over the returned graph; component ranges of the Syl type.'),
'C03': ('the segments (syllable with optional pre-syllable) between text positions equal the reference set, both ways.',
        '`harness/ref.h`, an independent grammar of segments (own letter tables, no shared code), trimmed to complete chains as the program\'s result is.'),
'C04': ('the one-syllable reading exists in the graph.',
        'tables of vowel frames, initials, class × mark × live/dead tone rules in `c04_regular.cpp`, written from Thai orthography.'),
'C05': ('literal edges equal maximal runs of non-word characters; printed form is the UTF-8 text in parentheses.',
        'run splitter and own UTF-8 encoder in the harness.'),
'C06': ('edge set of `w1 + spaces + w2` equals edges(w1) ∪ space literal ∪ shifted edges(w2).',
        'relational: the program\'s own analyses of the parts.'),
'C07': ('the reading of the syllable survives with its end moved past the silenced letter.',
        'the C04 tables.'),
'C08': ('the whole graph of the abbreviation equals the spelled-out chain.',
        'own table of letter sounds and classes.'),
'C09': ('no edge crosses a chosen boundary; graph equals concatenation of the parts; with segmentation off equals the unsegmented graph.',
        'relational (analyses of the parts) plus the set of boundaries chosen symbolically by the segmenter model.'),
'C10': ('graph with dictionary equals the reference grammar with entries overriding at matching places.',
        '`ref.h` with entry matching; data of entries parsed by the harness.'),
'C11': ('Match over the compiled and loaded file reports exactly the listed prefixes with their data; no fault for arbitrary bytes.',
        'the list itself, kept by the harness.'),
'C12': ('open() is false for a damaged file, findNext() finds nothing, analysis equals the one without dictionary; last successful load wins.',
        'what was damaged is known to the harness; relational for analysis.'),
'C13': ('read(print(s)) equals s with its end position; same for strings.', 'round trip.'),
'C14': ('equal strings imply equal syllables; string = concatenation of component codes.',
        'two symbolic syllables compared (strings kept as solver terms).'),
'C15': ('equal codes iff equal (initial with r=l, vowel quality, final).', 'own equivalence on components.'),
'C16': ('romanization equals the table spelling; hyphens where stated; capital first letter.',
        'Royal Institute tables in `c16_roman.cpp`.'),
'C17': ('the respelling, decoded by an own reader of Thai spelling, gives back the syllable.',
        'reader of consonant classes, frames, marks and the tone rules in `c17_thai.cpp`.'),
'C18': ('listing equals the path enumeration, same order in each notation.', 'own path enumeration of the graph built.'),
'C19': ('output parses with a strict JSON reader into the expected nested arrays of strings.', 'strict JSON reader in the harness; own escaping-free comparison after decoding.'),
'C20': ('set of expansions of the lattice = set of paths.', 'own path enumeration; multiset-free set comparison.'),
'C21': ('axioms of a strict weak order, converses, negations, literals first, prefix first, equality relation.', 'algebraic laws, plus the component-wise meaning of equality.'),
'C22': ('all queries and both iterations equal a model set after every operation.', 'array-of-edges model in the harness.'),
'C23': ('stdout of main(argc, argv) equals the expected blocks; which analyser settings were used is seen through segmenter/dictionary models.',
        'own option interpreter; blocks made with the output classes (checked by C13–C20).'),
'C25': ('after any sequence of operations strings, groups, chains and lattices equal plain vectors kept by the harness; engine memory checks on.', 'vectors of (initial, end position) kept by the harness.'),
'C24': ('graph of the second analysis equals that of a fresh analyser; earlier results unchanged.', 'relational.'),
}
def table():
    o = []
    for p in props:
        i = p['id']; s, orc = SPEC[i]; c = costs.get(i)
        o.append(f"### {i} {p['title']}\n")
        o.append(f"* Specified: {s}")
        o.append(f"* Oracle: {orc}")
        o.append(f"* Bounds: {CHECKS[i]['bounds']}." + (' Assumed: ' + '; '.join(CHECKS[i]['assumes']) + '.' if CHECKS[i].get('assumes') else ''))
        if c: o.append(f"* Cost: {c['wall']} s, {c['paths']} paths, {c['queries']} solver queries ({c['solver']} s in z3, summed over 8 workers), {c['functions']} repository functions encoded.")
        o.append(f"* Beyond tests: {p['why_tests_cant']}\n")
    return '\n'.join(o)
def fixes():
    o = []
    for l in open(os.path.join(V, 'known_findings.txt')):
        m = re.match(r'fixed: property=(C\d\d) (\w+) (.*)', l)
        if m: o.append(f"* {m[1]}, `{m[2]}`: {m[3]}")
    return '\n'.join(o)
def seeds():
    o = ['| bug | property | what it needs | first | reported by |', '|---|---|---|---|---|']
    for l in open(os.path.join(T, 'seeds.txt')):
        l = l.rstrip('\n')
        if not l or l[0] == '#': continue
        o.append('| ' + ' | '.join(l.split('\t')) + ' |')
    return '\n'.join(o)
t = open(os.path.join(T, 'design.tmpl.md')).read()
for k, f in (('@TABLE@', table), ('@FIXES@', fixes), ('@SEEDS@', seeds)): t = t.replace(k, f())
open(os.path.join(V, 'DESIGN.md'), 'w').write(t)
