"""Registry of the checks: property -> jobs (harness, sources, bounds)."""
SYL = ['sylstring']
OUT = ['output']
CHECKS = {}
CHECKS['C14'] = {
    'bounds': 'every pair of syllables: 21 initials x 4 cluster letters x 24 vowels x 9 finals x 5 tones each (no cluster letter on a glottal initial); end position any 32-bit value',
    'jobs': [
        {'name': 'codes', 'harness': 'c14_phonetic.cpp', 'mods': OUT, 'reach': ['end']},
        {'name': 'pairs', 'harness': 'c14_phonetic.cpp', 'mods': OUT, 'defs': {'quick': ['PAIR']}, 'reach': ['same', 'differ']},
    ]}
CHECKS['C13'] = {
    'bounds': 'every syllable with every end position in -99999..99999; strings of up to 3 syllables with end positions in -99..99',
    'jobs': [
        {'name': 'syllable', 'harness': 'c13_raw.cpp', 'mods': OUT, 'reach': ['neg', 'pos']},
        {'name': 'strings', 'harness': 'c13_raw.cpp', 'mods': OUT, 'defs': {'quick': ['STR=2'], 'thorough': ['STR=3']}, 'reach': ['strings']},
    ]}
CHECKS['C15'] = {
    'bounds': 'every pair of syllables (21 x 4 x 24 x 9 x 5 each); any 32-bit end position',
    'jobs': [
        {'name': 'codes', 'harness': 'c15_soundex.cpp', 'mods': OUT, 'reach': ['end']},
        {'name': 'pairs', 'harness': 'c15_soundex.cpp', 'mods': OUT, 'defs': {'quick': ['PAIR']}, 'reach': ['same', 'differ']},
    ]}
CHECKS['C16'] = {
    'bounds': 'every syllable; every pair of syllables in sequence (quick: without cluster letters; thorough: with, capitalized or not); strings of up to 4 (thorough 5) elements over initials {k, ng, glottal}, finals {none, ng, n}, literals and blanks',
    'jobs': [
        {'name': 'syllable', 'harness': 'c16_roman.cpp', 'mods': OUT, 'reach': ['end']},
        {'name': 'pairs', 'harness': 'c16_pair.cpp', 'mods': OUT, 'defs': {'quick': ['NOCLUSTER'], 'thorough': []}, 'reach': ['hyphen', 'plain']},
        {'name': 'strings', 'harness': 'c16_roman.cpp', 'mods': OUT, 'defs': {'quick': ['STR=4'], 'thorough': ['STR=5']}, 'reach': ['hyphen', 'plain']},
    ]}
CHECKS['C17'] = {
    'bounds': 'every syllable that can exist (no mid tone on dead endings, no cluster letter on a glottal initial)',
    'jobs': [{'name': 'respelling', 'harness': 'c17_thai.cpp', 'mods': OUT, 'reach': ['mid', 'highlow']}]}
CHECKS['C21'] = {
    'bounds': 'every pair and triple of syllables, ordinary or literal of up to 2 arbitrary UTF-16 units, end positions -128..127; every pair of strings of up to 2 (thorough 3) such syllables',
    'jobs': [
        {'name': 'pairs', 'harness': 'c21_order.cpp', 'mods': SYL, 'reach': ['same', 'lit', 'lits']},
        {'name': 'triples', 'harness': 'c21_order.cpp', 'mods': SYL, 'defs': {'quick': ['TRIPLE', 'LLEN=1'], 'thorough': ['TRIPLE']}, 'reach': ['lt', 'ge']},
        {'name': 'strings', 'harness': 'c21_order.cpp', 'mods': SYL, 'defs': {'quick': ['STRS=2', 'LLEN=1'], 'thorough': ['STRS=3', 'LLEN=1']}, 'reach': ['less', 'greater', 'tied', 'eq', 'ne']},
    ]}
DAGM = ['lattice']
CHECKS['C22'] = {
    'bounds': 'every sequence of 4 (thorough 5) operations (add, remove, remove direct edges, union, copy/assign) on two graphs over three nodes with arbitrary initials as labels (literals in a shorter run), observed through every query',
    'jobs': [
        {'name': 'ops', 'harness': 'c22_dag.cpp', 'mods': DAGM, 'defs': {'quick': ['OPS=4'], 'thorough': ['OPS=5']}, 'reach': ['add', 'removed', 'absent', 'direct', 'union', 'copy']},
        {'name': 'ops-literals', 'harness': 'c22_dag.cpp', 'mods': DAGM, 'defs': {'quick': ['OPS=2', 'LITS'], 'thorough': ['OPS=3', 'LITS']}, 'reach': ['add', 'removed', 'absent', 'direct', 'union', 'copy']},
    ]}
CHECKS['C20'] = {
    'bounds': 'every acyclic graph of up to 6 (thorough 7) distinct edges over 4 nodes or 5 (thorough 6) over 5 nodes (one of them possibly a pre-syllable node), arbitrary initials as labels, edges added in two orders; every subset of the complete graph on 5 nodes (thorough 6), labels distinct or shared, edges of one length possibly doubled; graphs made from every list of up to 3 (thorough 4) readings of up to 3 syllables over 4 nodes',
    'jobs': [
        {'name': 'graphs', 'harness': 'c20_group.cpp', 'mods': DAGM, 'defs': {'quick': ['K=6'], 'thorough': ['K=7']}, 'reach': ['several', 'chains', 'empty']},
        {'name': 'graphs5', 'harness': 'c20_group.cpp', 'mods': DAGM, 'defs': {'quick': ['N=5', 'K=5'], 'thorough': ['N=5', 'K=6']}, 'reach': ['several', 'chains', 'empty']},
        {'name': 'subsets', 'harness': 'c20_group.cpp', 'mods': DAGM, 'defs': {'quick': ['N=5', 'SUBSETS'], 'thorough': ['N=6', 'SUBSETS']}, 'time': {'thorough': 900}, 'reach': ['several', 'chains', 'empty']},
        {'name': 'lists', 'harness': 'c20_group.cpp', 'mods': DAGM, 'defs': {'quick': ['LISTS=3'], 'thorough': ['LISTS=4']}, 'reach': ['several', 'chains', 'again']},
    ]}
CHECKS['C18'] = {
    'bounds': 'every acyclic graph of up to 4 (thorough 5) edges over 4 nodes (one possibly a pre-syllable node), each label an own syllable, a syllable shared with others, a literal or a blank; all five notations; raw listing with arbitrary syllables for up to 3 (thorough 4) edges',
    'jobs': [
        {'name': 'listings', 'harness': 'c18_list.cpp', 'mods': OUT, 'defs': {'quick': ['K=4'], 'thorough': ['K=5']}, 'reach': ['empty', 'several', 'long', 'blank']},
        {'name': 'labels', 'harness': 'c18_list.cpp', 'mods': OUT, 'defs': {'quick': ['SYMB', 'K=3'], 'thorough': ['SYMB', 'K=4']}, 'reach': ['several']},
    ]}
CHECKS['C19'] = {
    'bounds': 'literals of up to 2 (thorough 3) arbitrary Unicode characters except NUL; every acyclic graph of up to 4 (thorough 5) edges over 4 nodes with ordinary and quote-bearing literal labels; plain and grouped JSON; lists of up to 3 readings of 0 to 2 syllables or ASCII literals, plain JSON',
    'jobs': [
        {'name': 'text', 'harness': 'c19_json.cpp', 'mods': OUT, 'defs': {'quick': ['TEXT=2'], 'thorough': ['TEXT=3']}, 'reach': ['text']},
        {'name': 'graphs', 'harness': 'c19_json.cpp', 'mods': OUT, 'defs': {'quick': ['N=4', 'K=4'], 'thorough': ['N=4', 'K=5']}, 'reach': ['empty', 'several']},
        {'name': 'lists', 'harness': 'c19_json.cpp', 'mods': OUT, 'defs': {'quick': ['LISTS=3']}, 'reach': ['list', 'empty']},
    ]}
CHECKS['C23'] = {
    'bounds': 'every sequence of up to 3 (thorough 4) arguments, each any one-letter option (any character), --help, --version, an unknown long option, -d without path, -d with a readable or a missing file, or one of two words; up to two input lines with or without final newline when no word is given; arbitrary standard input of up to 4 (thorough 5) and up to two argument words of up to 2 characters out of newline, return, space, a, ko kai, sara aa, period, hyphen',
    'assumes': ['option letters are not combined in one argument', 'expected blocks are made with the output classes, which C13..C20 check on their own'],
    'jobs': [
        {'name': 'args', 'harness': 'c23_main.cpp', 'mods': ['thpronun'], 'mains': ['thpronun/thpronun.cxx'], 'file_flags': {'thpronun/thpronun.cxx': ['-UEXCEPT_DICT_DIR', '-DEXCEPT_DICT_DIR="."']},
         'defs': {'quick': ['ARGS=3'], 'thorough': ['ARGS=4']}, 'reach': ['stop', 'grouped', 'json', 'plain', 'nobreak', 'dict', 'stdin', 'info', 'unknown']},
        {'name': 'words', 'harness': 'c23_main.cpp', 'mods': ['thpronun'], 'mains': ['thpronun/thpronun.cxx'], 'file_flags': {'thpronun/thpronun.cxx': ['-UEXCEPT_DICT_DIR', '-DEXCEPT_DICT_DIR="."']},
         'defs': {'quick': ['WORDS=4'], 'thorough': ['WORDS=5']}, 'reach': ['stdin', 'args']},
    ]}
GEN = {'harness': 'c11_dict.cpp', 'mods': ['dict'], 'extra': ['dict/gen-lookup-dict.c'], 'mains': ['dict/gen-lookup-dict.c']}
CHECKS['C11'] = {
    'bounds': 'lists of up to 3 words of 1..2 (thorough 1..3) arbitrary Thai characters with 1..2 arbitrary data bytes, with and without final newline, looked up in arbitrary non-NUL text of 3 (thorough 4) characters at two positions; lists of up to 4 (thorough 5) items with data lengths around the growth limits of the data pool; a list of 290 words with 240 bytes of data each, one byte in every 64th free; arbitrary files of up to 6 (thorough 8) bytes',
    'assumes': ['words are listed once; a line (word, tab, data) has at most 254 bytes; looked-up text has no NUL'],
    'jobs': [
        dict(GEN, name='lists', defs={'quick': ['WORDS=3', 'WLEN=2', 'TLEN=3'], 'thorough': ['WORDS=3', 'WLEN=3', 'TLEN=4']}, reach=['found']),
        dict(GEN, name='pool', defs={'quick': ['POOL=4'], 'thorough': ['POOL=5']}, reach=['found']),
        dict(GEN, name='many', defs={'quick': ['MANY=290']}, reach=['found']),
        dict(GEN, name='bytes', defs={'quick': ['BYTES=6'], 'thorough': ['BYTES=8']}, reach=['rejected', 'accepted']),
    ]}
PAR = ['parser']
CHECKS['C12'] = {
    'bounds': 'a two-word dictionary file: missing, cut at every byte of the size header and data and at nine places of the index, every 32-bit value of the size header, up to two arbitrary bytes after the end, files of up to 6 arbitrary bytes; every sequence of 3 (thorough 5) loads of two good, one truncated and one missing file',
    'assumes': ['corruption inside the index (libdatrie data) or the data text, which the format cannot detect, is outside the property'],
    'jobs': [
        {'name': 'files', 'harness': 'c12_bad.cpp', 'mods': PAR, 'reach': ['noheader', 'truncated', 'header', 'junk', 'trailing', 'missing', 'good']},
        {'name': 'loads', 'harness': 'c12_bad.cpp', 'mods': PAR, 'defs': {'quick': ['SEQ=3'], 'thorough': ['SEQ=5']}, 'reach': ['good', 'bad']},
    ]}
T1 = 'CUTC*|CาC**|Cรร**|CCรร*|บริ**|จระ**|บดV**|CัTว**|เCีT***|เCืT***|C็อ***|CTอC*|กฤ***'
T2 = 'กาCCUC|เCCืTอ*|แCC็**|CUTCC์*|CUCิ์*|CัวะC์*|CัTวะ**|มาCรร*|กาCบริ*|CาCบดี|CาCจระ*|โkCิ์*|เCาะ**|CC็อC*|กาCCาC|CCTวC*|กCรรC*|หCUC*|เKCTอ*|เkCยC*'
T3 = 'CUC**|CCUC*|เC***|LC***|Cฤ***|ฤ****|กUCCV*|เCCUT*|เCCีย**|เCCีTยะ**|กรรC**|กฤCC*|นาCCCา|บริC**|กา****|โKCUC*|เkCอะ**|เkCาะ**|CCืTอC*|เKCิTC*|เKCยC*'
T4 = 'เCยLก|ไCยLก|CUCLก|CาCLก|CัCLก|CCLก|เCCLก|CรรLก|CรLก|CฤLก|ฤCLก|คฤหLก|บริLก|จระLก|บดีLก|CืLก|CาCCLก|CาCิLก|CาCรLก|โCCLก|CCฤ|CาCฤ|CUCฤ|เCCฤ|CCTวCLก'
# silenced letters after every vowel form
T5 = 'เCิC์C*|เCิTC์C|เCCิC์C|C็อC์C|แC็C์C|เC็C์C|LCC์C|LCTC์C|เCีTยC์C|เCืTอC์C|CัTวC์C|CTวC์C|CTอC์C|CาC์C*|CาTC์C|เCTC์C|เCTยC์|เCยC์C|CรรC์C|CฤC์C|ฤC์C*|CำC์|เCาC์*|เCTาC์|CัC์C*|CัTC์C|CUCC์*|CUTCC์C|CCC์*|CTC์C'
# every vowel form with one and two initials, with and without tone mark, followed by a final with a vowel after it, or by a cluster
F1 = 'CาT|CUT|เCีTย|เCืTอ|CัTว|CTว|CTอ|LCT|เCT|เCิT|เCTย|CรรT|Cฤ|C็อ|แC็|เC็|CัT'.split('|')
F2 = 'CCาT|CCUT|เCCีTย|เCCืTอ|CCัTว|CCTว|CCTอ|LCCT|เCCT|เCCิT|CC็อ|แCC็|CCัT'.split('|')
_nt = lambda fs: [f.replace('T', '') for f in fs]
T6 = '|'.join(dict.fromkeys([f + 'CV' for f in F1 + _nt(F1) + _nt(F2)] + [f + 'CCา' for f in _nt(F1)] + [f + 'C' for f in F2]))
T7 = '|'.join(f + 'CV' for f in F2)
def tpls(s): return 'TPLS=' + ','.join('u"%s"' % x for x in s.split('|'))
SMALL = 'ALPHA=u"กานเร"'
MIXED = 'ALPHA=u"กาน-.\\x20"'
DOTS = 'ALPHA=u"กนา์เ."'
TOT = {'harness': 'c01_total.cpp', 'mods': PAR, 'reach': ['end']}
CHECKS['C01'] = {
    'bounds': 'every text of up to 4 (thorough 5) characters of ASCII and the Thai block; with every set of word breaks up to 3 (thorough 4); with a four-word dictionary up to 4; every text of up to 3 (thorough 4) characters of all Unicode; every string of up to 6 (thorough 8) bytes; words made of 20 (thorough 40) equal syllables with any initial (step limit 40 million)',
    'assumes': ['the dictionary is compiled from well-formed data', 'the segmenter is any function reporting break positions inside the text'],
    'jobs': [
        dict(TOT, name='text', defs={'quick': ['L=4'], 'thorough': ['L=5']}, time={'thorough': 600}),
        dict(TOT, name='breaks', defs={'quick': ['L=3', 'BREAKS', 'DICT'], 'thorough': ['L=4', 'BREAKS', 'DICT']}),
        dict(TOT, name='dict', defs={'quick': ['L=4', 'DICT'], 'thorough': ['L=4', 'DICT']}),
        dict(TOT, name='unicode', defs={'quick': ['WIDE', 'L=3'], 'thorough': ['WIDE', 'L=4']}),
        dict(TOT, name='bytes', defs={'quick': ['BYTES=6'], 'thorough': ['BYTES=8']}),
        dict(TOT, name='long', defs={'quick': ['LONG=20'], 'thorough': ['LONG=40']}, max_steps=40000000),
    ]}
COV = dict(TOT, reach=['some', 'none'])
CHECKS['C02'] = {
    'bounds': 'every text of up to 4 (thorough 5) characters of ASCII and the Thai block; with every set of word breaks up to 3 (thorough 4) characters; with a four-word dictionary (alternatives, pre-syllables) up to 4; up to 3 characters of all Unicode',
    'assumes': ['the dictionary is compiled from well-formed data', 'the segmenter is any function reporting break positions inside the text'],
    'jobs': [
        dict(COV, name='text', defs={'quick': ['COVER', 'L=4'], 'thorough': ['COVER', 'L=5']}, time={'thorough': 600}),
        dict(COV, name='breaks', defs={'quick': ['COVER', 'L=3', 'BREAKS'], 'thorough': ['COVER', 'L=4', 'BREAKS']}),
        dict(COV, name='dict', defs={'quick': ['COVER', 'L=4', 'DICT'], 'thorough': ['COVER', 'L=4', 'DICT']}),
        dict(COV, name='unicode', defs={'quick': ['COVER', 'WIDE', 'L=3'], 'thorough': ['COVER', 'WIDE', 'L=3']}),
    ]}
CHECKS['C03'] = {
    'bounds': 'every word of up to 5 word characters; (thorough) every word of 4 arbitrary characters and a fixed syllable before or after; every word of 3 to 8 characters of 161 (thorough 193) patterns, among them every vowel form with one and two initials followed by a final, a linked final, a cluster or a silenced letter',
    'assumes': ['the rules are those of the reference grammar in harness/ref.h'],
    'jobs': [
        {'name': 'patterns', 'harness': 'c03_rules.cpp', 'mods': PAR, 'defs': {'quick': [tpls('|'.join((T1, T2, T4, T5, T6)))], 'thorough': [tpls('|'.join((T1, T2, T3, T4, T5, T6, T7)))]}, 'time': {'quick': 250, 'thorough': 1500}, 'reach': ['some', 'none']},
        {'name': 'words', 'harness': 'c03_rules.cpp', 'mods': PAR, 'defs': {'quick': ['L=5']}, 'time': {'quick': 500, 'thorough': 3000}, 'reach': ['some', 'none']},
        {'name': 'longer', 'harness': 'c03_rules.cpp', 'mods': PAR, 'thorough_only': True, 'defs': {'quick': [tpls('****Lก|****กา|****ฤ|กา****|เ*****')]}, 'time': {'thorough': 2000}, 'reach': ['some', 'none']},
    ]}
CHECKS['C04'] = {
    'bounds': 'every syllable: 51 vowel forms x (44 single initials, 8 ho-nam, 15 true clusters) x (no mark, 4 marks where one can be written) x every final consonant',
    'assumes': ['two ro rua in a row are left to the ro-han forms, and k/kh + wo waen + final to the vowel ua'],
    'jobs': [{'name': 'syllables', 'harness': 'c04_regular.cpp', 'mods': PAR, 'reach': ['toned', 'plain', 'cluster']}]}
CHECKS['C05'] = {
    'bounds': 'runs of up to 3 (thorough 4) arbitrary Unicode characters before, between and after Thai words; every text of up to 3 (thorough 4) characters of ASCII and the Thai block; printing of literals of up to 2 (thorough 3) arbitrary characters in all five notations',
    'jobs': [
        {'name': 'runs', 'harness': 'c05_literal.cpp', 'mods': PAR, 'defs': {'quick': ['LEN=3'], 'thorough': ['LEN=4']}, 'reach': ['end']},
        {'name': 'mixed', 'harness': 'c05_mix.cpp', 'mods': PAR, 'defs': {'quick': ['LEN=3'], 'thorough': ['LEN=4']}, 'reach': ['some', 'none']},
        {'name': 'printed', 'harness': 'c05_literal.cpp', 'mods': ['parser', 'output'], 'defs': {'quick': ['OUTP=2'], 'thorough': ['OUTP=3']}, 'reach': ['end']},
    ]}
CHECKS['C06'] = {
    'bounds': 'every pair of words of up to 2 and 2 (thorough 3 and 2) word characters, and of up to 3 and 3 (thorough 4 and 3) characters over six letters and the period, separated by one or two spaces; every word of 4 (thorough 5) word characters before and after a fixed word and a space; words of 2..4 characters of 6 patterns after 90 (thorough 150) other words',
    'jobs': [
        {'name': 'pairs', 'harness': 'c06_space.cpp', 'mods': PAR, 'defs': {'quick': ['N1=2', 'N2=2'], 'thorough': ['N1=3', 'N2=2']}, 'reach': ['some', 'none']},
        {'name': 'longer', 'harness': 'c06_space.cpp', 'mods': PAR, 'defs': {'quick': ['N1=3', 'N2=3', DOTS], 'thorough': ['N1=4', 'N2=3', DOTS]}, 'reach': ['some', 'none']},
        {'name': 'ends', 'harness': 'c06_space.cpp', 'mods': PAR, 'defs': {'quick': [tpls('****/กา|กา/****')], 'thorough': [tpls('*****/กา|กา/*****')]}, 'time': {'thorough': 900}, 'reach': ['some', 'none']},
        {'name': 'far', 'harness': 'c06_space.cpp', 'mods': PAR, 'defs': {'quick': ['FAR=90', tpls('/CCา|/CUC|/บริ*|/จระ*|CU/กา|/C.')], 'thorough': ['FAR=150', tpls('/***|/CCา|/CUC|/บริ*|/จระ*|CU/กา|/C.')]}, 'time': {'thorough': 900}, 'reach': ['some', 'none']},
    ]}
CHECKS['C07'] = {
    'bounds': 'every regular syllable (as in C04) followed by every silenced consonant',
    'assumes': ['two ro rua in a row are left to the ro-han forms'],
    'jobs': [{'name': 'silenced', 'harness': 'c04_regular.cpp', 'mods': PAR, 'defs': {'quick': ['KARAN']}, 'reach': ['toned', 'plain']}]}
CHECKS['C08'] = {
    'bounds': 'up to 3 (thorough 4) groups of 1..4 arbitrary consonants, each with period, optionally separated by a space, the last one possibly a lone letter; every text of up to 4 (thorough 5) of: any consonant, period, space, sara aa',
    'jobs': [
        {'name': 'groups', 'harness': 'c08_abbr.cpp', 'mods': PAR, 'defs': {'quick': ['LEN=1', 'GROUP=3'], 'thorough': ['LEN=1', 'GROUP=4']}, 'reach': ['end', 'lone']},
        {'name': 'texts', 'harness': 'c08_abbr.cpp', 'mods': PAR, 'defs': {'quick': ['LEN=4'], 'thorough': ['LEN=5']}, 'reach': ['some', 'none']},
    ]}
CHECKS['C09'] = {
    'bounds': 'every word of up to 3 (thorough 4) word characters, every text of up to 3 characters of ASCII (no NUL) and the Thai block and every text of 5 (thorough 6) characters over six letters, each with every set of break positions; every word of 4 (thorough 5) word characters followed or preceded by a fixed word after a break; words of 2..4 characters of 5 patterns after 130 (thorough 260) words and breaks; two-word dictionaries with every text of up to 4 (thorough 5) over five letters and a break at any place',
    'assumes': ['the segmenter is any function reporting break positions inside the text'],
    'jobs': [
        {'name': 'words', 'harness': 'c09_breaks.cpp', 'mods': PAR, 'defs': {'quick': ['LEN=3'], 'thorough': ['LEN=4']}, 'time': {'thorough': 900}, 'reach': ['some', 'none', 'whole']},
        {'name': 'mixed', 'harness': 'c09_breaks.cpp', 'mods': PAR, 'defs': {'quick': ['LEN=3', 'MIX'], 'thorough': ['LEN=3', 'MIX']}, 'reach': ['some', 'none', 'whole']},
        {'name': 'longer', 'harness': 'c09_breaks.cpp', 'mods': PAR, 'defs': {'quick': ['LEN=5', DOTS], 'thorough': ['LEN=6', DOTS]}, 'time': {'thorough': 900}, 'reach': ['some', 'none', 'whole']},
        {'name': 'ends', 'harness': 'c06_space.cpp', 'mods': PAR, 'defs': {'quick': ['BREAK', tpls('****/รา|***/Cา|***/แก|***/ฤ|กา/****')], 'thorough': ['BREAK', tpls('*****/รา|****/Cา|****/แก|****/ฤ|กา/*****')]}, 'time': {'thorough': 900}, 'reach': ['some', 'none']},
        {'name': 'far', 'harness': 'c06_space.cpp', 'mods': PAR, 'defs': {'quick': ['BREAK', 'FAR=130', tpls('/CCา|/CUC|/บริ*|/จระ*|CU/กา')], 'thorough': ['BREAK', 'FAR=260', tpls('/***|/CCา|/CUC|/บริ*|/จระ*|CU/กา')]}, 'time': {'thorough': 900}, 'reach': ['some', 'none']},
        {'name': 'dictionary', 'harness': 'c10_except.cpp', 'mods': PAR, 'defs': {'quick': ['POOL', 'BRK', 'WORDS=2', 'LEN=4', SMALL], 'thorough': ['POOL', 'BRK', 'WORDS=2', 'LEN=5', SMALL]}, 'time': {'thorough': 900}, 'reach': ['some', 'none']},
    ]}
CHECKS['C10'] = {
    'bounds': 'dictionaries of up to 2 words of 1 arbitrary character and every text of up to 2 word characters, of one word of up to 2 (thorough 3) and texts of up to 3, with five kinds of data (one syllable, two alternatives, pre-syllable with syllable, one syllable per character, a pre-syllable inside); up to 2 of 8 fixed overlapping words with every text of up to 4 (thorough 5) over five letters and over three letters, hyphen, period and space, also with a word break at any place (then up to 5 (thorough 6) letters); a dictionary of four words with texts of 3 patterns after 90 (thorough 150) other words',
    'assumes': ['the dictionary is compiled from well-formed data'],
    'jobs': [
        {'name': 'any', 'harness': 'c10_except.cpp', 'mods': PAR, 'defs': {'quick': ['WORDS=2', 'KLEN=1', 'LEN=2'], 'thorough': ['WORDS=1', 'KLEN=3', 'LEN=3']}, 'time': {'thorough': 900}, 'reach': ['some', 'none']},
        {'name': 'letters', 'harness': 'c10_except.cpp', 'mods': PAR, 'defs': {'quick': ['WORDS=1', 'KLEN=2', 'LEN=3'], 'thorough': ['WORDS=1', 'KLEN=2', 'LEN=3']}, 'time': {'thorough': 900}, 'reach': ['some', 'none']},
        {'name': 'pool', 'harness': 'c10_except.cpp', 'mods': PAR, 'defs': {'quick': ['POOL', 'WORDS=2', 'LEN=4', SMALL], 'thorough': ['POOL', 'WORDS=2', 'LEN=5', SMALL]}, 'time': {'thorough': 900}, 'reach': ['some', 'none']},
        {'name': 'breaks', 'harness': 'c10_except.cpp', 'mods': PAR, 'defs': {'quick': ['POOL', 'BRK', 'WORDS=2', 'LEN=5', SMALL], 'thorough': ['POOL', 'BRK', 'WORDS=2', 'LEN=6', SMALL]}, 'time': {'thorough': 900}, 'reach': ['some', 'none']},
        {'name': 'mixed', 'harness': 'c10_except.cpp', 'mods': PAR, 'defs': {'quick': ['POOL', 'WORDS=2', 'LEN=4', MIXED], 'thorough': ['POOL', 'WORDS=2', 'LEN=5', MIXED]}, 'time': {'thorough': 900}, 'reach': ['some', 'none']},
        {'name': 'mixed-breaks', 'harness': 'c10_except.cpp', 'mods': PAR, 'defs': {'quick': ['POOL', 'BRK', 'WORDS=2', 'LEN=4', MIXED], 'thorough': ['POOL', 'BRK', 'WORDS=2', 'LEN=5', MIXED]}, 'time': {'thorough': 900}, 'reach': ['some', 'none']},
        {'name': 'far', 'harness': 'c06_space.cpp', 'mods': PAR, 'defs': {'quick': ['DICT', 'FAR=90', tpls('/Cา|/CาC|CU/มาC')], 'thorough': ['DICT', 'FAR=150', tpls('/Cา|/CาC|CU/มาC|/***')]}, 'time': {'thorough': 900}, 'reach': ['some', 'pre']},
    ]}
CHECKS['C24'] = {
    'bounds': 'every pair of words of up to 2 word characters, and of up to 3 (thorough 4) characters over five letters, and of up to 3 (thorough 4) characters of 6 (thorough 11) patterns, analysed in turn by one and by two analysers, with and without dictionary, results kept, copied and modified',
    'jobs': [
        {'name': 'pairs', 'harness': 'c24_history.cpp', 'mods': PAR, 'defs': {'quick': ['LEN=2']}, 'reach': ['dict', 'plain']},
        {'name': 'patterns', 'harness': 'c24_history.cpp', 'mods': PAR, 'defs': {'quick': [tpls('KUK|KKา|LKK|Kา|กUย|กิ')], 'thorough': [tpls('CUC|KK|LK|KUK|KKา|LKK|Kา|กUย|กิ|LC*|CาC*')]}, 'time': {'thorough': 900}, 'reach': ['plain']},
        {'name': 'longer', 'harness': 'c24_history.cpp', 'mods': PAR, 'defs': {'quick': ['LEN=3', SMALL], 'thorough': ['LEN=4', SMALL]}, 'time': {'thorough': 900}, 'reach': ['dict', 'plain']},
    ]}
CHECKS['C25'] = {
    'bounds': 'every sequence of 4 (thorough 5) operations (append, join, self-append, set, copy, move, set from an own syllable, shift) on two syllable strings with arbitrary initials and end positions -128..127; groups of up to 2 (thorough 3) and up to 2 alternatives of 1..2 arbitrary syllables, and chains and lattices made of them',
    'jobs': [
        {'name': 'strings', 'harness': 'c25_values.cpp', 'mods': SYL, 'defs': {'quick': ['OPS=4'], 'thorough': ['OPS=5']}, 'reach': ['append', 'join', 'set', 'copy', 'self', 'shift']},
        {'name': 'groups', 'harness': 'c25_values.cpp', 'mods': DAGM, 'defs': {'quick': ['GROUPS', 'OPS=3'], 'thorough': ['GROUPS', 'OPS=4']}, 'reach': ['few', 'many', 'empty']},
    ]}
NOT_APPLICABLE = {}
