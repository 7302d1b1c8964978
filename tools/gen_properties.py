#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Edit here, rerun."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
        mechanism=[dict(name=n, where=w) for n, w in mechanism],
        observe_at=observe, hook_needed=None)))

PARSER="parser/parser.cxx"
prop("C01","Analysis is total: no input crashes or hangs the analyser",
 "For every input string (any bytes, well-formed UTF-8 or not, Thai or not), with or without word segmentation and with or without a dictionary compiled from well-formed data, analysing the string terminates and returns a (possibly empty) set of readings; the time does not explode for long repetitive words. It never aborts, fails an internal assertion, lets an exception escape, or touches memory out of bounds.",
 ["inputs","configurations"],"all input strings, all word-break positions, dictionary present or absent",
 "test-parser feeds a few hundred well-formed words; truncated clusters, stray vowels, dots, mixed scripts and malformed bytes at every position are not reached.",
 [PARSER,"dict/dict.cxx","lattice/dag.inl"],
 [("lookahead guards (p.pos < stopPos) before every .at()",PARSER+": MatchInitCons, EatEndCons*, Parse*"),("string conversion in parseWord",PARSER+": Parser::parseWord")],
 ["Parser::parseWord"],
 [("pos/stopPos","current position and end of the current token",PARSER+": ParseState")])
prop("C02","Every reading covers the whole input, in order, with usable syllables",
 "In the result of an analysis every reading is a chain of syllables that starts at the beginning of the input and ends exactly at its end, each syllable starting where the previous one ends and recording its own end position. Every syllable of a reading is complete: it is either a literal chunk of the input or has a valid initial consonant, vowel, final and tone, so every output notation can print it.",
 ["inputs","configurations"],"all input strings, all word-break positions, dictionary present or absent",
 "tests compare or print whole outputs of sample words; a dangling edge, gap or invalid component only appears for particular letter sequences.",
 [PARSER,"lattice/pron-dag.cxx","lattice/dag.inl"],
 [("AddSyl edge construction and pre-syllable node encoding",PARSER+": AddSyl"),("union of final states only",PARSER+": ParseU16")],
 ["Parser::parseWord result graph (outEdges/inEdges, Syl accessors)"],
 [("node","character position; negative nodes are pre-syllable ends",PARSER+": AddSyl")])
prop("C03","The readings are exactly those the Thai spelling rules license",
 "For every word, the readings returned without an exception dictionary are exactly the chains, from the start of the word to its end, of the syllables that the Thai spelling rules the program implements license at each place (initial consonants, true/false clusters, leading consonants with their pre-syllable, implicit vowels, every written vowel form, tone marks, finals, linked finals, ro-han, ru/lu, silenced letters): no licensed syllable on such a chain is missing and no unlicensed one appears.",
 ["inputs"],"all Thai words up to the stated length bounds",
 "sample words exercise each rule for one or two letters; the rules interact through lookahead and every letter has its own row.",
 [PARSER,"thortho/thcons.cxx"],
 [("rule functions",PARSER+": MatchInitCons, ParseThCons, ParseSaraE, ParseOtherLV, ParseRuLu, EatEndConsSimple/Complex, MatchKaran*")],
 ["Parser::parseWord"])
prop("C04","Every regularly spelled syllable gets its regular reading and tone",
 "For every Thai initial consonant (single, ho-nam or true cluster), written vowel form, tone mark and final consonant, the word spelled that way has a one-syllable reading with the consonant's sound, that vowel, the final's class, and the tone given by the Thai tone rules for the initial's class, the mark, vowel length and live/dead ending. (Two ro rua in a row always spell ro-han, and wo waen before a bare final spells the vowel ua, so these are not read as cluster or final.)",
 ["inputs"],"all combinations of initial, vowel form, tone mark and final",
 "there are tens of thousands of combinations; tests list a few per vowel form.",
 [PARSER,"thortho/thcons.cxx","sylstring/sylcomp.inl"],
 [("vowel-form cases",PARSER+": ParseThCons/ParseSaraE/ParseOtherLV"),("tone computation",PARSER+": AddSyl; thortho/thcons.cxx: ToneFromWritten")],
 ["Parser::parseWord"])
prop("C05","Non-Thai text passes through verbatim",
 "Every maximal run of characters that are not part of Thai words (other scripts, digits, spaces, Thai punctuation and digits, any Unicode character) appears in every reading as one literal chunk identical to the input text, in its place, and in every notation it is printed unchanged between parentheses (the raw notation adds its end position). A period directly after such a run, other than after a space, stays in its chunk and ends it.",
 ["inputs"],"all strings mixing Thai tokens and arbitrary other characters",
 "a handful of sample strings with ASCII digits and signs.",
 [PARSER,"output/isyl-output.cxx"],
 [("SkipNonThai / literal edges",PARSER+": ParseU16"),("outputLiteral","output/isyl-output.cxx")],
 ["Parser::parseWord","ISylOutput::output"])
prop("C06","Space-separated words are analysed independently",
 "The readings of two words separated by spaces are exactly the combinations of a reading of the first word, the literal space run, and a reading of the second word; positions in the second word are those of its own analysis shifted by its offset.",
 ["inputs"],"all pairs of words and space runs within bounds",
 "one sample phrase is printed, not compared.",
 [PARSER],[("token boundaries and state pool",PARSER+": ParseU16, StatePool, FindAbbr")],["Parser::parseWord"])
prop("C07","A silenced letter never changes the sounds before it",
 "Appending a silenced consonant (a consonant bearing thanthakhat) to a word that ends in a complete syllable keeps that syllable's reading available with the same sound and tone, only ending later; the silenced letter itself is never pronounced in that reading. (A silenced ro rua right after another ro rua is ro-han and not covered.)",
 ["inputs"],"all regular syllables and all silenced consonants",
 "tests check a few karan words.",
 [PARSER],[("MatchKaranSimple/IU/Complex",PARSER)],["Parser::parseWord"])
prop("C08","Abbreviations are spelled out letter by letter",
 "A lone consonant, or a group of one to four consonants followed by a period, at the start of the text or after a space or period, has exactly one reading in which every consonant is pronounced as its letter name (its sound with the vowel of o-ang, rising tone for high-class letters and mid tone otherwise) and the period is absorbed by the last letter. A period at the start of the text, after a space or after another period is a literal of its own.",
 ["inputs"],"all consonant groups of length 1..4 and more, with and without periods, chained",
 "test-parser only prints abbreviation samples without comparing.",
 [PARSER],[("FindAbbr",PARSER)],["Parser::parseWord"])
prop("C09","Word boundaries are respected",
 "With word segmentation on, no syllable straddles a word boundary reported by the segmenter (only a period directly after a word may be absorbed into its last syllable), whichever boundaries are reported; with segmentation off the boundaries have no influence.",
 ["inputs","configurations"],"all words and all sets of break positions",
 "tests see only the segmenter's breaks for a few words.",
 [PARSER],[("stopPos from NextWordStop",PARSER+": NextWordStop, FindBreaks, ParseU16"),("lookahead bounded by stopPos",PARSER)],["Parser::parseWord with word breaks"])
prop("C10","Exception dictionary entries override the rules exactly",
 "Where the text at a syllable start matches dictionary words that end at the end of the token or before a syllable start, the readings continuing from that point are exactly those of the matching entries (all alternatives, positions shifted to the word's place) and none produced by rule; where nothing matches, the dictionary has no effect.",
 ["inputs","configurations"],"all dictionaries and words within bounds",
 "tests use five dictionary entries at fixed places.",
 [PARSER,"dict/dict.cxx","sylstring/sylstring.cxx"],
 [("FindExceptions",PARSER),("MakeSylStrings/shiftEndPos",PARSER+", sylstring/sylstring.cxx"),("Match::findNext","dict/dict.cxx")],["Parser::parseWord"])
prop("C11","A compiled dictionary returns exactly what was put in",
 "For every well-formed word list (one 'word TAB data' line per word, at most 254 bytes long, each word once), compiling it and loading the result gives a dictionary in which looking up text reports exactly the listed words that are prefixes of the text at the given position, shortest first, each with precisely its own data, and nothing else. No list, however malformed, makes the compiler read or write out of bounds or produce a file that cannot be opened safely.",
 ["inputs"],"all word lists within bounds, including data pools crossing the growth boundary",
 "test.lst has three short entries: data pool growth, long data, non-BMP letters, missing final newline are not reached.",
 ["dict/gen-lookup-dict.c","dict/dict.cxx"],
 [("DataBank growth","dict/gen-lookup-dict.c: DataBankAllocate/AddData"),("GetUTF8/ReadInput","dict/gen-lookup-dict.c"),("big-endian size header","FileWriteInt32 / ReadInt32"),("Match::findNext/getData","dict/dict.cxx")],["gen-lookup-dict output file","Dict::open, Match"])
prop("C12","A bad dictionary file is rejected and then has no effect",
 "Opening a dictionary file that is missing, empty, truncated, followed by further bytes or inconsistent in its size header never crashes: it reports failure, and afterwards analysis behaves exactly as without any dictionary. Loading a dictionary after another replaces it completely.",
 ["inputs","fault_sequences","histories"],"all truncation points and header values; all sequences of loads",
 "tests only open good files.",
 ["dict/dict.cxx",PARSER],
 [("Dict::open/close, ReadDataBank","dict/dict.cxx"),("loadExceptDict",PARSER)],["Dict::open return value","Match::findNext","Parser::parseWord"])
prop("C13","Raw codes round-trip",
 "For every syllable and end position (including encoded pre-syllable positions), the raw notation reads back through the code reader to an equal syllable with the same end position, and the raw notation of a syllable string (codes joined by commas) reads back to the same string.",
 ["inputs"],"all syllables (22 initials x 4 x 24 x 9 x 5) and all positions within the digit bound; strings up to the length bound",
 "tests compare a few codes.",
 ["output/sylout-raw.cxx","sylstring/syl.cxx","sylstring/sylstring.cxx","sylstring/sylcomp.cxx"],
 [("code tables","output/sylout-raw.cxx, sylstring/sylcomp.cxx"),("Syl(desc) and SylString(desc)","sylstring/syl.cxx, sylstring/sylstring.cxx")],["RawSylOutput::output","SylString(const std::string&)"])
prop("C14","Phonetic notation is unambiguous",
 "Two syllables have the same phonetic notation only if they are the same syllable (same initial, cluster, vowel, final and tone; a glottal initial never has a cluster letter), and the notation is the concatenation of one code per component in that order, tone digit last.",
 ["inputs"],"all pairs of syllables",
 "tests compare a few codes; collisions are relational.",
 ["output/sylout-phonetic.cxx"],[("code tables","output/sylout-phonetic.cxx")],["PhoneticSylOutput::output"])
prop("C15","Soundex merges exactly the intended distinctions",
 "Two syllables have the same soundex code if and only if they agree on initial consonant sound (with the two liquids r and l identified), on vowel quality regardless of length, and on final class; tone and cluster letter never matter.",
 ["inputs"],"all pairs of syllables",
 "tests compare a few codes.",
 ["output/sylout-soundex.cxx"],[("code tables","output/sylout-soundex.cxx")],["SoundexSylOutput::output"])
prop("C16","Romanization follows the Royal Institute scheme, including hyphens",
 "The romanization of a syllable is the Royal Institute spelling of its initial, cluster letter, vowel quality and final, independent of tone and vowel length; a reading's romanization is the syllables' romanizations concatenated in order, with a hyphen exactly before a syllable with a glottal initial and between an open syllable and one starting with ng, and capitalization changes only the first letter. Literals and blanks are printed in place; a hyphen is never put at the start, and what precedes ng after a literal is left open.",
 ["inputs"],"all syllables; all syllable strings up to the length bound, including literals and blanks",
 "tests compare a few strings.",
 ["output/sylout-roman.cxx","output/output-roman.cxx"],[("hyphen rule","output/output-roman.cxx"),("tables","output/sylout-roman.cxx")],["RomanSylOutput::output","RomanOutput::output"])
prop("C17","Thai respelling reads back to the same sound",
 "For every syllable that can exist in Thai (any tone on a live ending, any tone but mid on a dead one), the Thai-notation respelling, read by the ordinary Thai spelling and tone rules, denotes the same initial sound, cluster, vowel, final class and tone (short ia, uea, oe with a final are spelled as their long counterparts).",
 ["inputs"],"all syllables",
 "tests compare about a hundred respellings; the tone/class interplay has thousands of combinations.",
 ["output/sylout-thai.cxx"],[("high/low letter choice and tone mark","output/sylout-thai.cxx: Thai*IConsTonePair"),("vowel frames","output/sylout-thai.cxx: ThaiSyl*")],["ThaiSylOutput::output"])
prop("C18","Plain listings enumerate every reading once, in every notation",
 "For every pronunciation graph, each plain-text output lists exactly one line per path from the start to an end of the graph, in the same order for every notation, each line being the notation's syllables joined by the delimiter (a blank syllable printing a single space and no delimiter around it); an empty graph gives an empty listing.",
 ["inputs"],"all acyclic graphs and syllables within bounds",
 "tests print three fixed graphs.",
 ["output/ioutput.cxx","output/output-delim.cxx","output/output-roman.cxx"],[("DAGSylStrings","output/ioutput.cxx"),("join","output/output-delim.cxx")],["DelimOutput::output","RomanOutput::output"])
prop("C19","JSON output is always well-formed and lossless",
 "For every set of readings, including none, the JSON output is a well-formed JSON array of arrays of strings whose decoded strings are exactly the syllables of the readings in order; any character of the input that ends up in a literal (quotes, backslashes, control characters) is properly escaped. The same holds for grouped JSON at its deeper nesting.",
 ["inputs"],"all sets of readings and literal texts within bounds",
 "tests use alphabetic literals and non-empty lists only.",
 ["output/output-json.cxx","output/output-gjson.cxx"],[("array building and quoting","output/output-json.cxx, output/output-gjson.cxx")],["JsonOutput::output","GroupedJsonOutput::output"])
prop("C20","Grouping readings neither loses nor invents any",
 "For every pronunciation graph, expanding the grouped lattice (choosing one alternative in each group of a chain) yields exactly the same set of syllable sequences as the plain list of paths of the graph.",
 ["inputs"],"all acyclic graphs and labels within bounds",
 "test-prondag has six fixed graphs; merging depends on graph shape and label coincidences.",
 ["lattice/pron-dag.cxx","lattice/lattice.cxx","lattice/dag.inl"],[("mergeSingles/mergeParallels/nodeLattice","lattice/pron-dag.cxx"),("PronunFrac::operator+=, PronunChain::mergeSingles","lattice/lattice.cxx")],["PronunDAG::fracDAG().lattice()"])
prop("C21","Syllables and syllable strings are consistently ordered",
 "The six comparison operators on syllables, and on syllable strings, are mutually consistent: less-than is a strict total preorder with greater-than as its converse, less-or-equal and greater-or-equal their negations, literals sort before ordinary syllables, strings compare lexicographically with a proper prefix first; equality is an equivalence that ignores only the end position, and of two equal syllables the one ending earlier sorts first.",
 ["inputs"],"all triples of syllables; all triples of short strings",
 "tests compare fixed pairs.",
 ["sylstring/syl.cxx","sylstring/sylstring.cxx","sylstring/syl.inl","sylstring/sylstring.inl"],[("comparison operators","sylstring/syl.cxx, sylstring/sylstring.cxx")],["Syl and SylString operators"])
prop("C22","The pronunciation graph behaves as a set of labelled edges",
 "After any sequence of additions, removals, direct-edge removals, unions and copies, the graph contains exactly the resulting set of distinct labelled edges: existence queries, in- and out-degrees and the iterations from the source side and from the target side all agree with it, and each operation reports whether it changed anything.",
 ["histories","inputs"],"all operation sequences up to the length bound over small node sets and arbitrary labels",
 "test-dag checks one eight-edge graph.",
 ["lattice/dag.inl","lattice/pron-dag.cxx"],[("mFrom/mTo mirrored multimaps","lattice/dag.inl")],["DAG<T> public operations"],
 [("mFrom/mTo","forward and backward edge index","lattice/dag.h")])
prop("C23","Command-line options mean what the help says, in any order",
 "For every command line made of the documented options and words in any order, the program prints for each word, in order, the word followed by one block per requested notation in the order requested (Thai, romanization, phonetic when none is requested), all in the requested structure (plain, JSON, grouped JSON) wherever -j or -g appears; -n turns segmentation off, -d selects the dictionary; words come from standard input when none are given; help, version and unknown options stop before any analysis.",
 ["configurations","inputs"],"all option sequences up to the length bound",
 "six scripts use -d with -t or -r only.",
 ["thpronun/thpronun.cxx"],[("two-pass option loop","thpronun/thpronun.cxx: main"),("Make*Output","thpronun/thpronun.cxx")],["standard output, exit status"])
prop("C24","Analysis of a word does not depend on what was analysed before",
 "Analysing a word gives the same readings whatever words the same analyser, or another one, has analysed before, and however many results are alive; results are independent values.",
 ["histories","inputs"],"all pairs/sequences of words within bounds",
 "tests never compare repeated analyses.",
 [PARSER,"lattice/dag.inl"],[("const analysis, no shared mutable state",PARSER)],["Parser::parseWord"])
prop("C25","Syllable strings, groups, chains and lattices hold what is put in",
 "A syllable string, chain or lattice is exactly the sequence of the parts put in by construction, appending, joining, assignment and copying, and a group of alternatives is the sorted set of the distinct strings put in, each with its stated end position; copies are independent, and an object may be joined with or assigned from itself or one of its own parts. Shifting a syllable string by n adds n to every end position, for an encoded pre-syllable position -(100*from+to) to both from and to, and changes nothing else.",
 ["inputs","histories"],"all sequences of operations on two strings and two groups within bounds",
 "tests build a few strings and compare printed output; self-assignment, empty operands and shifts of pre-syllables are not tried.",
 ["sylstring/sylstring.inl","sylstring/sylstring.cxx","lattice/lattice.inl","lattice/lattice.cxx"],
 [("value semantics of SylString","sylstring/sylstring.inl"),("unique sorted alternatives","lattice/lattice.cxx: PronunFrac::operator+=")],
 ["SylString","PronunFrac","PronunChain","PronunLatt"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False)+"\n")
