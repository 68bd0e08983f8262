import json
def P(id,title,statement,over,qtext,why,files,mech,**kw):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=mech,where=', '.join(files))],observe_at=['return value of Metric::distance / Metric::distance_and_ranges and the ranges buffer'],hook_needed=None,**kw))
F='src/metrics/fzf/'
props=[
P("C01","A fuzzy term matches exactly the candidates containing it as a subsequence",
"With both metrics, a non-negated fuzzy term (a bare word, or a whole query parsed without the extended syntax) yields a distance if and only if all its characters occur in the candidate in the same order, not necessarily contiguously, under the configured character equality. FzfV1 and FzfV2 therefore always agree on which candidates match.",
["inputs","configurations"],"every query, candidate (ASCII or not, any length), metric, case mode, normalization flag and scheme",
"The tests try about 25 hand-written query/candidate pairs; a wrong scan bound or a wrong fast-path only shows on particular positions, repeated characters or non-ASCII candidates.",
[F+'fzf_v1.rs',F+'fzf_v2.rs','src/candidate.rs'],"greedy forward scans (V1 forward pass, V2 matches) over memchr / char_eq searches"),
P("C02","The ranges reported for a fuzzy match spell out the query",
"When a single fuzzy term matches, the characters of the candidate covered by the reported byte ranges, read in order, are as many as the term's characters and are pairwise equal to them under the configured character equality.",
["inputs","configurations"],"every matching query/candidate pair, both metrics, every configuration",
"Each test asserts the ranges of one alignment; backtracking mistakes need particular score ties, long gaps or repeated characters (an existing defect of this kind survived all of the tests).",
[F+'fzf_v1.rs',F+'fzf_v2.rs',F+'fzf.rs','src/matched_ranges.rs'],"V1 score pass and V2 matrix backtrace insert one range per matched character; ranges are merged on insertion"),
P("C03","Reported byte ranges are in bounds, on char boundaries and disjoint",
"Every byte range appended by a call is non-empty, lies within the candidate, starts and ends on a character boundary, and overlaps no other range appended by the same call.",
["inputs","configurations"],"every query (any number of terms), candidate, metric and configuration",
"Overlaps and bad offsets depend on how the matches of several terms interleave and on multi-byte characters before and inside the match; the tests have few multi-term and multi-byte range assertions.",
['src/matched_ranges.rs','src/candidate.rs',F+'fzf_v2.rs',F+'fzf.rs'],"range insertion with merging; char offset to byte offset conversion"),
P("C04","The range buffer is only appended to, and untouched on no match",
"Whatever the buffer contains when it is passed in, a call leaves those elements in place and unchanged at its front and only appends after them. If the candidate doesn't match, the buffer is exactly what it was.",
["histories","inputs"],"every prior buffer content (including ranges that would overlap or precede the new ones), every sequence of calls sharing a buffer, matching or not",
"The tests reuse a non-empty buffer once; partial failures of multi-term queries and interaction with prior contents are not exercised (two defects of this kind existed).",
['src/matched_ranges.rs',F+'fzf.rs','src/metric.rs'],"matched-ranges view over the tail of the caller's buffer"),
P("C05","distance and distance_and_ranges give the same answer",
"For the same metric configuration, query and candidate, asking for the distance alone and asking for the distance and the ranges return the same result: both no match, or both the same distance.",
["inputs","configurations","histories"],"every query, candidate and configuration, in either order of the two calls, on the same instance or different ones",
"The tests nearly always call only one of the two entry points for a given input, so a divergence of the range-less specialisation is invisible to them.",
['src/metric.rs',F+'fzf.rs',F+'fzf_v1.rs',F+'fzf_v2.rs'],"const-generic RANGES specialisation of the same code"),
P("C06","Results do not depend on what was computed before",
"A metric's answer (distance and ranges) depends only on its current settings, the query and the candidate: not on the calls made before on that instance, on whether the instance is fresh, reused or cloned, nor on what was parsed before with the same parser.",
["histories","inputs"],"every history of parses, settings changes, clones and distance calls, in particular long candidates/queries followed by short ones and vice versa",
"Each test uses fresh instances for one or two calls; stale contents of the reused buffers only matter after specific sequences of sizes.",
[F+'slab.rs',F+'parser.rs',F+'fzf_v2.rs',F+'candidate.rs'],"slabs reused across calls: candidate chars, bonuses, matched indices, score and consecutive matrices, parser buffers",
 state=[dict(name="slabs",where="src/metrics/fzf/slab.rs",meaning="scratch buffers kept in the metric and in the parser, whose stale contents must never be observable")]),
P("C07","FzfV1 picks the first match end and the closest start, and scores it",
"FzfV1 aligns a fuzzy term with the window ending where the leftmost greedy match of the term ends and starting at the latest position from which the term still matches up to that end; within that window characters are matched greedily from the left. The distance is that of the documented scoring of that alignment: points per matched character, boundary/camel/consecutive bonuses (doubled for the first character) and gap penalties.",
["inputs","configurations"],"every matching term/candidate pair under every configuration",
"The tests pin a couple of dozen alignments; the combination of bonuses and gaps over all positions is unbounded.",
[F+'fzf_v1.rs',F+'fzf.rs',F+'scoring.rs'],"forward pass, backward pass, windowed scoring"),
P("C08","FzfV2 scores and aligns a fuzzy term as fzf's v2 recurrence prescribes",
"For a fuzzy term of two or more characters FzfV2's score is the one fzf's v2 dynamic program gives: match points, boundary/camel/consecutive bonuses (the first character's doubled), a gap-opening penalty charged once per gap and a gap-extension penalty, partial scores never going below zero, maximised over the positions of the last character. The reported ranges are the characters its traceback selects starting from the leftmost maximum, preferring runs of consecutive matches on ties; a single-character term takes the first of its occurrences with the highest bonus.",
["inputs","configurations"],"every matching term/candidate pair of every length under every configuration",
"The tests pin a couple of dozen alignments on short strings; the dynamic program has data-dependent branches (gap vs. match, consecutive chunk restarts, ties) whose combinations the tests don't reach (four scoring defects existed).",
[F+'fzf_v2.rs',F+'slab.rs',F+'candidate.rs'],"score and consecutive matrices, best cell selection, backtrace"),
P("C09","An exact ('term) pattern matches iff it occurs contiguously, at the best spot",
"A quoted term matches exactly the candidates in which its characters occur contiguously, and its range is exactly one such occurrence. The occurrence chosen is the first one starting at a word boundary (boundary-level bonus) or, when there is none, the first among those with the highest bonus for its first character, and the distance is the score of that occurrence.",
["inputs","configurations"],"every term and candidate, including overlapping and partial occurrences, in every configuration",
"The tests use candidates with at most a few occurrences; restarts after partial and overlapping occurrences are untested (a stale-state defect existed there).",
[F+'fzf.rs'],"exact_match search loop with restart and best-bonus selection"),
P("C10","^term, term$ and ^term$ match at the (space-trimmed) ends only",
"A prefix, suffix or equal term matches exactly when its characters sit, contiguously, at the start, at the end, or are the whole of the candidate, after ignoring the candidate's leading (trailing) spaces in excess of the term's own leading (trailing) spaces. The range reported is exactly that stretch, and the distance is its score.",
["inputs","configurations"],"every term (including ones with escaped spaces) and candidate (including empty and all-space ones)",
"A few literal strings are tested; combinations of leading/trailing spaces in term and candidate, all-space strings and length mismatches are not.",
[F+'fzf.rs','src/candidate.rs',F+'query.rs'],"prefix_match, suffix_match, equal_match and space accounting"),
P("C11","A negated term matches exactly the candidates its positive form rejects",
"`!term`, `!'term`, `!^term`, `!term$` and `!^term$` match a candidate if and only if the corresponding positive term (exact, fuzzy, prefix, suffix, equal respectively) does not match it. A satisfied negated term contributes no score and no ranges.",
["inputs","configurations"],"every term kind, text, candidate and configuration, alone or within larger queries",
"Negation is tested on a handful of pairs and only through the parser for some kinds (a query made only of !'term ignored the negation altogether).",
[F+'fzf.rs',F+'query.rs'],"inverse flag in pattern scoring"),
P("C12","Terms combine as an AND of ORs, summing one alternative per condition",
"A query matches iff in each of its conditions at least one alternative is satisfied; its score is the sum, over the conditions, of the score of the first satisfied alternative in the order written, where alternatives after it contribute nothing. Each term behaves as if it were the only one in the query.",
["inputs","configurations"],"every query of any number of conditions and alternatives (negated ones included), every candidate",
"The tests evaluate only a few multi-term queries; which alternative contributes and how scores add up is mostly unasserted.",
[F+'fzf.rs'],"condition loop with find_map over alternatives"),
P("C13","Extended queries are parsed according to the documented syntax",
"Words are separated by unescaped spaces (a backslash right before a space makes it part of the word), `|` between words makes them alternatives binding tighter than the implicit AND, and each word's `!`, `'`, `^` and `$` markers select the kind of the term as documented, everything else being literal text. Words left with no text are ignored.",
["inputs"],"every query string: any characters, number of words, placement of spaces, backslashes, bars and markers, any length",
"The tests cover about forty strings; the parser is a hand-written state machine over words, escapes, bars and markers whose combinations are unbounded.",
[F+'parser.rs',F+'query.rs'],"word splitting, pattern parsing, OR-block grouping"),
P("C14","Without the extended syntax every character of the query is literal",
"A query parsed without the extended syntax behaves as one fuzzy term made of all its characters, in order: spaces, backslashes, bars and markers have no special meaning, and queries of any length are accepted.",
["inputs"],"every query string of any length, every candidate and configuration",
"One doc example covers it; long queries made it panic.",
[F+'parser.rs',F+'query.rs'],"parse_not_extended"),
P("C15","Case sensitivity: sensitive, insensitive and per-term smart case",
"In sensitive mode letters only match with the same case, in insensitive mode the case of letters (ASCII or not) is ignored, and in smart mode (the default) a term is matched case-sensitively iff that very term contains an uppercase letter. This holds for every term kind, in both metrics, whether the candidate is ASCII or not.",
["inputs","configurations"],"all letters, every mix of cases in the terms and candidates, every term kind",
"The tests try a few ASCII words; per-term smart case in multi-term queries and non-ASCII letters are not covered (non-ASCII case was never ignored).",
[F+'fzf_v1.rs',F+'fzf_v2.rs','src/utils.rs','src/candidate.rs',F+'query.rs'],"smart-case resolution per pattern; ASCII memchr2 fast path vs char_eq"),
P("C16","Candidate normalization folds Latin diacritics of the candidate only",
"With candidate normalization on, an accented Latin letter of the candidate also matches the plain letter it is a variant of, according to fzf's table of latin variants, and matches keep their byte ranges in the original candidate; a query character that itself lies in the normalized ranges is compared with the candidate as it is. With normalization off no such folding takes place, and characters outside the table are never folded.",
["inputs","configurations"],"every character of the table and outside of it, in every case mode and term kind",
"The table's own test compares it with itself; a wrong, missing or shifted entry, or a use of the wrong side, passes.",
['src/normalize.rs','src/utils.rs'],"linearised normalization tables; query-side is_normalized test"),
P("C17","Character bonuses follow the active scoring scheme",
"The bonus of a matched character depends only on its class, the class of the character before it (or the start of the candidate) and the active scheme: word boundaries after white space, after delimiters and after other non-word characters, lower-to-upper and letter-to-digit transitions, and non-word characters get the bonuses the scheme (Default, Path or History) prescribes, with the scheme's own delimiters and initial boundary.",
["inputs","configurations"],"every pair of adjacent characters (all character classes, ASCII and not), first position included, and every scheme",
"Only a few transitions and one Path example are tested; the class x class x scheme matrix is not.",
[F+'scoring.rs',F+'scheme.rs',F+'mod.rs'],"char_class, compute_bonus, scheme constants"),
P("C18","Distances are totally ordered, the better match being the smaller one",
"Distances form a total order consistent with equality, in which a distance is smaller exactly when its match scores higher; sorting candidates by distance lists better-scoring ones first, and the default distance equals that of an empty query.",
["inputs"],"all pairs and triples of distances, of either metric",
"The tests compare two or three pairs of distances.",
[F+'distance.rs'],"reversed Ord on scores"),
P("C19","No input makes parsing or matching panic or hang",
"Parsing any query string and matching it against any candidate, with or without ranges, under any configuration and after any history of calls, terminates normally.",
["inputs","histories","configurations"],"all strings, in particular empty ones, all-space ones, ones around and beyond the initial buffer sizes, and multi-byte ones",
"Panics hide at sizes (64, 128, 256...) and shapes the tests don't try; one existed for queries over 64 characters.",
[F+'parser.rs',F+'slab.rs',F+'fzf_v1.rs',F+'fzf_v2.rs',F+'fzf.rs','src/candidate.rs','src/matched_ranges.rs'],"unchecked index arithmetic, slab growth, byte/char offset conversions, search loops"),
P("C20","An empty query matches everything, at distance zero and with no ranges",
"A query with no terms left after parsing (an empty string, only spaces, only bars, only bare markers) matches every candidate, the empty one included, with a distance equal to the default one, and appends no ranges.",
["inputs","configurations"],"every query string that parses to no terms and every candidate",
"The tests try the empty string with one candidate.",
[F+'fzf.rs',F+'parser.rs',F+'query.rs'],"empty query short-circuit"),
P("C21","Non-ASCII characters elsewhere in a candidate don't change a match",
"Whether a candidate is entirely ASCII or contains multi-byte characters never changes how the rest of it matches. Replacing a non-space character that equals no character of the query with a multi-byte one of the same class (letter case, digit or symbol) that doesn't either leaves match and score the same, and shifts the ranges by exactly the difference in bytes.",
["inputs","configurations"],"every candidate, replaced position and query whose characters don't match the replaced one, both metrics, all term kinds",
"ASCII and Unicode candidates take different code paths, and the tests never run the same case through both.",
['src/candidate.rs','src/utils.rs',F+'fzf.rs'],"dual Ascii/Unicode candidate representation with separate search, case and offset code"),
P("C22","A query's ranges cover exactly what its contributing terms matched",
"The bytes covered by the ranges appended for a multi-term query are exactly the union of the bytes matched by the terms that contribute to its score, however those matches overlap, touch, nest or are ordered in the candidate.",
["inputs","configurations"],"every set of terms and candidate, every relative position of their matches",
"Merging is tested for a few single-gap insertions; ranges spanning several existing ones lost coverage without any test noticing.",
['src/matched_ranges.rs',F+'fzf.rs'],"sorted range insertion with merging"),
P("C23","Settings take effect immediately, independently, and per instance",
"A new metric uses smart case, no normalization and the default scheme; changing one setting affects only the later calls on that very instance and leaves the other settings alone, so that only the latest value of each matters. A clone starts with the settings of its original, and the two are independent from then on. The debug output of a metric shows its current settings.",
["histories","configurations"],"every sequence of settings changes, clones and calls over several instances",
"The tests set options once on a fresh instance.",
[F+'fzf_v1.rs',F+'fzf_v2.rs',F+'scheme.rs','src/case_sensitivity.rs'],"setters and derived Clone/Default"),
P("C24","FzfV1 and FzfV2 accept the same candidates and differ on fuzzy terms only",
"Under the same settings the two metrics accept exactly the same candidates for every query. They may differ in how they align and score fuzzy terms, and in nothing else: for queries whose terms are all exact, prefix, suffix, equal or negated they return the same distance and ranges covering the same bytes.",
["inputs","configurations"],"every query, candidate and combination of settings",
"The two metrics have separate sources and separate tests, which are never run side by side.",
[F+'fzf_v1.rs',F+'fzf_v2.rs',F+'fzf.rs'],"separate Fzf implementations sharing exact/prefix/suffix/equal matching"),
P("C25","Instances used by different threads don't affect one another",
"Metrics and parsers which belong to different threads (created there, or cloned from one and moved there) can be used at the same time: every call returns what it would have returned had nothing else been running.",
["schedules","histories"],"every interleaving of calls made by any number of threads, each on its own instances",
"No test uses more than one thread; shared or global scratch memory and caches only show under particular interleavings.",
[F+'fzf_v1.rs',F+'fzf_v2.rs',F+'slab.rs',F+'parser.rs'],"per-instance slabs and parser buffers, Clone"),
]
with open('/verif/properties.jsonl','w') as f:
    for p in props:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p,ensure_ascii=False)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in props: jsonschema.validate(p,s)
print(len(props))
