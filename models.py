"""Which models of the specification are checked for which property, within
which bounds, and which behaviours are generated from it.

For every property and tier there are models (TLC checks that the property's
counterpart holds in all of their states), and behaviours (TLC prints them, and
the harness steps the real code through them)."""

ASSUMPTIONS = [
    "TLC and the CommunityModules evaluate the specification correctly",
    "the harness records what the public API returned, and nothing else is observable",
    "the models are exhaustive within the constants listed with them; beyond those, the specification is bound to the code on the recorded executions only",
]

# ------------------------------------------------------------------ constants

SMART, ALLCASES = '{"smart"}', '{"smart", "sensitive", "insensitive"}'
DEFAULT, ALLSCHEMES = '{"default"}', '{"default", "path", "history"}'
OFF, BOTH = "{FALSE}", "{FALSE, TRUE}"
KINDS = '{"fuzzy", "exact", "prefix", "suffix", "equal"}'
ALGOS_ = "{1, 2}"
AB, AB_ = "{97, 98}", "{97, 98, 95}"
ABCASE = "{97, 66, 98}"
MARKS = "{97, 32, 92, 124, 33, 39, 94, 36}"


ALGOS = "{1, 2}"


def settings(cases=SMART, norms=OFF, schemes=DEFAULT):
    return {"Cases": cases, "Norms": norms, "Schemes": schemes}


# --------------------------------------------------------------------- models

def fuzzy(q, c, mq, mc, inv, props=(), **kw):
    return {"module": "MC_Fuzzy",
            "consts": {"QAlpha": q, "CAlpha": c, "MaxQ": str(mq), "MaxC": str(mc), **settings(**kw)},
            "invariants": inv, "properties": list(props)}


def exact(q, c, mq, mc, **kw):
    return {"module": "MC_Exact",
            "consts": {"QAlpha": q, "CAlpha": c, "MaxQ": str(mq), "MaxC": str(mc), **settings(**kw)},
            "invariants": ["AsPrescribed", "Found"], "properties": ["Advances", "Terminates"]}


def anchored(q, c, mq, mc, **kw):
    return {"module": "MC_Anchored",
            "consts": {"QAlpha": q, "CAlpha": c, "MaxQ": str(mq), "MaxC": str(mc), **settings(**kw)},
            "invariants": ["PrefixHolds", "SuffixHolds", "EqualHolds", "Together", "Itself", "Contained"]}


def ranges(size):
    return {"module": "MC_Ranges", "consts": {"Size": str(size), "Before": "<-BeforeBuf"},
            "invariants": ["Exactly", "Sorted", "Kept"], "properties": ["OnlyGrows"]}


def parser(n, alpha=MARKS):
    return {"module": "MC_Parser", "consts": {"Alpha": alpha, "MaxLen": str(n)},
            "invariants": ["Agree", "NoEmpties", "OneWord", "LettersKept", "Spaces", "EscapedSpaces", "Negations", "Literal"]}


def slab(mq, mc, caps="{0, 5}", garbage="{0, 99}", calls=1, calpha=AB_, schemes=DEFAULT, minq=2):
    return {"module": "MC_Slab",
            "consts": {"QAlpha": AB, "CAlpha": calpha, "MinQ": str(minq), "MaxQ": str(mq), "MaxC": str(mc), "Cases": SMART,
                       "Schemes": schemes, "Caps": caps, "Garbage": garbage, "MaxCalls": str(calls)},
            "invariants": ["AsPrescribed", "Inside", "Fresh_"], "properties": ["Ends"]}


def chars(lo, hi, inv):
    return {"module": "MC_Chars",
            "consts": {"From": str(lo), "To": str(hi),
                       "Others": "{65, 97, 75, 107, 115, 83, 233, 201, 228, 8490, 304, 305, 7838}"},
            "invariants": inv}


def order(n):
    return {"module": "MC_Order", "consts": {"Scores": "<-SomeScores", "MaxLen": str(n)},
            "invariants": ["Laws", "Sorted"], "properties": ["Sorts"]}


def ordered(n):
    """Lists of distances to compare and to sort."""
    return {"module": "MC_Order", "consts": {"Scores": "<-GivenScores", "MaxLen": str(n)}, "spec": "Lists",
            "invariants": ["Ordered"]}


def swap(mc, calpha="{97, 98, 120, 95, 32}", norms=BOTH, schemes=DEFAULT, cases=SMART):
    return {"module": "MC_Swap",
            "consts": {"Kinds": KINDS, "Texts": "<-SomeTexts", "CAlpha": calpha, "MaxC": str(mc), "Swaps": "<-SomeSwaps",
                       **settings(cases, norms, schemes)},
            "invariants": ["Same", "Shifted", "Pairs"]}


def far(kinds, algos="{1, 2}", texts="TextsAB", calpha="{97, 98, 32}", pre=1, suf=2, fillers="FewFillers", terms=1, more=2,
        lengths="Plenty", every=1, cases=SMART, norms=OFF, schemes=DEFAULT):
    return {"module": "MC_Far",
            "consts": {"Algos": algos, **settings(cases, norms, schemes), "Kinds": kinds, "Texts": "<-" + texts, "CAlpha": calpha,
                       "MaxPre": str(pre), "MaxSuf": str(suf), "Fillers": "<-" + fillers, "Terms": str(terms), "More": str(more),
                       "Lengths": "<-" + lengths, "Every": str(every)},
            "invariants": ["Law", "Small"]}


def compose(inv, conds=2, alts=1, mc=3, kinds='{"fuzzy", "exact", "suffix"}', texts="TextsA", calpha="{97, 98, 66}",
            cases=SMART):
    return {"module": "MC_Compose",
            "consts": {"Kinds": kinds, "Texts": "<-" + texts, "CAlpha": calpha, "MaxC": str(mc), "MaxConds": str(conds),
                       "MaxAlts": str(alts), "Cases": cases, "Before": "<-BeforeBuf"},
            "invariants": inv, "properties": ["Ends"]}


def settings_model(slots, algos="{1, 2}", cases=ALLCASES, norms=BOTH, schemes=ALLSCHEMES, memory=0):
    return {"module": "MC_Settings",
            "consts": {"Slots": slots, "Algos": algos, "CaseVals": cases, "NormVals": norms, "SchemeVals": schemes,
                       "MaxLen": "20", "Memory": str(memory)},
            "view": "View", "invariants": ["LastGiven"], "properties": ["Frame", "Takes", "Idempotent"]}


def buffer_model(n, chosen="1..10", prefills="1..4"):
    return {"module": "MC_Buffer", "consts": {"Chosen": "<-AllAsks" if chosen == "1..10" else chosen, "MaxLen": str(n),
                                              "Prefills": "<-AllPrefills" if prefills == "1..4" else prefills},
            "invariants": ["Appended"], "properties": ["OnlyAppended"]}


def threads(n, calls, uses="Own"):
    return {"module": "MC_Threads",
            "consts": {"Threads": "{%s}" % ", ".join(str(x) for x in range(1, n + 1)), "Uses": "<-" + uses,
                       "QTexts": "<-SomeQ", "CTexts": "<-SomeC", "Calls": str(calls)},
            "invariants": ["AsAlone_"], "properties": ["Apart", "Replies"]}


def turns(n, calls, slots="{1, 2}", chosen="{1, 2, 4, 5, 9}", algos=ALGOS_, times=100):
    """Threads which take turns, calls overlapping or not."""
    return {"module": "MC_Turns",
            "consts": {"Threads": "{%s}" % ", ".join(str(x) for x in range(1, n + 1)), "Slots": slots, "Algos": algos,
                       "Chosen": chosen, "MaxCalls": str(calls), "Times": str(times)},
            "invariants": ["Owned"], "properties": ["Returns"]}


def played(m):
    """The histories Played prints once they are over."""
    m = dict(m)
    m["properties"] = []
    m["invariants"] = ["Played"]
    return m


def queries_model(terms, texts="SomeTexts"):
    m = queries(terms, texts)
    m.update({"spec": "QuietSpec", "invariants": ["RoundTrip"]})
    return m


# ----------------------------------------------------------------- behaviours

def tour(m):
    """The behaviours Emit prints while a model is explored."""
    m = dict(m)
    m.pop("invariants", None)
    m.pop("properties", None)
    m["action_constraints"] = ["Emit"]
    return m


def history(n, chosen, algos="{1, 2}", cases=SMART, norms=OFF, schemes=DEFAULT, detours=True, ops='{"d", "x"}'):
    return {"module": "MC_History",
            "consts": {"Algos": algos, "Case0": cases, "Norm0": norms, "Scheme0": schemes, "Chosen": chosen, "Ops": ops,
                       "Detours": "TRUE" if detours else "FALSE", "Memory": str(n), "MaxLen": str(n)},
            "view": "View", "action_constraints": ["Emit"]}


def queries(terms, texts="FewTexts", filler="FewFillers", whole=False, both=False, kinds=KINDS, algos="{1, 2}", num=0,
            cases=SMART, norms=OFF, schemes=DEFAULT):
    m = {"module": "MC_Queries",
         "consts": {"Algos": algos, **settings(cases, norms, schemes), "Kinds": kinds, "Texts": "<-" + texts,
                    "MaxTerms": str(terms), "Filler": "<-" + filler, "Whole": "TRUE" if whole else "FALSE",
                    "BothMetrics": "TRUE" if both else "FALSE"}}
    if num:
        m["num"], m["depth"] = num, terms + 2
    return m


def walks(num, terms=5, **kw):
    """Random queries, under any settings."""
    return queries(terms, texts="SomeTexts", filler="Fillers", num=num, cases=ALLCASES, norms=BOTH, schemes=ALLSCHEMES, **kw)


def stretches(kinds, every, **kw):
    """Candidates of up to millions of characters, one in so many of them."""
    m = far(kinds, every=every, **kw)
    m["spec"], m["invariants"] = "Stretches", ["Sometimes"]
    return m


def grown(plans, algos=ALGOS, cases=SMART, norms=OFF, schemes=DEFAULT, more=3, every=1, lengths="Plenty"):
    """Queries and candidates which have more and more units."""
    return {"module": "MC_Grow",
            "consts": {"Algos": algos, **settings(cases, norms, schemes), "Plans": "<-" + plans, "More": str(more),
                       "Lengths": "<-" + lengths, "Every": str(every)},
            "invariants": ["Law", "Back"]}


def growths(plans, every, **kw):
    """The same with tens of thousands of units, or with millions."""
    m = grown(plans, every=every, **kw)
    m["spec"], m["invariants"] = "Growths", ["Sometimes"]
    return m


def syntax(n, every=1, raw=False, empty=False, algo=2, alpha=MARKS):
    return {"module": "MC_Syntax",
            "consts": {"Alpha": alpha, "MaxLen": str(n), "Raw": "TRUE" if raw else "FALSE",
                       "OnlyEmpty": "TRUE" if empty else "FALSE", "Algo": str(algo), "Every": str(every)},
            "action_constraints": ["Emit"]}


MIXED, MIXED_ = "{97, 98, 95, 66, 47}", "{97, 98, 47, 44, 32, 49}"


def cover(kinds, maxq, maxc, c=MIXED, q=AB, minq=1, algos=ALGOS, plan="x", cases=SMART, norms=OFF, schemes=DEFAULT):
    """A shortest candidate for every set of cases of the specification."""
    return {"module": "MC_Cover",
            "consts": {"Algos": algos, **settings(cases, norms, schemes), "Kinds": kinds, "QAlpha": q, "CAlpha": c,
                       "MinQ": str(minq), "MaxQ": str(maxq), "MaxC": str(maxc), "Plan": '"%s"' % plan},
            "view": "View", "invariants": ["Covering"]}


FUZZY, EXACT, ANCHORED = '{"fuzzy"}', '{"exact"}', '{"prefix", "suffix", "equal"}'
SPACED, ACCENTED = "{97, 65, 32}", "{97, 65, 225, 193, 42893, 613}"

NOTEXT = "{32, 92, 124, 33, 39, 94, 36}"

# ----------------------------------------------------------------- properties

F2 = dict(cases=ALLCASES, norms=BOTH)
ALL14 = "{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14}"

MODELS = {
    "C01": {"quick": [fuzzy(AB, AB_, 3, 5, ["KeysAgree", "Subsequence"]),
                      fuzzy("{97, 101}", "{97, 233, 69}", 2, 4, ["KeysAgree", "Subsequence"], **F2)],
            "thorough": [fuzzy(AB, AB_, 4, 7, ["KeysAgree", "Subsequence"]),
                         fuzzy("{97, 101, 65}", "{97, 233, 69, 97}", 3, 5, ["KeysAgree", "Subsequence"], **F2)]},
    "C02": {"quick": [fuzzy(AB, AB_, 3, 5, ["Spelled"]),
                      fuzzy("{97, 101}", "{97, 233, 69}", 2, 4, ["Spelled"], **F2)],
            "thorough": [fuzzy(AB, AB_, 4, 7, ["Spelled"]),
                         fuzzy(AB, "{97, 98, 66, 47}", 3, 6, ["Spelled"], schemes=ALLSCHEMES)]},
    "C03": {"quick": [ranges(8), compose(["Shape"]), buffer_model(2)],
            "thorough": [ranges(11), compose(["Shape"], conds=3, kinds='{"fuzzy", "exact"}'), buffer_model(3)]},
    "C04": {"quick": [ranges(8), compose(["Untouched"]), buffer_model(2)],
            "thorough": [ranges(11), compose(["Untouched"], conds=2, alts=2, kinds='{"fuzzy", "exact"}', mc=2), buffer_model(3)]},
    "C05": {"quick": [slab(3, 4)], "thorough": [slab(3, 5), slab(2, 4, caps="{0, 3, 20}", calls=2, garbage="{99}")]},
    "C06": {"quick": [slab(3, 4), slab(2, 3, calls=2, garbage="{99}")],
            "thorough": [slab(3, 5), slab(2, 4, caps="{0, 3, 20}", calls=2, garbage="{99}")]},
    "C07": {"quick": [fuzzy(AB, AB_, 3, 5, ["V1Window", "Bounded"], ["Monotonic"])],
            "thorough": [fuzzy(AB, AB_, 4, 7, ["V1Window", "Bounded"], ["Monotonic"]),
                         fuzzy(AB, "{97, 98, 66, 47}", 3, 6, ["V1Window", "Bounded"], schemes=ALLSCHEMES)]},
    "C08": {"quick": [fuzzy(AB, AB_, 3, 5, ["V2Recurrence", "V2Single", "Bounded"], ["Monotonic"]), slab(3, 4)],
            "thorough": [fuzzy(AB, AB_, 4, 7, ["V2Recurrence", "V2Single", "Bounded"], ["Monotonic"]),
                         fuzzy(AB, "{97, 98, 66, 47}", 3, 6, ["V2Recurrence", "V2Single", "Bounded"], schemes=ALLSCHEMES),
                         slab(3, 5)]},
    "C09": {"quick": [exact(AB, AB_, 3, 5)],
            "thorough": [exact(AB, AB_, 4, 7), exact(AB, "{97, 98, 66, 47}", 2, 5, **F2)]},
    "C10": {"quick": [anchored("{97, 32}", "{97, 65, 32}", 3, 6)],
            "thorough": [anchored("{97, 32}", "{97, 65, 32}", 4, 8), anchored("{97, 32, 233}", "{97, 233, 32}", 3, 6, **F2)]},
    "C11": {"quick": [compose(["Negation"])], "thorough": [compose(["Negation", "AsWhole"], kinds=KINDS, mc=3)]},
    "C12": {"quick": [compose(["AsWhole", "Formula"])],
            "thorough": [compose(["AsWhole", "Formula"], conds=3, kinds='{"fuzzy", "exact"}'),
                         compose(["AsWhole", "Formula"], alts=2, kinds='{"fuzzy", "exact"}', mc=2)]},
    "C13": {"quick": [parser(5), queries_model(2)],
            "thorough": [parser(6), parser(8, "{97, 32, 92, 124}"), queries_model(3, "FewTexts")]},
    "C14": {"quick": [parser(5)], "thorough": [parser(6)]},
    "C15": {"quick": [chars(0, 1400, ["Folding", "Equality"]), compose(["SmartCase"])],
            "thorough": [chars(0, 42000, ["Folding", "Equality"]), chars(43700, 44000, ["Folding", "Equality"]),
                         chars(64000, 125300, ["Folding", "Equality"]), compose(["SmartCase"], kinds=KINDS, mc=3)]},
    "C16": {"quick": [chars(0, 8800, ["Normalizing", "Equality"])],
            "thorough": [chars(0, 66000, ["Normalizing", "Equality"]), fuzzy("{97, 101}", "{97, 233, 69}", 2, 5, ["KeysAgree"], **F2)]},
    "C17": {"quick": [chars(0, 8800, ["Classes", "Bonuses"])], "thorough": [chars(0, 66000, ["Classes", "Bonuses"])]},
    "C18": {"quick": [order(4)], "thorough": [order(6)]},
    "C19": {"quick": [slab(3, 4), exact(AB, AB_, 3, 5)],
            "thorough": [slab(3, 5), slab(2, 4, caps="{0, 3, 20}", calls=2, garbage="{99}"), exact(AB, AB_, 4, 7), parser(6)]},
    "C20": {"quick": [parser(5), compose(["EmptyQuery"], conds=1)], "thorough": [parser(6), parser(7, NOTEXT), compose(["EmptyQuery"])]},
    "C21": {"quick": [swap(3)], "thorough": [swap(4), swap(3, cases=ALLCASES, schemes=ALLSCHEMES)]},
    "C22": {"quick": [ranges(9), compose(["AsWhole", "Shape"])],
            "thorough": [ranges(12), compose(["AsWhole", "Shape"], conds=3, kinds='{"fuzzy", "exact"}')]},
    "C23": {"quick": [settings_model("{1, 2}")],
            "thorough": [settings_model("{1, 2, 3}", algos="{1}", cases='{"smart", "sensitive"}', schemes='{"default", "path"}'),
                         settings_model("{1, 2}", memory=1)]},
    "C24": {"quick": [compose(["Agree"])],
            "thorough": [compose(["Agree"], kinds=KINDS), compose(["Agree"], conds=1, alts=2, kinds=KINDS, mc=4)]},
    "C25": {"quick": [threads(2, 2), turns(2, 3, chosen="{1, 2}")],
            "thorough": [threads(3, 1), threads(2, 3), turns(3, 4, "{1, 2, 3}", "{1, 2}", "{1}")]},
}

BEHAVIOURS = {
    "C01": {"quick": [cover(FUZZY, 3, 8), cover(FUZZY, 2, 5, ACCENTED, "{97, 225, 65}", **F2)],
            "thorough": [cover(FUZZY, 4, 11), cover(FUZZY, 3, 6, ACCENTED, "{97, 225, 65}", **F2)]},
    "C02": {"quick": [cover(FUZZY, 3, 8), cover(FUZZY, 2, 5, ACCENTED, "{97, 225, 65}", **F2)],
            "thorough": [cover(FUZZY, 4, 11), cover(FUZZY, 3, 6, ACCENTED, "{97, 225, 65}", **F2)]},
    "C03": {"quick": [tour(buffer_model(2)), walks(200),
                      cover(KINDS, 2, 6, "{97, 98, 233, 32}")],
            "thorough": [tour(buffer_model(3)), walks(3000), queries(2, filler="Fillers", whole=True),
                         cover(KINDS, 3, 9, "{97, 98, 233, 32}")]},
    "C04": {"quick": [tour(buffer_model(2)), tour(buffer_model(3, "{1, 3, 4, 5, 6, 7}", "{1, 3}"))],
            "thorough": [tour(buffer_model(3)), tour(buffer_model(4, "{1, 3, 4, 5, 6}", "{3}"))]},
    "C05": {"quick": [history(2, ALL14),
                      cover(KINDS, 2, 6, plan="dx")], "thorough": [history(2, ALL14, **F2, schemes=ALLSCHEMES), history(3, "{1, 2, 3, 5, 6, 9, 12}"),
                         cover(KINDS, 3, 9, plan="dx")]},
    "C06": {"quick": [history(3, "{1, 2, 3, 5, 9}"), history(2, ALL14, schemes='{"path"}', cases='{"sensitive"}')],
            "thorough": [history(3, "{1, 2, 3, 4, 5, 6, 9, 10, 12, 14}"), history(2, ALL14, **F2, schemes=ALLSCHEMES),
                         history(4, "{1, 2, 3, 9}", detours=False)]},
    "C07": {"quick": [cover(FUZZY, 4, 10, algos="{1}"), cover(FUZZY, 3, 8, algos="{1}", schemes=ALLSCHEMES)],
            "thorough": [cover(FUZZY, 5, 14, algos="{1}"), cover(FUZZY, 3, 12, MIXED_, algos="{1}", schemes=ALLSCHEMES)]},
    "C08": {"quick": [cover(FUZZY, 3, 9, algos="{2}"), cover(FUZZY, 2, 7, MIXED_, algos="{2}", schemes=ALLSCHEMES)],
            "thorough": [cover(FUZZY, 4, 11, algos="{2}", minq=2), cover(FUZZY, 3, 9, MIXED_, algos="{2}", schemes=ALLSCHEMES)]},
    "C09": {"quick": [cover(EXACT, 3, 9, algos="{1}"), cover(EXACT, 2, 7, MIXED_, schemes=ALLSCHEMES)],
            "thorough": [cover(EXACT, 4, 11), cover(EXACT, 3, 9, MIXED_, schemes=ALLSCHEMES)]},
    "C10": {"quick": [cover(ANCHORED, 3, 8, SPACED, "{97, 32}")],
            "thorough": [cover(ANCHORED, 4, 11, SPACED, "{97, 32}"), cover(ANCHORED, 2, 7, ACCENTED, "{97, 32, 193}", **F2)]},
    "C11": {"quick": [queries(2), walks(150),
                      cover(KINDS, 2, 6, SPACED, "{97, 65, 32}", plan="neg")], "thorough": [queries(2, filler="Fillers", whole=True), walks(4000),
                         cover(KINDS, 3, 8, SPACED, "{97, 65, 32}", plan="neg", **F2)]},
    "C12": {"quick": [queries(2), walks(250)], "thorough": [queries(2, filler="Fillers", whole=True), walks(5000, terms=6)]},
    "C13": {"quick": [syntax(5, every=3), walks(100)],
            "thorough": [syntax(5), syntax(5, algo=1), syntax(6, every=4), syntax(7, every=3, alpha="{97, 32, 92, 124}"), walks(3000)]},
    "C14": {"quick": [syntax(5, every=3, raw=True)], "thorough": [syntax(5, raw=True), syntax(5, raw=True, algo=1), syntax(6, every=5, raw=True)]},
    "C15": {"quick": [cover(KINDS, 2, 4, ACCENTED, "{97, 193, 42893}", cases=ALLCASES)],
            "thorough": [cover(KINDS, 3, 6, ACCENTED, "{97, 193, 42893}", cases=ALLCASES)]},
    "C16": {"quick": [cover(KINDS, 2, 4, ACCENTED, "{97, 193, 42893}", norms=BOTH)],
            "thorough": [cover(KINDS, 3, 5, ACCENTED, "{97, 193, 42893}", **F2)]},
    "C17": {"quick": [cover(KINDS, 2, 6, MIXED_, algos="{1}", schemes=ALLSCHEMES)],
            "thorough": [cover(KINDS, 3, 8, MIXED_, schemes=ALLSCHEMES)]},
    "C18": {"quick": [ordered(3)], "thorough": [ordered(4)]},
    "C19": {"quick": [history(2, ALL14, detours=False),
                      cover(KINDS, 2, 6)], "thorough": [history(2, ALL14, **F2), syntax(6, every=4),
                         cover(KINDS, 3, 9)]},
    "C20": {"quick": [syntax(5, empty=True, alpha=NOTEXT)],
            "thorough": [syntax(6, empty=True, alpha=NOTEXT), syntax(6, empty=True, alpha=NOTEXT, algo=1)]},
    "C21": {"quick": [cover(KINDS, 2, 6, "{97, 98, 120, 95, 32}", plan="swap")],
            "thorough": [cover(KINDS, 3, 8, "{97, 98, 120, 95, 88}", plan="swap", **F2)]},
    "C22": {"quick": [queries(2, kinds='{"fuzzy", "exact", "prefix", "suffix"}'), walks(250),
                      cover(KINDS, 2, 6, "{97, 98, 233, 47}")],
            "thorough": [queries(2, filler="Fillers", whole=True), walks(5000, terms=6),
                         cover(KINDS, 3, 8, "{97, 98, 233, 47}")]},
    "C23": {"quick": [tour(settings_model("{1}", memory=1)),
                      tour(settings_model("{1, 2}", "{2}", '{"smart", "sensitive"}', BOTH, '{"default", "path"}'))],
            "thorough": [tour(settings_model("{1}", memory=2)), tour(settings_model("{1, 2}")),
                         tour(settings_model("{1, 2}", "{2}", '{"smart", "sensitive"}', BOTH, '{"default", "path"}', memory=1))]},
    "C24": {"quick": [queries(2, both=True, algos="{1}"), walks(150, both=True),
                      cover(KINDS, 2, 6, algos="{1}", plan="both")],
            "thorough": [queries(2, filler="Fillers", whole=True, both=True, algos="{1}"), walks(4000, both=True),
                         cover(KINDS, 3, 9, algos="{1}", plan="both")]},
    "C25": {"quick": [played(turns(2, 2)), played(turns(2, 3, chosen="{1, 5}", algos="{2}"))],
            "thorough": [played(turns(2, 3)), played(turns(3, 3, "{1, 2, 3}", "{1, 2, 5}", "{2}", 300)),
                         played(turns(2, 2, chosen=ALL14, times=400))]},
}

# Candidates which keep growing: what is true of one with so many fillers is true of
# any with more of them.
LONGER = {
    "C07": ([far(FUZZY, "{1}", schemes=ALLSCHEMES)], [far(FUZZY, "{1}", texts="TextsAll", fillers="SomeFillers", schemes=ALLSCHEMES, more=4)]),
    "C08": ([far(FUZZY, "{2}")], [far(FUZZY, "{2}", texts="TextsAll", fillers="SomeFillers", schemes=ALLSCHEMES)]),
    "C09": ([far(EXACT)], [far(EXACT, texts="TextsAll", fillers="SomeFillers", schemes=ALLSCHEMES, more=4)]),
    "C10": ([far(ANCHORED, "{1}", texts="TextsAll")], [far(ANCHORED, "{1}", texts="TextsAll", fillers="SomeFillers", schemes=ALLSCHEMES, more=4)]),
    "C12": ([far('{"fuzzy", "exact"}', "{2}", terms=2, pre=1, suf=1)], [far('{"fuzzy", "exact", "suffix"}', terms=2, pre=1, suf=2)]),
}

STRETCHED = {
    "C01": ([stretches(FUZZY, 80)], [stretches(FUZZY, 10, texts="TextsAll", fillers="SomeFillers", lengths="Huge")]),
    "C03": ([stretches(KINDS, 80)], [stretches(KINDS, 15, texts="TextsAll")]),
    "C07": ([stretches(FUZZY, 30, algos="{1}", schemes=ALLSCHEMES)],
            [stretches(FUZZY, 10, algos="{1}", texts="TextsAll", fillers="SomeFillers", schemes=ALLSCHEMES, lengths="Huge")]),
    "C09": ([stretches(EXACT, 30)], [stretches(EXACT, 10, texts="TextsAll", fillers="SomeFillers", lengths="Huge")]),
    "C10": ([stretches(ANCHORED, 80)], [stretches(ANCHORED, 15, texts="TextsAll", lengths="Huge")]),
    "C12": ([stretches('{"fuzzy", "exact"}', 400, terms=2, pre=1, suf=1)], [stretches('{"fuzzy", "exact"}', 60, terms=2, pre=1, suf=1)]),
    "C22": ([stretches('{"fuzzy", "exact"}', 300, terms=2, pre=1, suf=1, norms=BOTH)], [stretches(KINDS, 15, texts="TextsAll", norms=BOTH)]),
}

# Queries and candidates which keep growing.
GROWING = {
    "C07": (["FuzzyRuns"], ["FuzzyRuns", "CandPlans"], "{1}"),
    "C08": (["FuzzyRuns"], ["FuzzyRuns", "CandPlans"], "{2}"),
    "C09": (["ExactRuns"], ["ExactRuns", "CandPlans"], ALGOS),
    "C10": (["AnchoredRuns"], ["AnchoredRuns", "CandPlans"], ALGOS),
    "C03": (["FewPairs"], ["PairPlans"], ALGOS),
    "C12": (["FewTerms"], ["TermPlans", "RunPlans", "PairPlans"], ALGOS),
    "C13": (["FewTerms"], ["TermPlans", "RunPlans"], ALGOS),
    "C22": (["FewPairs"], ["PairPlans"], ALGOS),
    "C14": (["RawRuns"], ["RawRuns"], ALGOS),
}

GREW = {
    "C01": (["FuzzyRuns", "FewCands"], ["RunPlans", "CandPlans"], 1),
    "C02": (["FewRuns", "FewCands"], ["RunPlans", "CandPlans"], 2),
    "C03": (["FewTerms", "FewCands", "FewPairs"], ["TermPlans", "CandPlans", "RunPlans", "PairPlans"], 2),
    "C04": (["FewPairs"], ["PairPlans"], 2),
    "C05": (["FewRuns", "FewTerms", "FewPairs"], ["RunPlans", "CandPlans", "TermPlans", "PairPlans"], 4),
    "C07": (["FuzzyRuns", "FewCands"], ["FuzzyRuns", "CandPlans"], 1),
    "C08": (["FuzzyRuns"], ["FuzzyRuns", "CandPlans"], 2),
    "C09": (["ExactRuns"], ["ExactRuns", "CandPlans"], 2),
    "C10": (["AnchoredRuns"], ["AnchoredRuns", "CandPlans"], 2),
    "C12": (["FewTerms", "FewPairs"], ["TermPlans", "RunPlans", "PairPlans"], 2),
    "C13": (["TermPlans", "FewRuns"], ["TermPlans", "RunPlans"], 3),
    "C14": (["RawRuns"], ["RawRuns"], 2),
    "C19": (["RunPlans", "TermPlans", "PairPlans"], ["RunPlans", "TermPlans", "CandPlans", "RawRuns", "PairPlans"], 8),
    "C22": (["FewTerms", "FewPairs"], ["TermPlans", "RunPlans", "PairPlans"], 2),
}

for _p, (_quick, _thorough, _algos) in GROWING.items():
    MODELS[_p]["quick"] += [grown(x, _algos) for x in _quick]
    MODELS[_p]["thorough"] += [grown(x, _algos, norms=BOTH, schemes=ALLSCHEMES, more=5) for x in _thorough]

for _p, (_quick, _thorough, _every) in GREW.items():
    _algos = GROWING[_p][2] if _p in GROWING else ALGOS
    BEHAVIOURS[_p]["quick"] += [growths(x, _every, algos=_algos, lengths="Huge") for x in _quick]
    BEHAVIOURS[_p]["thorough"] += [growths(x, max(1, _every // 4), algos=_algos, norms=n, schemes=h, lengths=y)
                                   for x in _thorough for n, h, y in ((OFF, DEFAULT, "Huge"), ("{TRUE}", '{"path"}', "Plenty"))]

for _into, _more in ((MODELS, LONGER), (BEHAVIOURS, STRETCHED)):
    for _p, (_quick, _thorough) in _more.items():
        _into[_p]["quick"] += _quick
        _into[_p]["thorough"] += _thorough

# ------------------------------------------------------------------- refuted

def refuted(m, expect, where="Wrong", **puts):
    """A model with a definition of its own put in the place of another, for
    which TLC has to find that `expect` is violated."""
    m = dict(m)
    m["refuted"], m["where"], m["puts"] = expect, where, puts
    known = m.get("invariants", []) + m.get("properties", [])
    assert expect in known, expect
    temporal = expect in m.get("properties", [])
    m["invariants"], m["properties"] = ([], [expect]) if temporal else ([expect], [])
    return m


def _FUZZY(inv, props=(), c=AB_):
    return fuzzy(AB, c, 3, 5, inv, props)


REFUTED = {
    "C01": [refuted(_FUZZY(["Subsequence"]), "Subsequence", FuzzyV1="WUnordered"),
            refuted(_FUZZY(["KeysAgree"], c="{97, 65}"), "KeysAgree", Keys="WKeys")],
    "C02": [refuted(_FUZZY(["Spelled"]), "Spelled", Trace="WTrace"), refuted(_FUZZY(["Spelled"]), "Spelled", FuzzyV2="WUnordered")],
    "C03": [refuted(ranges(8), "Sorted", "Wrong_Ranges", MergeFollowing="WMergeFollowing"),
            refuted(compose(["Shape"]), "Shape", ToRanges="WToRanges")],
    "C04": [refuted(ranges(8), "Kept", "Wrong_Ranges", Clear="WClear"),
            refuted(buffer_model(2), "OnlyAppended", "Wrong_Buffer", AskWith="WAskWith")],
    "C05": [refuted(slab(3, 4, caps="{5}", garbage="{1}"), "AsPrescribed", "Wrong_Slab", Alloc="WRuns")],
    "C06": [refuted(slab(3, 4, caps="{5}", garbage="{1}"), "AsPrescribed", "Wrong_Slab", Alloc="WRuns"),
            refuted(slab(2, 3, calls=2, garbage="{99}"), "Fresh_", "Wrong_Slab", Alloc="WAlloc")],
    "C07": [refuted(_FUZZY(["V1Window"]), "V1Window", FuzzyV1="WFuzzyV1"),
            refuted(far(FUZZY, "{2}"), "Law", LongEnough="WLongEnough")],
    "C08": [refuted(_FUZZY(["V2Recurrence"]), "V2Recurrence", RowN="WRowN")],
    "C09": [refuted(exact(AB, AB_, 3, 5), "AsPrescribed", Exact="WExact"),
            refuted(exact(AB, AB_, 3, 5), "Found", "Wrong_Exact", Attempt="WAttempt")],
    "C10": [refuted(anchored("{97, 32}", "{97, 65, 32}", 3, 5), "PrefixHolds", LeadSpaces="WLeadSpaces"),
            refuted(anchored("{97, 32}", "{97, 65, 32}", 3, 5), "EqualHolds", LeadSpaces="WLeadSpaces")],
    "C11": [refuted(compose(["Negation"]), "Negation", MatchTerm="WMatchTerm")],
    "C12": [refuted(compose(["AsWhole"]), "AsWhole", MatchQuery="WMatchQuery"),
            refuted(compose(["AsWhole"], conds=1, alts=2), "AsWhole", FirstOk="WFirstOk")],
    "C13": [refuted(parser(5), "Agree", Separates="WSeparates"), refuted(parser(5), "NoEmpties", ParseExtended="WParseExtended"),
            refuted(queries_model(2), "RoundTrip", Separates="WSeparates")],
    "C14": [refuted(parser(5), "Literal", ParseRaw="WParseRaw")],
    "C15": [refuted(chars(8000, 8600, ["Folding"]), "Folding", "Wrong_Chars", Fold="WFold"),
            refuted(compose(["SmartCase"], texts="TextsA"), "SmartCase", IsSensitive="WIsSensitive")],
    "C16": [refuted(chars(65300, 65330, ["Normalizing"]), "Normalizing", "Wrong_Chars", Norm="WNorm")],
    "C17": [refuted(chars(0, 40, ["Bonuses"]), "Bonuses", "Wrong_Chars", Bonus="WBonus")],
    "C18": [refuted(order(4), "Laws", "Wrong_Order", Cmp="WCmp"), refuted(order(4), "Laws", "Wrong_Order", Cmp="WClose")],
    "C19": [refuted(slab(3, 4), "Inside", "Wrong_Slab", Grown="WGrown"),
            refuted(exact(AB, AB_, 3, 5), "Terminates", "Wrong_Exact", Attempt="WStuck")],
    "C20": [refuted(parser(5), "NoEmpties", ParseExtended="WParseExtended"),
            refuted(compose(["EmptyQuery"], conds=1), "EmptyQuery", MatchQuery="WMatchQuery")],
    "C21": [refuted(swap(3), "Shifted", Offsets="WOffsets")],
    "C22": [refuted(compose(["Shape"]), "Shape", ToRanges="WToRanges"),
            refuted(ranges(9), "Sorted", "Wrong_Ranges", MergeFollowing="WMergeFollowing")],
    "C23": [refuted(settings_model("{1, 2}"), "LastGiven", "Wrong_Settings", SetCase="WSetCase"),
            refuted(settings_model("{1, 2}"), "Frame", "Wrong_Settings", SetCase="WSetCase"),
            refuted(settings_model("{1, 2}"), "Takes", "Wrong_Settings", SetScheme="WSetScheme"),
            refuted(settings_model("{1, 2}"), "Idempotent", "Wrong_Settings", Clone="WClone")],
    "C24": [refuted(compose(["Agree"]), "Agree", MatchPositive="WMatchPositive")],
    "C25": [refuted(threads(2, 1, uses="Common"), "AsAlone_", "MC_Threads"),
            refuted(threads(2, 1, uses="Common"), "Apart", "MC_Threads")],
}
