#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files,
        state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

M, PA, CH, RU, PR, RE, BU, IN, KE, UT, TO, LO, VA, FO, DE, RM = ("rebulk/%s.py" % x for x in
  "match pattern chain rules processors rebulk builder introspector key utils toposort loose validators formatters debug remodule".split())

# ---- the collection of matches
p("M01", "Lookups always agree with the current contents of the collection",
  "After any sequence of edits to a collection of matches (append, insert, extend, item and slice assignment, item and slice deletion, remove, pop, reverse, clear), interleaved with lookups in any way, every lookup (by name, tag, start, end, position, span, range, neighbour, typed key; the sets of names and tags; the maximum index) returns exactly what a brand-new collection holding the same matches in the same order returns, in the same order; so does every lookup on a slice of it, which is a collection of the same kind over the same text. The collection itself behaves as a Python list of those matches under the same edits (a match is located by equality, a bad index or an absent match raises and changes nothing).",
  ["histories"], "every history of edits and lookups, every set of matches (equal-but-distinct matches included), with or without an input string",
  "the suite performs a handful of fixed edits; whether a lookup is stale depends on which lookup was first used before which edit, an exponential set of histories",
  [M], [("lazily built indexes updated on every edit", M + " _BaseMatches._add_match/_remove_match"), ("list edits", M + " __setitem__/__delitem__/insert")],
  [("_delegate", "ordered matches", M), ("name/tag/start/end/index dicts", "lazy indexes", M), ("_max_end", "largest end", M)],
  ["Matches.*"])
p("M02", "Lookups never change the collection or any later answer",
  "Calling any lookup, with any arguments, leaves the contents and order of the collection, and the answer of every later lookup (including the sets of names and tags and the maximum index), exactly as if it had not been called. The list a lookup returns belongs to the caller: emptying it or reordering it affects neither the collection nor later lookups.",
  ["histories"], "every sequence of lookups with existing or absent keys, with the returned lists mutated by the caller",
  "three tests mutate the result of three lookups on one input; the others, absent keys, and interplay between lookups are not reached",
  [M], [("lookups copy the index entry", M + " starting/ending/tagged/named/at_index"), ("defaultdict indexes", M)], observe=["Matches.*"])
p("M03", "Positional and named lookups mean what their geometry says",
  "starting/ending/at_index/at_span/at_match/named/tagged return exactly the matches satisfying the stated relation in collection order (several names: order of names, then collection order); range returns the matches overlapping the range sorted by span; at_span lists every match covering the first or the last position of the span, and conflicting every match sharing a position with the given one (equal matches listed once, conflicting leaving out the match itself); previous/next return the nearest ones ending at or before, respectively starting after, the start of the given match; chain_before/chain_after return the run of matches reachable over separator characters only. A predicate filters that list, and an index selects one element of the filtered list or gives None when out of range.",
  ["inputs"], "every collection, position, span, separator set, predicate and index (negative and out of range included)",
  "each lookup is tested on one or two sentences; overlaps, adjacency, borders of the text and filtered or out-of-range selections are not enumerated",
  [M, LO], [("lookup methods", M + " _BaseMatches"), ("filter_index", LO)], observe=["Matches lookups"])
p("M04", "Holes are exactly the uncovered stretches of the requested range",
  "Without separators, holes(start, end) returns, in order, exactly the maximal non-empty stretches of positions of that range (clipped to the maximum index) covered by no match that is not ignored. With separators, an open stretch is cut at every separator character, no returned hole is empty, none leaves the range, no two overlap and none covers a matched position. Every hole takes its text from the input and its value from the given formatter.",
  ["inputs"], "every collection, range, ignore predicate and separator set",
  "tests ask for the holes of one text; the start of the range relative to matches before it, and cuts outside the range, are not exercised",
  [M], [("holes scan", M + " holes/_hole_start/_hole_end")], observe=["Matches.holes"])
p("M05", "Cropping and splitting a match lose and invent no characters",
  "Cropping a match by any set of non-empty spans or matches yields, as a set, exactly the maximal non-empty pieces of the match not covered by any of them; splitting a match by separator characters yields in order exactly its maximal runs of non-separator characters. Every piece keeps name, tags, privacy, formatter (the very function) and literal value of the original, and the original match is unchanged.",
  ["inputs"], "every match, every list of spans (overlapping, adjacent, outside, containing) and separator set",
  "six fixed crops and one split are tested; order and overlap of several crops are not",
  [M], [("crop", M + " Match.crop"), ("split", M + " Match.split")], observe=["Match.crop", "Match.split"])
p("M06", "Equality, hashing and ordering of matches are mutually consistent",
  "Two matches are equal exactly when span, value, name and parent are equal; equality is symmetric, inequality is its negation, and equal matches hash alike. A match's hash survives a change of its value, name or tags, so it stays findable in sets and dicts. Matches are ordered by span, so sorting is by (start, end) and stable.",
  ["inputs", "histories"], "every pair of matches over all combinations of attributes, before and after mutation",
  "three pairs are compared in tests; parent, tags, privacy and reflexive or symmetric cases are not",
  [M], [("comparison methods", M + " Match.__eq__/__hash__/__lt__")], observe=["Match comparisons"])

p("M07", "A match describes its family, text and tags as they stand",
  "At any time, whatever was changed before: the initiator of a match is the topmost of its parents (itself if it has none), its names are those of the matches at the bottom of its tree of children (its own if it has none), named and tagged tell whether any of the given names is among these, respectively any of the given tags among its tags; its length is end minus start; its raw text is the stretch of the input between its raw start and raw end, which are its start and end unless set, None without input; its value is its literal value, else its formatted raw text.",
  ["histories", "inputs"], "every forest of parents and children, rearranged, with spans, raw spans, names, tags and values changed in between",
  "tests read these on trees one level deep, never after a change",
  [M], [("initiator/names/raw/named/tagged", M + " Match")], [("parent, children", "links up and down", M)], ["Match attributes"])
p("V01", "Supplied validators and formatters mean what they say, alone and combined",
  "chars_before, chars_after and chars_surround accept a match exactly when the character before it, after it, on both sides belongs to the given ones, the borders of the text always being accepted; a combination of validators accepts exactly what all of them accept, asking them in order and none after a refusal, and an empty one accepts everything; a combination of formatters applies them in order, an empty one changing nothing.",
  ["inputs"], "every text, match (at the borders, empty, or reaching past the end), set of characters, and combination, nested ones included",
  "tests have one text per validator",
  [VA, FO], [("chars_before/after/surround, validators", VA), ("formatters", FO)], observe=["rebulk.validators", "rebulk.formatters"])

# ---- rules and processors
p("R01", "By default the longer of two conflicting matches wins, and only then",
  "With default rules and no custom solver, a public match is removed exactly when the public matches it shares a position with include one whose initiating match is strictly longer than its own (judged against matches still standing when shorter ones are settled first). Hence no two surviving public matches of different initiator length overlap, matches of equal length both stay, and private matches and markers neither remove nor are removed.",
  ["inputs"], "every set of overlapping matches, lengths, parents, privacy flags and registration orders",
  "ten fixed pairs or triples are tested; chains of conflicts, equal lengths, private interference and duplicate matches are combinatorial",
  [PR, M], [("ConflictSolver.when", PR), ("identity removal of the loser", RU + " RemoveMatch")], observe=["Rebulk.matches", "ConflictSolver"])
p("R02", "Custom conflict solvers decide, with documented precedence and fallback",
  "For a conflicting pair the solver of the other match is consulted first, called from that match's point of view, then the solver of the match itself, then the default one (that of a conflict rule derived from ConflictSolver, when such a rule is used in its place); '__default__' falls through to the next, any other answer settles the pair: the returned match is dropped, None keeps both. A pair already decided by an earlier removal of either side removes nothing more.",
  ["inputs"], "every combination of solvers and answers over every set of overlapping matches",
  "six pairs are tested; solvers among three or more overlapping matches, where earlier removals matter, are not",
  [PR], [("solver stack", PR + " ConflictSolver.when")], observe=["Rebulk.matches"])
p("R03", "Private matches and markers never leak into the result",
  "With default rules, the matches returned by an engine contain no private match and no marker, while every public non-conflicting match is returned even if an equal private match was also found; until the end of processing, rules see private matches. Markers are available only in the markers collection, in the order found, are never affected by conflicts among ordinary matches, and a marker can be added neither to the ordinary collection nor an ordinary match to the markers.",
  ["inputs", "programs"], "every engine mixing private, public and marker patterns (including patterns that find the same text), and every rule that observes them",
  "tests use distinct texts for private and public patterns; equal spans, duplicate patterns and rejected additions are not reached",
  [PR, RE, M, RU], [("PrivateRemover", PR), ("marker routing", RE + " _matches_patterns"), ("type guards", M + " Matches/Markers._add_match")], observe=["Rebulk.matches", "Matches.markers"])
p("R04", "Rules run by priority, then dependency, then registration, once each",
  "Every enabled rule is evaluated exactly once per run: higher priority first; within one priority a rule comes after all rules it depends on (directly or through others of that priority), and rules at the same dependency depth keep registration order. Dependencies on absent rules or on rules of another priority do not affect the order. Registering two rules of one class at the same priority, or a dependency cycle inside a priority, is reported as an error.",
  ["configurations"], "every set of rules with any priorities, dependency graphs, registration orders and ways of registering (class, instance, module)",
  "tests order two or three rules; dependency graphs across priorities and layers are exponential",
  [RU, TO], [("execute_all_rules", RU), ("toposort_rules", RU), ("toposort", TO)], observe=["Rules.execute_all_rules", "toposort"])
p("R05", "A rule acts only when enabled and triggered, on the state left by the others",
  "A disabled rule is neither asked nor applied; an enabled rule's condition is asked once, with the caller's context, against the collection as left by all rules that ran before it; its action runs at once and only if the response is truthy, receiving that very response. The run reports exactly the triggered rules with their responses, in execution order.",
  ["histories", "programs"], "every sequence of rules whose conditions and actions read and edit the collection",
  "single-rule tests cannot reveal stale snapshots, double evaluation or reordered effects between rules",
  [RU], [("execute_rule", RU)], observe=["Rules.execute_all_rules", "Rebulk.matches"])
p("R06", "Consequences affect the designated matches and nothing else",
  "Removing, appending, renaming, tagging or untagging the matches designated by a rule's response (one match or several; several consequences paired in order with the response elements) changes exactly those very matches: removing takes out the designated match even if another equal one exists, absent matches are left alone, appending never duplicates an equal match, renaming and retagging leave every other match, the pattern and later runs untouched. Lookups by name and tag reflect the change at once.",
  ["histories", "inputs"], "every collection (equal matches, shared tag lists, absent or repeated targets) and every consequence in class, instance or list form",
  "each consequence is tested on one hand-made match, never on matches produced by one pattern or on equal matches",
  [RU, M], [("RemoveMatch/AppendMatch/RenameMatch/AppendTags/RemoveTags", RU), ("tag lists", M + " Match.__init__")], observe=["Consequence.then", "Rebulk.matches"])

# ---- engine
p("E01", "An engine can be reused: a result depends only on text, context and setup",
  "The result of matching a text with a context is the same whenever it is asked: earlier calls with other texts or contexts, edits made by rules or by the caller to previously returned matches and collections, and repeated calls leave no trace. Matching changes neither the engine's patterns, names, tags and defaults nor objects supplied by the caller (context, option dicts and lists).",
  ["histories"], "every engine and every sequence of calls, with results mutated between calls",
  "tests call an engine once or twice on unrelated texts; leaks through shared lists need a particular rule and a second call",
  [RE, PA, M, BU], [("fresh Matches per call", RE + " matches"), ("per-match option copies", PA + " _match/filter_match_kwargs")], observe=["Rebulk.matches"])
p("E02", "Composition: an engine acts as the union of itself and enabled children",
  "An engine produces its own patterns' matches in registration order followed by those of its non-disabled child engines, in order; a pattern, rule class or declared key contributed twice counts once, the engine's own taking precedence. A pattern, child engine or engine disabled (constant or by context) contributes nothing — no match, no rule, no key — and the context given to every predicate, function and rule is the caller's (an empty dict if none).",
  ["configurations", "programs"], "every arrangement of engines, disabled predicates and contexts",
  "two compositions are tested; combinations of disabling, duplication and rule contribution are not",
  [RE, UT], [("effective_patterns/rules/keys", RE), ("extend_safe", UT)], observe=["Rebulk.matches"])

p("E03", "Calls in progress at the same time do not disturb each other",
  "Calls that overlap — in several threads, interleaved at any point, or made from within a function, validator or rule of a call still in progress — on one engine, or on engines sharing patterns, rules and child engines, each give exactly the matches, markers, order and rule executions they would give alone, with the context of their own caller; none sees matches of another, and none fails or hangs because of another.",
  ["schedules", "programs"], "every interleaving of any number of calls, every engine, text and context",
  "no test makes two calls overlap; anything a call kept on a pattern, a rule or an engine would show only under a particular interleaving",
  [RE, PA, CH, RU, PR], [("state of a run in local variables", RE + " matches/_matches_patterns"), ("Pattern.matches", PA), ("Chain._match", CH),
   ("ConflictSolver.when", PR)], observe=["Rebulk.matches"])

# ---- patterns
p("P01", "String patterns find every occurrence, at the right place, and terminate",
  "A string pattern yields, in order, exactly the leftmost non-overlapping occurrences of each of its strings in the text, with exact spans and with the matched text as raw value; with ignore_case, occurrences up to letter case, at their true positions in the original text. It terminates for every string and text, yielding nothing for an empty string.",
  ["inputs"], "every text and searched string over any alphabet, with or without case folding",
  "tests search a few ASCII words; repeated, overlapping, empty and non-ASCII cases are unbounded",
  [UT, PA], [("find_all", UT), ("StringPattern._match", PA)], observe=["Pattern.matches", "find_all"])
p("P02", "Regex matches mirror the regex engine's groups as a match tree",
  "A regex pattern yields one parent match per non-empty occurrence the regex engine reports, in order, with one child per participating non-empty group (per capture when repeated captures are on) in group order: same spans, the group name or else the pattern's name, parent set to the occurrence. Abbreviations are substituted before compiling, flags honoured, and group numbering never mixes up names.",
  ["inputs", "programs"], "every regular expression (nested, optional, alternative, repeated, named and unnamed groups) and text, with both regex backends",
  "a dozen expressions are tested; the mapping has to hold for all group structures",
  [PA, RM], [("RePattern._match", PA), ("backend choice", RM)], observe=["RePattern.matches"])
p("P03", "Options decide precisely which matches of the tree a pattern emits",
  "For each occurrence a pattern emits the parent unless only children were asked for (children, without every or private_parent), then its children if children, every or private_children asks for them, omitting ignored names; occurrences keep the order found, string by string or expression by expression. Emitted matches carry the configured name, tags, marker and privacy (private for all; private_parent, private_children and private_names for those concerned), and post_processor's return value replaces the list.",
  ["configurations"], "all combinations of children, every, private, private_parent, private_children, private_names, ignore_names, marker and post_processor on every match tree",
  "about twenty of several hundred option combinations are tested, each on one tree",
  [PA], [("_process_matches/_should_include_*", PA), ("_process_match_private", PA)], observe=["Pattern.matches", "Rebulk.matches"])
p("P04", "Nothing that fails validation is emitted, and validation rejects nothing else",
  "An occurrence is dropped as a whole, parent and children, exactly when a validator that applies fails (or a match processor returns a falsy non-None value): the validator is the one given for the match's name, else for its role (__parent__ or __children__), else the common one (the first key configured decides, even given nothing), and it is applied to the roles asked for by children and every (the parent unless only children were asked, the children if asked), or to all when validate_all is set. A pre or post match processor returning a match substitutes it, returning None keeps it, and other occurrences are unaffected.",
  ["configurations", "inputs"], "every assignment of validators to names and roles, validate_all, processors, and every match tree",
  "tests cover single validators on single patterns; which validator wins for which match is combinatorial",
  [PA, VA, LO], [("_process_match_validator", PA), ("get_first_defined", UT), ("validators", VA)], observe=["Pattern.matches"])
p("P05", "A match's value follows one fixed precedence: literal, formatter, raw text",
  "The value of a match is its literal value if a truthy one is configured, for its name, else its role, else in general (the first key configured decides); otherwise the result of the formatter chosen likewise applied to its raw text, formatters applying to the roles asked for by children and every, or to all with format_all; otherwise its raw text, which is the covered slice of the text. Setting a value afterwards overrides it for that match only.",
  ["configurations", "inputs"], "every assignment of values and formatters to names and roles on every match tree",
  "a few formatter dicts are tested; precedence between name, role, default, value and format_all is not enumerated",
  [PA, M, FO], [("_process_match_value/_formatter", PA), ("Match.value/raw", M)], observe=["Match.value", "Match.raw"])
p("P06", "Functional patterns turn every accepted return shape into the same matches",
  "A function returning nothing yields no match; returning (start, end), (start, end, options), an options dict, or any list/iterator of those yields exactly the described non-empty matches in order, the options returned (name, tags, private, marker, value) deciding for their match: a name returned also selects the validator, value and formatter, and a value returned stands where the pattern configures none. The function, whatever kind of callable it is, is given the text and, if it accepts a second argument, the context; the objects it returns are not altered.",
  ["inputs"], "every mix of return shapes and options, calls repeated",
  "five shapes are tested one by one, and never twice on the same returned object",
  [PA, LO], [("FunctionalPattern._match", PA), ("call", LO)], observe=["FunctionalPattern.matches"])

# ---- chains
p("C01", "A chain match is a contiguous run of its parts within repeat bounds",
  "Every chain match consists of consecutive matches without gaps: each part in order, repeated between its minimum and maximum, the next repetition or part starting exactly where the text of the previous ended (whatever a processor made of its span). Every constituent is a match its part gives on the text left after the previous constituent, placed in the whole text (spans, raw text, children and parent all consistent), the chain match spans exactly its visible constituents, and hidden parts contribute no match.",
  ["inputs", "programs"], "every chain of string, regex, functional and nested chain parts, repeaters, hidden flags, and every text",
  "tests run hand-picked sentences; wrong offsets only appear after a failed attempt followed by another",
  [CH], [("_match/_to_next_chain_part", CH), ("_truncate_repeater/_validate_repeater", CH), ("_fix_matches_offset", CH)], observe=["Chain.matches"])
p("C02", "Chains are found greedily left to right and no valid run is skipped",
  "Scanning left to right, an attempt starts at the first occurrence of the first part in the text left and takes each part as often as possible up to its maximum; if a part cannot reach its minimum the attempt yields nothing and the search resumes right after the first constituent of the failed attempt, else right after the chain. A chain whose first part is optional is attempted from where the search stands when that part has no occurrence left. Matching always terminates.",
  ["inputs", "programs"], "every chain, repeater assignment and text",
  "resumption after failure and greedy bounds need particular texts; the tests have three",
  [CH], [("_match loop", CH), ("repeater parsing", CH + " ChainPart.repeater")], observe=["Chain.matches"])
p("C03", "A chain that fails validation falls back to its longest acceptable prefix",
  "If the validator of the chain rejects a chain match, its trailing constituents are given up one by one, latest first (a nested chain with all of its members), as far as the minimum of the last part allows and never down to nothing, until the validator accepts what remains; that shortened chain, with its end and children adjusted, is emitted, and if nothing is accepted the chain yields nothing. A chain breaker refusing an element leaves it, and only what it refuses, out of the chain.",
  ["inputs", "programs"], "every chain, validator, breaker and text",
  "two validators and one breaker are tested on one sentence each",
  [CH], [("Chain._process_match", CH), ("_chain_breaker_eval", CH)], observe=["Chain.matches"])

# ---- builder
p("B01", "Builder defaults combine with fixed precedence",
  "The options of a built pattern are the call's own, completed by the defaults for its kind, completed by the general defaults: scalars are taken from the first that gives them (an explicit None included), lists are concatenated, general first, dicts are completed name by name with the same precedence, and options named in overrides are taken from the call alone. Resetting an engine drops everything declared on it, patterns included. A later default declaration replaces, option by option, what earlier ones of the same kind said, or drops all of it with clear. A chain uses the defaults of the builder that created it, its parts those of the chain's builder, which starts as a copy; functions given in defaults are used themselves everywhere, never copies of them.",
  ["configurations", "histories"], "every sequence of defaults, kind defaults, pattern and chain declarations",
  "two sequences are tested; order, merging and clearing interact",
  [BU, LO], [("set_defaults", LO), ("build_*", BU), ("ChainBuilder._inherit_defaults", BU)], observe=["Builder methods", "Match attributes"])
p("B02", "Declaring one pattern never alters another pattern or the caller's objects",
  "Building a pattern or declaring defaults never modifies the dicts, lists or keys passed by the caller, patterns already built, nor the stored defaults; changing defaults on a chain's builder does not affect the outer builder. Two builders given the same option objects stay independent.",
  ["histories"], "every sequence of declarations sharing option objects",
  "aliasing only shows when one object is passed twice and observed later; no test does it",
  [BU, LO, PA], [("set_defaults merging", LO), ("_inherit_keys/_apply_key copies", BU), ("abbreviations", PA)], observe=["Builder methods", "caller-owned objects"])

p("B03", "Declarations read on as one sentence; a chain part goes by what it was told last",
  "Every declaration on a builder (pattern, defaults of any kind, keys) returns that builder; beginning a chain returns the builder of that chain, which starts from the defaults and keys of the builder it is declared on at that time; a part of a chain may be used to go on with the same chain (further parts, nested chains, closing it); closing a chain, from however deep and from any of its parts, returns the engine it belongs to, so that what is declared next goes to that engine. A part told more than once how often it may occur, or whether it is hidden, goes by what it was told last, also after the engine has searched a text.",
  ["histories"], "every sequence of declarations continued from whatever the one before returned, chains nested to any depth, with searches in between",
  "tests write a few sentences of one shape; going on from a nested part, closing from depth and telling a part twice are not sampled",
  [BU, CH], [("Builder methods returning self", BU), ("ChainBuilder.chain/close", BU), ("ChainPart.repeater/hidden/close", CH)], observe=["Builder methods", "ChainPart methods", "Rebulk.matches"])

# ---- typed results
p("T01", "Dict conversion keeps every value, in order, in the documented shape",
  "Converting a collection to a dict gives one entry per match name, in order of first appearance by span: the single distinct value, or the list of distinct values in span order (a first value that is a list standing for its elements); with first_value only the first, with enforce_list always a list, with details the matches themselves. The attached match lists hold every match of the name in span order and, unless enforce_list is set, the attached value lists every distinct value. Converting modifies neither the matches nor their values.",
  ["inputs"], "every collection with repeated names and values, all option combinations",
  "four conversions are tested; repeated and equal values under all options are not",
  [M], [("to_dict", M)], observe=["Matches.to_dict"])
p("T02", "Typed keys read back what their converter produced",
  "A pattern declared with a key is named after it unless it has a name, and converts its text with the key's converter unless it has a formatter; a sequence of keys gives one converter per name, completing the formatters the pattern gives by name, and is refused beside a formatter for everything; keys declared on a builder serve, in the patterns built afterwards, the names without a formatter of their own, unless the pattern has one function for everything. Reading by key gives the first value of that name in collection order or None, reading all gives every value in order.",
  ["configurations", "inputs"], "every combination of key, key sequence, declared keys and explicit formatters, and every collection",
  "tests fix one pattern per feature; precedence among four sources of formatter is not enumerated",
  [BU, KE, M], [("_apply_key/_inherit_keys", BU), ("Matches.__getitem__/all", M), ("Key.converter", KE)], observe=["Matches[key]", "Matches.all"])
p("T03", "Projection onto a model is complete and type mismatches are reported",
  "Projecting a collection onto a dataclass or TypedDict fills each list[...] field with all values of that name in order, each other field with the first, leaves fields without match to their default (TypeError if it has none; omitted in a TypedDict), and raises TypeError exactly when a field's type contradicts the declared key of that name (element types unrelated by subclassing); projecting onto a scalar type gives the first value or LookupError, onto a list of scalars all values, onto a list of models or anything that is no type TypeError. With the declared-key check on, matching raises TypeError exactly when a public, formatter-produced, non-None value a pattern finds under a declared name is not an instance of its declared type, and changes nothing else.",
  ["inputs", "configurations"], "every model shape, declared keys and collection",
  "a dozen models are tested; the product of field type, key type, and presence of values is not",
  [M, RE, DE], [("Matches.to/_contradicts", M), ("check_declared_keys", M)], observe=["Matches.to", "Rebulk.matches"])
p("I01", "Introspection and key checks account for every name a pattern can emit",
  "Every name carried by a public match an engine's enabled patterns emit (without declared properties, names invented by functions or processors, or public parts inside private or marker chains) appears among its introspected properties; private patterns, markers, hidden or private chain parts and disabled children contribute none; declared properties are described as declared, strings by their texts, a literal value by itself, and no value is listed twice under a name. check_keys returns, sorted, exactly the declared names that no pattern of the engine or its children, disabled or not, can emit, minus the allowed ones.",
  ["configurations"], "every set of patterns, groups, private names, chains, child engines, declared keys",
  "tests introspect eight fixed engines",
  [IN, RE], [("PatternDescription", IN), ("check_keys/_producible_names", RE)], observe=["introspect", "Rebulk.check_keys"])
p("X01", "Backend, debug and logging settings never change results",
  "For expressions both accept without repeated captures, the standard and the alternative regex backend give the same matches, and debug mode, log level and the declared-key check (when nothing violates it) change no match, order, value, error or rule execution.",
  ["configurations"], "every engine and text under all combinations of the settings",
  "CI runs the same fixed tests under two settings and never compares results on other inputs; debug mode is tested only for its own output",
  [RM, DE, PA, RE], [("backend selection", RM), ("defined_at", DE), ("log calls", RE + ", " + RU)], observe=["Rebulk.matches"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for r in P:
            f.write(json.dumps(r) + "\n")
    print(len(P), "properties")
