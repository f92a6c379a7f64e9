#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the data below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
             observe_at=observe, hook_needed=None)
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    PROPS.append(dict(id=id, title=title, statement=statement,
                      quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


EX, RU, GR = "jsgf/expansions.py", "jsgf/rules.py", "jsgf/grammars.py"
PA, RE, ERR = "jsgf/parser.py", "jsgf/references.py", "jsgf/errors.py"
XE, XR, XG = "jsgf/ext/expansions.py", "jsgf/ext/rules.py", "jsgf/ext/grammars.py"

P("C01", "Compiling an expansion and parsing it back preserves its meaning",
  "For every expansion tree that can be compiled, the compiled text is accepted by the expansion parser, and "
  "the parsed expansion has the same words, references, alternatives and weights, optionality, repetition and tags, "
  "differing only in nesting that carries no meaning. Compiling the parsed expansion and parsing it again changes nothing more.",
  ["programs", "inputs"],
  "every expansion tree (all node kinds, nesting, tags, weights) and every literal text, name and tag text",
  "The tests compile and parse a fixed list of short trees; precedence, escaping and tag placement errors show only for particular nestings and characters.",
  [EX, PA], [("compile methods of each expansion", EX), ("grammar for expansions and post-processing", PA)],
  ["Expansion.compile", "parse_expansion_string"])

P("C02", "Compiled rules and grammars parse back to equivalent rules and grammars",
  "For every grammar, the compiled text is a valid grammar, and parsing it gives a grammar with the same name, header, imports and "
  "rules (names, visibility, meaning of the expansions) in the same order; the same holds for a compiled rule. Comments and the "
  "documented statement terminators may be placed between statements without changing the result, and statements in an order the format does not allow are rejected.",
  ["programs", "inputs"],
  "every grammar and rule: names, header fields, imports, visibilities, expansion trees, statement orders, comment positions and terminators",
  "The tests parse and compile a few hand-written grammars; names are almost all letters, and terminators and comments appear in a few positions only.",
  [GR, RU, PA], [("Grammar.compile, Rule.compile, Import.compile", GR), ("grammar statements and comments", PA)],
  ["Grammar.compile", "Rule.compile", "parse_grammar_string", "parse_rule_string", "valid_grammar"])

P("C03", "The expansion parser follows the JSGF precedence rules and accepts only JSGF",
  "For every string, the expansion parser accepts it exactly if it is a JSGF expansion, and the resulting expansion groups words, weights, "
  "repeat operators, tags and alternatives as the JSGF precedence rules say: every operator applies to all of what it governs and to nothing more.",
  ["inputs"],
  "every string over the characters of the notation up to the stated lengths, and the minimally parenthesised notation of every tree up to the stated sizes",
  "The tests parse a few dozen strings; wrong precedence or a lost operand appears only in particular combinations of operators.",
  [PA], [("pyparsing grammar for expansions", PA), ("post-processing of alternatives, sequences and tags", PA)],
  ["parse_expansion_string", "valid_grammar"])

P("C04", "Exactly the documented names are accepted for rules, grammars and references",
  "A rule, grammar, import or reference can be created with a name, or given it later, exactly if the name has the documented form: "
  "letters, digits and the documented punctuation, dot-separated parts where parts are allowed, and none of the reserved names. "
  "An invalid name is refused with a grammar error and leaves an existing object's name unchanged.",
  ["inputs"], "every name: all Unicode characters, lengths up to the bound, every class of named object",
  "The tests try a few valid and invalid names of each kind; which of the 1.1 million characters and which placements of dots and stars are accepted is not sampled.",
  [RE, PA], [("name patterns and BaseRef.valid", RE), ("name validation against the parser elements", PA)],
  ["Rule.name", "Grammar.name", "Import.name", "NamedRuleRef.name"])

P("C05", "A rule only matches speech in its language",
  "Whenever a rule reports that it matches some speech, the words of the speech are a sentence of the rule's expansion under the JSGF semantics "
  "(whole words, literals compared as their case sensitivity says, alternatives of weight zero never used). "
  "A part of speech that a rule is found to match is a run of its words that is a sentence. "
  "A disabled rule matches nothing and the null and void rules match only what JSGF says.",
  ["inputs", "programs"], "every expansion tree and every speech string within the bounds",
  "The tests match a few rules against a few sentences; accepting a wrong sentence is invisible unless that sentence is tried.",
  [EX, RU], [("matcher elements of each expansion", EX), ("Rule.matches", RU)],
  ["Rule.matches", "Rule.find_matching_part"])

P("C06", "Every sentence of an unambiguous rule is matched",
  "For a rule in which no word occurs twice (so that no choice is ambiguous), every sentence of its language matches, whatever the case of the speech "
  "for case-insensitive rules and whatever the amount of whitespace between words. Searching longer speech finds a part that starts as early as any "
  "part that is a sentence. A grammar's search for matching rules returns exactly the active public rules "
  "(or all rules, when asked) that match.",
  ["inputs", "programs"], "every tree of distinct words and every sentence within the bounds; every subset of matching rules of a grammar",
  "The tests match a few sentences per kind of expansion; that all sentences of all nestings match is a statement over all of them.",
  [EX, RU, GR], [("matcher elements of each expansion", EX), ("Rule.matches", RU), ("Rule.find_matching_part", RU), ("Grammar.find_matching_rules", GR)],
  ["Rule.matches", "Rule.find_matching_part", "Grammar.find_matching_rules"])

P("C07", "Match data describe one derivation of the matched speech",
  "After a successful match, the current match and slice of every expansion describe one derivation of the speech: a sequence is the concatenation of "
  "its parts, a set has exactly one matched alternative, references and optionals have the match of their child, slices cut the matched words out of the speech, "
  "and a repeat lists its repetitions in order. Expansions that took no part have no match, and after a failed match no expansion has any.",
  ["inputs", "programs"], "every tree and every speech string within the bounds",
  "The tests look at the data of a few trees after one match; leftover data of abandoned attempts and wrong slices depend on the exact tree and speech.",
  [EX, RU], [("parse actions setting current_match and matching_slice", EX), ("reset_for_new_match", EX), ("repetition bookkeeping", EX)],
  ["Expansion.current_match", "Expansion.matching_slice", "Repeat.repetitions_matched", "Rule.was_matched"],
  [("current_match", "the words an expansion matched", EX), ("matching_slice", "where they are in the speech", EX)])

P("C08", "The result of a match does not depend on earlier matches",
  "Matching some speech gives the same result and the same match data and tags whatever was matched, searched for, compiled, copied or generated with the same rule before.",
  ["histories", "inputs"], "every tree, every earlier operation and speech, every later speech within the bounds",
  "State that survives from an earlier match shows only for particular pairs of sentences; tests use a fresh rule or one pair.",
  [EX, RU], [("reset_for_new_match, reset_match_data", EX)],
  ["Rule.matches", "Rule.find_matching_part"])

P("C09", "After any edit, matching and compiling reflect the rule as it is now",
  "Whatever has been matched before, after children, texts, weights, expansions of rules, case sensitivity or activity have been changed in any of the "
  "supported ways, a rule matches and compiles exactly like a newly built rule of the same structure. This includes edits inside referenced rules and moving a part from one rule to another.",
  ["histories", "inputs", "programs"], "every tree, every earlier match, every sequence of edits and every later speech within the bounds",
  "Matchers are built lazily and cached; a missed invalidation shows only for a particular order of match, edit and match.",
  [EX, RU], [("invalidate_matcher and the parent setter", EX), ("ChildList mutators", EX), ("Rule.expansion setter", RU)],
  ["Rule.matches", "Rule.compile"], [("cached matcher element", "parser built for an expansion", EX)])

P("C10", "A repeat keeps the match data of every repetition",
  "After a match, a repeat gives, for each expansion below it and each repetition in order, the match and slice that the expansion has when that "
  "repetition's words are matched alone; the current data are those of the last repetition. "
  "An expansion reports that it had a match exactly if it took part in some repetition of the repeats above it.",
  ["inputs", "programs"], "every repeated tree, nested repeats included, and every speech within the bounds",
  "The tests look at two or three repeats with fixed speech; data mixed up between repetitions or comparable parts depend on the tree and the words.",
  [EX], [("repetition bookkeeping in Repeat's parse actions", EX), ("had_match", EX)],
  ["Repeat.get_expansion_matches", "Repeat.get_expansion_slices", "Expansion.had_match"])

P("C11", "Tags and matched tags are those of the (matched) expansions, in compile order",
  "The tags of a rule are those of its expansions and of the rules it references, in the order of the compiled text; the matched tags are exactly "
  "those of the expansions that took part in the last match, in the same order, and none after a failed match. "
  "A sequence rule has, whatever has been matched, the set of tags of the expansion it was made from, without those of referenced rules. "
  "Searching for a tag finds exactly the rules that have it, surrounding whitespace aside.",
  ["inputs", "programs"], "every tree with any subset of its expansions tagged, every speech, every tag text within the bounds",
  "The tests use a few tagged trees; order and completeness depend on nesting, repeats and which parts matched.",
  [EX, RU, GR], [("Rule.tags, Rule.matched_tags", RU), ("Grammar.find_tagged_rules", GR), ("Expansion.tag setter", EX)],
  ["Rule.tags", "Rule.matched_tags", "Rule.has_tag", "Rule.get_tags_matching", "Grammar.find_tagged_rules"])

P("C12", "Generated strings are sentences of the rule",
  "Whatever the random numbers are, a string generated from a rule is a sentence of its language, uses no alternative of weight 0 and no fewer repetitions than "
  "required, and matches the rule when its words are all different. A disabled rule generates the empty string.",
  ["inputs", "programs"], "every tree and weights within the bounds, every outcome of the random source",
  "The tests generate some strings with the outcomes that the random source happens to give.",
  [EX, RU], [("generate methods", EX), ("Rule.generate", RU)],
  ["Rule.generate", "Expansion.generate"])

P("C13", "Copies of expansions equal the original and are independent of it",
  "A copy of an expansion (copy() or copy.deepcopy) has the same structure, texts, case sensitivities, tags, weights and references, compiles to the same "
  "text, equals the original and matches the same speech with the same data. It shares no node with the original (references to the same rules aside), has its own consistent "
  "parent links, and copying changes nothing in the original. Editing or matching either one later never affects the other. "
  "A shallow copy (copy(shallow=True) or copy.copy) has the children of the original, which belong to it from then on, and its own equal tag, weights and list of children.",
  ["programs", "inputs", "histories"], "every tree with any tags, weights and case sensitivities, every copied node, every later edit and speech within the bounds",
  "The tests copy a few trees and compare them; an attribute that is not copied or a shared part shows only for particular nodes and later edits.",
  [EX, XE], [("__copy__ and __deepcopy__ of each expansion", EX), ("Dictation.__deepcopy__", XE)], ["Expansion.copy", "copy.deepcopy"])

P("C14", "Equality compares contents, is symmetric and agrees with hashes",
  "Two expansions are equal exactly if they are of the same class and have the same text and case sensitivity, referenced name and rule, and equal children in the same order "
  "(for sets of alternatives: in any order, with equal weights); tags do not matter. Two rules are equal exactly if name, visibility, case sensitivity and expansion are "
  "equal (for sequence rules the original expansion, wherever they are in their sequence); two grammars exactly if name, header, case sensitivity, rules and imports are; imports exactly if their names are. "
  "Equality is reflexive and symmetric, != is its negation, equal expansions and rules have equal hashes, and objects of unrelated kinds are unequal.",
  ["programs", "inputs"], "every pair of trees, rules, sequence rules, grammars and imports within the bounds",
  "The tests compare a few dozen pairs; a field that is not compared, an asymmetry or a hash that disagrees needs the pair that differs in just that.",
  [EX, RU, GR, RE, XE, XR], [("__eq__ and __hash__ of each expansion", EX), ("Rule.__eq__, Rule.__hash__", RU), ("Grammar.__eq__", GR), ("BaseRef.__eq__", RE)],
  ["==", "!=", "hash()"])

P("C15", "Children behave as a list, and parent links always agree with it",
  "Under any sequence of list operations (append, extend, +=, insert, pop, remove, clear, index, item and slice assignment, assigning the whole list), the children of an "
  "expansion are those a Python list would have, strings become literals, and each operation fails with the error a list would raise, or a TypeError for invalid items, "
  "leaving everything unchanged. At every point each child's parent is the expansion whose child it is, and an expansion that was taken out has no parent.",
  ["histories", "inputs"], "every sequence of operations with all arguments (indices, slices, equal and distinct items, invalid items) within the bounds",
  "The tests perform a few operations with one argument each; wrong links appear with negative indices, equal siblings, extended slices or failing operations.",
  [EX], [("ChildList", EX), ("Expansion.children and Expansion.parent setters", EX)], ["Expansion.children", "Expansion.parent"],
  [("children", "the list of children", EX), ("parent", "the expansion whose child this is", EX)])

P("C16", "Traversals visit the whole tree in order, and relations agree with the tree",
  "Mapping, flattening, filtering and finding over an expansion visit every expansion below it exactly once, in pre- or post-order, following references unless shallow is requested. "
  "Parents, roots, leaves, optionality, repetition ancestors, descendants, mutual exclusion and the leaves after an expansion agree with the tree as it is now, also after it was edited; "
  "while the trees of referenced rules are joined the references are part of the relations, and afterwards the trees are as before, even if an error was raised.",
  ["programs", "histories"], "every tree with references within the bounds, every pair of its expansions, and every edit between two questions",
  "The tests ask about a few trees that do not change; stored answers go stale after edits, and pairs in different branches or behind references are not tried.",
  [EX], [("map_expansion, flat_map_expansion, filter_expansion, find_expansion", EX), ("JointTreeContext", EX), ("calculations stored in the root's table", EX)],
  ["Expansion.leaves", "Expansion.mutually_exclusive_of", "Expansion.leaves_after", "Expansion.is_optional", "Expansion.is_descendant_of", "JointTreeContext"],
  [("lookup dict", "answers that were calculated", EX)])

P("C17", "A grammar holds the rules and imports that its history leaves, in order",
  "Under any sequence of adding, removing, enabling and disabling rules (by name or by object), adding and removing imports, and changing the rules themselves (their names, visibility, activity and expansions), the rules of a grammar are those a list without repeated names would hold: "
  "an equal rule is not added twice, a different rule of the same name is refused, and a rule that others depend on is not removed unless that is asked for. A refused operation raises the documented error and changes nothing. "
  "Rule names, qualified names, visible rules, lookups by name, dependencies, dependent rules and reference counts agree with the rules that are there.",
  ["histories"], "every sequence of operations with any names (equal or not), visibilities and references between the rules, within the bounds",
  "The tests add and remove a few rules once; wrong bookkeeping needs comparable rules, references by name or failing operations in sequence.",
  [GR, RU], [("add_rule, remove_rule, enable_rule, disable_rule, get_rules", GR), ("dependencies, dependent_rules, reference_count", RU)],
  ["Grammar.rules", "Grammar.get_rule", "Grammar.imports", "Rule.dependencies", "Rule.dependent_rules", "Rule.active"],
  [("rules", "the rules of the grammar", GR), ("imports", "the import statements", GR)])

P("C18", "Compiled grammars hold the active rules, root grammars one public root rule",
  "The text of a compiled grammar has the header, the imports and exactly the enabled rules of the grammar, in order. Compiled as a root grammar, it has one public rule called root, whose alternatives are "
  "references to the enabled public rules in order, and then all enabled rules as private ones; it matches exactly what those public rules match. Compiling changes nothing in the grammar, even if it fails. "
  "Root grammars refuse rules called root, and files get the text of the corresponding compile method.",
  ["programs", "inputs"], "every set of rules (visible or not, enabled or not, compilable or not), names, imports and speech within the bounds",
  "The tests compile a few grammars whose rules are all enabled and compilable; they do not look at the grammar afterwards.",
  [GR, RU], [("Grammar.compile, compile_as_root_grammar, compile_to_file", GR), ("RootGrammar", GR), ("Rule.compile", RU)],
  ["Grammar.compile", "Grammar.compile_as_root_grammar", "Grammar.compile_to_file", "RootGrammar.add_rule", "Rule.visible"])

P("C19", "Names resolve to the local or imported rule that they denote, or not at all",
  "An import is resolved from the first existing file of its grammar, read once, to the public rule of that name or to all public rules; anything else is a JSGFImportError. "
  "Looking up a name gives the local rule of that name, otherwise the imported rule that has it as simple, qualified or full name, otherwise the public rule of that full name in a grammar file; "
  "ambiguous, invalid and unknown names are errors. References to imported rules match what those rules match in their own grammars, including cyclic imports.",
  ["inputs", "histories"], "every name within the bounds against every combination of imports, local rules and grammar files",
  "The tests resolve about twenty names against a fixed set of files; wrong matches need names that share parts, private rules or imports that overlap.",
  [GR, EX], [("Import.resolve and the search for files", GR), ("Grammar.resolve_imports, get_rule_from_name", GR), ("NamedRuleRef.referenced_rule", EX)],
  ["Import.resolve", "Grammar.get_rule", "Grammar.resolve_imports", "NamedRuleRef.referenced_rule", "Grammar.find_matching_rules"],
  [("import environment", "the grammars and rules resolved so far", GR)])

P("C20", "Case sensitivity applies to what it was set on, in matching and in text",
  "Setting the case sensitivity of a grammar sets it for its rules, and setting that of a rule sets it for all its literals and for the rules it references, until it is set again; added rules get that of the grammar. "
  "A case-sensitive literal compiles to, generates and matches its text only; any other one compiles to and generates the text in lower case and matches it in any case, in every alphabet, also as a part of longer speech. The original text is never lost.",
  ["histories", "inputs"], "every tree and every sequence of changes within the bounds, all texts and speech over the stated letters",
  "The tests set a few values on three rules and look at English words; propagation through references and characters without a simple upper case are not tried.",
  [EX, RU, GR], [("Literal.text, Literal.case_sensitive and its matchers", EX), ("Rule.case_sensitive, Rule.find_matching_part", RU), ("Grammar.case_sensitive, Grammar.add_rule", GR)],
  ["Literal.text", "Literal.case_sensitive", "Rule.case_sensitive", "Grammar.case_sensitive", "Rule.matches", "Rule.find_matching_part"],
  [("case_sensitive", "of grammars, rules and literals", EX)])

P("C21", "Expanding dictation and splitting it into a sequence lose nothing",
  "The expansions that expand_dictation_expansion returns together match exactly what the original does (speech without words aside), are all different and need no further expansion. "
  "calculate_expansion_sequence splits an expanded expansion into parts with and without dictation whose speech, joined in order, is that of the expansion. Neither changes the expansion or the rules it references.",
  ["inputs"], "every tree of literals, dictation, references, sequences, alternatives, optionals and repeats within the bounds, all words",
  "The tests compare some 60 results with literal expectations; equal parts in one tree, references inside larger trees and nested optionals are not among them.",
  [XE], [("expand_dictation_expansion", XE), ("calculate_expansion_sequence", XE)],
  ["expand_dictation_expansion", "calculate_expansion_sequence"], [])

P("C22", "A sequence rule matches its parts in order, each once, until it is restarted",
  "A SequenceRule matches exactly what the current part of its sequence does, once; then it refuses until set_next moves on, restart_sequence starts again or refuse_matches is unset. It compiles to the current part, or to nothing while refusing or if that is dictation. "
  "entire_match is the joined speech of all parts once all have matched, which is also set for the original expansion and its dictation. Expansions that are not expanded are refused; setting the case sensitivity applies to all parts.",
  ["histories", "inputs"], "every tree within the bounds and every history of matching, moving on, restarting and refusing, all words",
  "The tests follow a few fixed histories for a few rules and never mix the operations.",
  [XR, XE], [("SequenceRule", XR), ("calculate_expansion_sequence", XE), ("Dictation.use_current_match", XE)],
  ["SequenceRule.matches", "SequenceRule.compile", "SequenceRule.set_next", "SequenceRule.restart_sequence", "SequenceRule.entire_match", "SequenceRule.refuse_matches", "SequenceRule.original_expansion"],
  [("_current_index, _refuse_matches", "position in the sequence", XR)])

P("C23", "Dictation matches any words up to the next literal",
  "A rule with dictation only matches speech in its language, where dictation is one or more words of letters, digits and punctuation, and matches all such speech if the dictated words are not words of its literals, whatever comes next: alternatives, optional parts, further repetitions, references or more dictation (which gets all but the first word). "
  "Words that merely start with the next literal are dictation; next literals are recognised in any case unless they are case sensitive. With a joint tree, this includes dictation in referenced rules.",
  ["inputs"], "every rule within the bounds, all words of literals and speech",
  "The tests match a dozen sentences of simple rules; the look-ahead has to be right for every tree and every word.",
  [XE, EX], [("Dictation and its look-ahead", XE), ("Expansion.matches", EX)],
  ["Rule.matches", "Dictation.matches", "JointTreeContext"], [])

P("C24", "Dictation grammars keep, compile and match the rules their history leaves",
  "Every rule added to a DictationGrammar stands for the rules generated from it until it is removed, and then for none; names are unique, rules that others reference are only removed when asked to, and a refused change changes nothing. "
  "find_matching_rules returns exactly the visible, enabled generated rules that match, moves sequences on if asked to and sets the match of the original rule. Compiled text has the header, imports and exactly the rules that can be spoken next. Enabling, disabling, resetting and case sensitivity apply to all generated rules.",
  ["histories", "inputs"], "every history within the bounds of adding, removing, matching, resetting, enabling, disabling, importing and setting case sensitivity, all words",
  "The tests follow ten fixed histories, none with private rules, disabled rules, imports or case sensitivity.",
  [XG, XR, XE, GR], [("DictationGrammar", XG), ("SequenceRule.graft_sequence_matches", XR), ("Grammar", GR)],
  ["DictationGrammar.add_rule", "DictationGrammar.remove_rule", "DictationGrammar.find_matching_rules", "DictationGrammar.compile", "DictationGrammar.compile_as_root_grammar", "DictationGrammar.get_original_rule", "DictationGrammar.get_generated_rules", "DictationGrammar.rules"],
  [("_dictation_rules, _jsgf_only_grammar and original rules", "rules of the grammar", XG)])

P("C25", "Pickles, and deep copies of rules and grammars, equal the original and work",
  "Any expansion, rule (sequence rules too) or grammar (root and dictation grammars too) that is pickled and loaded, and any rule or grammar that is deep-copied, whatever was done with it before, has the same structure, settings, texts, tags, weights, imports and case sensitivities, equals the original, compiles to the same text and matches the same speech with the same data. Parents, rules and grammars of the new objects are the new ones, references by name lead to new rules, pickles keep match data and the place in a sequence, and changing or matching either object never affects the other.",
  ["programs", "inputs", "histories"], "every tree, rule and grammar within the bounds, any object of it pickled, all words",
  "No test pickles anything, although the change log promises serialization; two tests deep-copy one rule each.",
  [EX, RU, GR, XG, XR], [("Expansion.__getstate__", EX), ("AlternativeSet.weights", EX), ("Rule.__deepcopy__", RU)],
  ["pickle.dumps", "pickle.loads", "copy.deepcopy", "Rule.matches", "Grammar.compile", "Grammar.find_matching_rules"],
  [("_weights, _lookup_dict, _matcher_element, rule and parent", "expansions", EX), ("grammar", "rules", RU)])

P("C26", "Expansions can be matched on their own, and match data saved and restored",
  "Matching an expansion on its own, whether it is a whole tree or inside one and whatever was matched before, takes a sentence of the expansion from the start of the speech and returns the rest of the speech, "
  "and sets the match data of the expansion and its descendants only, as a rule with that expansion would. If it matches nothing, all of the speech is returned and there are no match data. "
  "Match data that have been saved for a tree are restored exactly, or, if asked for, without replacing current matches by missing ones. "
  "The regex pattern of a literal matches exactly its words with any white space between them. Two matches overlap only if they are matches of the same string, and always if they have characters in common, in either order.",
  ["inputs", "histories"], "every tree, every expansion in it, every earlier match and speech, every literal text and string within the bounds",
  "The tests match whole rules; these helpers are hardly tested, and wrong match data show only for particular trees and sentences.",
  [EX], [("Expansion.matches", EX), ("save_current_matches, restore_current_matches, matches_overlap", EX), ("Literal.matching_regex_pattern", EX)],
  ["Expansion.matches", "Expansion.current_match", "Expansion.matching_slice", "restore_current_matches", "matches_overlap", "Literal.matching_regex_pattern"])

LEVEL_NOTE = (
    "Symbolic execution of the current sources of jsgf (and of the installed pyparsing and six) with Z3: every path of the harness within "
    "the stated bounds is explored and the assertion is decided for all values on it; every path is replayed on the uninstrumented "
    "code, and a difference is an error. Trusts the instrumentation's model of Python strings and numbers, and Z3. Nothing is claimed outside the bounds in the evidence file.")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    checks = [dict(property=p["id"],
                   quick_cmd="./check %s quick" % p["id"],
                   thorough_cmd="./check %s thorough" % p["id"],
                   technique="symbolic execution of the real Python sources, decided by Z3",
                   level="model_checking", level_note=LEVEL_NOTE)
              for p in PROPS if p["id"] not in [n["property"] for n in NOT_APPLICABLE]]
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="python3-vt -c 'import z3' && /opt/venv/bin/python -c 'import pyparsing, six'", checks=checks,
                       not_applicable=NOT_APPLICABLE), f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
