"""C26: expansions match on their own; match data can be saved, restored and compared."""
import jsgf
from jsgf.expansions import matches_overlap
from jsgf.ext import Dictation
from symex.alph import LOWER
from props.gen import Gen, clone
from props.matchref import (Lang, check_data, check_no_data, falsy, literal_words, nodes, same,
                            speech_words, states_equal)


def word(g, name):
    return g.h.string(name, 1, 1, LOWER)


def make(h, budget, leaves, inner, empty=False):
    def ref(g, name):
        sub = g.tree() if g.left > 0 else jsgf.Literal(word(g, name))
        return jsgf.RuleRef(jsgf.PrivateRule("x" + name, sub))
    return Gen(h, budget, leaves=leaves, inner=inner, kids=3, empty=empty, text=word, ref=ref).tree()


def data(e):
    return [(x.current_match, x.matching_slice) for x in nodes(e)]


def of(e):
    """The data of the nodes of e, for each repetition of its repeats too."""
    out = []
    for x in nodes(e):
        m = x.current_match  # '' rather than None in an optional expansion
        out += [None if falsy(m) else m, x.matching_slice]
        if isinstance(x, jsgf.Repeat):
            out.append(x.repetitions_matched)
            for y in nodes(x.child):
                out += [[None if falsy(m) else m for m in x.get_expansion_matches(y)],
                        x.get_expansion_slices(y)]
    return out


def joined(h, words):
    """Words with varying blanks around them and between them."""
    style = h.choose(3, "blanks")
    return [" ".join(words), "  " + "  ".join(words), "\t".join(words) + " "][style]


def repeated(x):
    x = x.parent
    while x is not None:
        if isinstance(x, jsgf.Repeat):
            return True
        x = x.parent
    return False


def own(budget, nwords, leaves=("lit",), inner=("seq", "alt", "opt", "rep", "star"), prior=1, empty=False):
    def fn(h):
        root = make(h, budget, leaves, inner, empty)
        everything = list(nodes(root))
        x = h.pick(everything, "which")
        twin = clone(x)
        if h.bool("before"):
            h.pick(everything, "earlier").matches(
                " ".join(speech_words(h, prior, LOWER, "p")))
        inside = list(nodes(x))
        outside = [y for y in everything if not any(z is y for z in inside)]
        before = [(y.current_match, y.matching_slice) for y in outside]

        words = speech_words(h, 1 + h.choose(nwords, "words"), LOWER)
        speech = " ".join(words)
        rest = x.matches(joined(h, words))
        got = x.current_match
        h.observe("rest", rest)
        h.observe("match", got)

        # The match and the rest are the speech, and the match is in the language.
        if falsy(got):
            h.check(rest == speech, "an expansion that matches nothing does not return the speech")
            check_no_data(h, x, "after an expansion matched nothing")
        else:
            parts = got.split()
            h.check(same(h, got + (" " + rest if rest else ""), speech),
                    "the match of an expansion and the rest are not the speech")
            ends = Lang(h, words).ends(x, 0)
            h.check(ends.get(len(parts), False), "the match is not in the language of the expansion")
            h.check(x.matching_slice.start == 0, "the match does not start where the speech does")
            check_data(h, x, speech)
        for y, (m, s) in zip(outside, before):
            h.check(y.current_match == m and y.matching_slice == s,
                    "matching an expansion changes the match data outside it")

        # An expansion without a tree around it does the same. (A repeat directly in a repeat
        # is ambiguous; how it is matched depends on the outer one.)
        if any(isinstance(y, jsgf.Repeat) for y in inside) and repeated(x):
            return
        h.check(twin.matches(speech) == rest, "the rest depends on the tree around an expansion or on earlier matches")
        h.check(states_equal(of(x), of(twin)), "the match data depend on the tree around an expansion or on earlier matches")
        rule = jsgf.PublicRule("r", clone(x))
        h.check(rule.matches(speech) == (rest == "" and twin.current_match is not None),
                "an expansion and a rule with it do not match the same")
        h.reach("none" if falsy(got) else "all" if rest == "" else "part")
    return fn


def restore(budget, nwords, later, leaves=("lit", "ref"), inner=("seq", "alt", "opt", "rep")):
    def fn(h):
        root = make(h, budget, leaves, inner)
        rule = jsgf.PublicRule("r", root)
        rule.matches(" ".join(speech_words(h, 1 + h.choose(nwords, "n"), LOWER, "a")))
        part = h.pick([root] + list(root.children), "part")
        saved = data(root)
        inside = list(nodes(part))
        values = jsgf.save_current_matches(part)
        h.check(data(root) == saved, "saving match data changes them")
        for x in inside:
            h.check(x in values, "an expansion is not among the saved ones")
        if h.bool("again"):
            rule.matches(" ".join(speech_words(h, 1 + h.choose(later, "m"), LOWER, "b")))
        else:
            root.reset_for_new_match()
        now = data(root)
        none = h.bool("none")
        if none and h.bool("default"):
            jsgf.restore_current_matches(part, values)
        else:
            jsgf.restore_current_matches(part, values, none)
        for x, (m, s), (m1, s1) in zip(nodes(root), saved, now):
            if not any(x is y for y in inside):
                h.check(x.current_match == m1 and x.matching_slice == s1,
                        "restoring changes the match data of other expansions")
                continue
            want = (m if none or m is not None else m1, s if none or s is not None else s1)
            if x.current_match == want[0] and x.matching_slice == want[1]:
                continue
            # Known: comparable expansions share one entry, the last one's.
            last = [y for y in zip(nodes(root), saved) if y[0] == x and
                    any(y[0] is z for z in inside)][-1]
            m, s = last[1]
            want = (m if none or m is not None else m1, s if none or s is not None else s1)
            h.check(False, "restored match data differ from the saved ones",
                    sig="equal-expansions" if last[0] is not x and x.matching_slice == want[1] and
                    (x.current_match == want[0] or falsy(x.current_match) and falsy(want[0])) else None)
        h.reach("restored")
        if none and len(inside) > 1:
            h.reach("all")
    return fn


def pattern(texts, nchars, cls):
    def fn(h):
        lit = jsgf.Literal(h.pick(texts, "text"), case_sensitive=True)
        s = h.string("s", 0, nchars, cls)
        m = lit.matching_regex_pattern.match(s)
        got = m is not None and m.end() == len(s)
        h.observe("got", got)
        h.check(got == (s.split() == literal_words(lit) and s == s.strip()),
                "the regex pattern of a literal does not match exactly its words")
        h.reach("yes" if got else "no")
    return fn


class Span:
    """Stands in for a match object."""

    def __init__(self, string, start, stop):
        self.string, self.start_, self.stop = string, start, stop

    def span(self):
        return self.start_, self.stop

    def start(self):
        return self.start_

    def end(self):
        return self.stop


def overlap(n):
    def fn(h):
        def one(name):
            if h.bool(name + ".none"):
                return None
            a = h.choose(n, name + ".a")
            return Span(h.string(name + ".s", n, n, "ab"), a, a + h.choose(n - a + 1, name + ".len"))
        a, b = one("a"), one("b")
        got = bool(matches_overlap(a, b))
        h.observe("got", got)
        h.check(bool(matches_overlap(b, a)) == got, "overlap of matches depends on their order")
        if a is None or b is None or a.string != b.string:
            h.check(not got, "matches of different strings overlap")
            h.reach("different")
        elif any(a.start_ <= i < a.stop and b.start_ <= i < b.stop for i in range(n)):
            h.check(got, "matches with common characters do not overlap")
            h.reach("common")
        elif a.stop < b.start_ or b.stop < a.start_:
            h.check(not got, "matches with something between them overlap")
            h.reach("apart")
    return fn


Q, T, B = ("quick",), ("thorough",), ("quick", "thorough")
ALL = "literals of one symbolic letter, sequences, alternatives, optionals, repeats, Kleene stars"
WS = " \t\n\x0b\x0c\r"
TEXTS = ("a", "a b", "a.b", "a+", "(a", "a|b", "[a] b", "a\\b", "^a$", "a*", "a  b", "a{2}", "?", "b a b")
R = ("none", "all", "part")
SP = dict(leaves=("lit", "null", "void", "ref"), inner=("seq", "alt", "opt", "rep"))
HARNESSES = [
    dict(name="own3", fn=own(3, 2), tiers=Q, reach=R,
         bounds="every tree of at most 3 nodes (%s), every expansion in it, an earlier match of any expansion of the tree or none, speech of 1-2 words with 3 kinds of blanks" % ALL),
    dict(name="own-specials3", fn=own(3, 2, **SP), tiers=Q, reach=R,
         bounds="the same with references to rules, <NULL> and <VOID>"),
    dict(name="restore4", fn=restore(4, 2, 1), tiers=Q, reach=("restored", "all"),
         bounds="every tree of at most 4 nodes (literals, references, sequences, alternatives, optionals, repeats), any speech of 1-2 words before saving and of one word or none afterwards, the whole tree or a child saved, both modes of restoring"),
    dict(name="wide", fn=own("wide4", 2), tiers=Q, reach=R, bounds="sequences, groups and sets of 4 children, any one of them within another expansion, speech of up to 2 words"),
    dict(name="wide6", fn=own("wide", 3), tiers=T, reach=R, bounds="sequences, groups and sets of 4 or 6 children, any one of them within another expansion, speech of up to 3 words"),
    dict(name="deep", fn=own("deep3", 2), tiers=Q, reach=R, bounds="three expansions within each other, of two kinds in turn, speech of up to 2 words"),
    dict(name="deep5", fn=own("deep", 3), tiers=T, reach=R, bounds="five expansions within each other, of two kinds in turn, speech of up to 3 words"),
    dict(name="own4", fn=own(4, 3), tiers=T, reach=R,
         bounds="every tree of at most 4 nodes (%s), every expansion in it, an earlier match of any expansion of the tree or none, speech of 1-3 words with 3 kinds of blanks" % ALL),
    dict(name="own-specials4", fn=own(4, 2, **SP), tiers=T, reach=R,
         bounds="the same of at most 4 nodes and 2 words with references to rules, <NULL> and <VOID>"),
    dict(name="restore5", fn=restore(5, 2, 2), tiers=T, reach=("restored", "all"),
         bounds="as restore4, for trees of at most 5 nodes and 1-2 words or none afterwards"),
    dict(name="pattern", fn=pattern(TEXTS, 6, "ab.+(|[]\\^$*{}2?" + WS), tiers=B, reach=("yes", "no"),
         bounds="%d literal texts with and without characters that are special in regular expressions, every string of at most 6 characters of these and white space" % len(TEXTS)),
    dict(name="overlap", fn=overlap(4), tiers=B, reach=("different", "common", "apart"),
         bounds="every pair of spans in any two strings of 4 characters, or no match; stand-ins for match objects"),
]
OUTSIDE = ["How much a repeat inside a repeat takes when it is matched on its own (ambiguous; what it takes is checked to be in its language).",
           "Matching an expansion of a tree on its own when it has dictation in it (what dictation takes depends on what follows it in the tree).",
           "Whether spans that touch, or that are empty, overlap (not documented)."]
