"""C11: tags and matched tags are those of the expansions, in compile order."""
import jsgf
from jsgf.ext import SequenceRule
from symex.alph import LOWER
from props.C21 import ExtGen
from props.gen import Gen
from props.matchref import speech_words, postorder, matched_nodes


def word(g, name):
    return g.h.string(name, 1, 1, LOWER)


def shared_below_repeat(e, repeated=False, seen=None):
    """Whether a rule is referenced below a repeat, or more than once."""
    seen = [] if seen is None else seen
    if isinstance(e, jsgf.NamedRuleRef):
        r = e.referenced_rule
        if repeated or any(r is x for x in seen):
            return True
        seen.append(r)
        return shared_below_repeat(r.expansion, repeated, seen)
    for c in e.children:
        if shared_below_repeat(c, repeated or isinstance(e, jsgf.Repeat), seen):
            return True
    return False


def compiled_tags(h, text):
    """The tags of compiled text without escapes."""
    out = []
    at = text.find("{")
    while at >= 0:
        end = text.find("}", at)
        out.append(text[at + 1:end].strip())
        at = text.find("{", end)
    return out


def matching(budget, nwords, leaves=("lit",), inner=("seq", "alt", "opt", "rep", "star"), kids=3, share=False,
             before=False, sub=True):
    def fn(h):
        shared = []

        def ref(g, name):
            if share and shared and h.bool(name + ".share"):
                return jsgf.RuleRef(shared[0])
            sub = g.tree() if g.left > 0 else tagged(jsgf.Literal(word(g, name)), name + "x")
            shared.append(jsgf.PrivateRule("x" + name, sub))
            return jsgf.RuleRef(shared[-1])
        g = Gen(h, budget, leaves=leaves, inner=inner, kids=kids, text=word, ref=ref,
                tag=lambda g, name: name)
        rule = jsgf.PublicRule("r", g.tree())
        if before:
            rule.matches(" ".join(speech_words(h, 1, LOWER, "p")))
        s = " ".join(speech_words(h, 1 + h.choose(nwords, "words"), LOWER))
        if h.bool("get"):
            got = rule.get_tags_matching(s)
            ok = rule.was_matched
        else:
            ok = rule.matches(s)
            got = rule.matched_tags
        h.observe("tags", got)
        want = []
        if ok:
            for x, y in zip(postorder(rule.expansion), matched_nodes(rule.expansion, s)):
                if y and len(x.tag) > 0:
                    want.append(x.tag)
        h.check(got == want, "wrong matched tags",
                sig="repeated-references" if shared_below_repeat(rule.expansion) else None)
        h.reach("matched" if ok else "rejected")
    return fn


def tagged(e, t):
    e.tag = t
    return e


def listing(budget, find=False, leaves=("lit", "ref"), inner=("seq", "group", "alt", "opt", "rep", "star")):
    """tags, has_tag and find_tagged_rules for all subsets of tagged nodes."""
    def fn(h):
        def ref(g, name):
            sub = g.tree() if g.left > 0 else tagged(jsgf.Literal("w"), h.string(name + ".xtag", 0, 1, "xy"))
            r = jsgf.PrivateRule("x" + name, sub)
            others.append(r)
            return jsgf.RuleRef(r)
        others = []
        g = Gen(h, budget, leaves=leaves, inner=inner, text=lambda g, n: "w", ref=ref,
                tag=lambda g, name: h.string(name + ".tag", 0, 1, "xy"))
        rule = jsgf.PublicRule("r", g.tree())
        want = [x.tag for x in postorder(rule.expansion) if len(x.tag) > 0]
        got = rule.tags
        h.observe("tags", got)
        h.check(got == want, "wrong tags")
        if not others:
            h.check(compiled_tags(h, rule.expansion.compile()) == want, "tags are not in compile order")
            h.check(compiled_tags(h, rule.expansion.compile(ignore_tags=True)) == [],
                    "tags although they are to be ignored")
        if not find:
            h.reach("ok")
            return
        q = h.string("q", 1, 1, "xyz ")
        pad = h.pick(("", " "), "pad")
        has = False
        for t in want:
            has = h.or_(has, t == q)
        h.check(h.iff(rule.has_tag(pad + q + pad), has), "has_tag is wrong")
        gr = jsgf.Grammar("g")
        gr.add_rule(rule)
        gr.add_rules(*others)
        second = jsgf.PublicRule("s", "w") if h.bool("pub") else jsgf.PrivateRule("s", "w")
        second.expansion.tag = h.string("stag", 0, 1, "xy")
        gr.add_rule(second)
        if h.bool("off"):
            rule.disable()
        hidden = h.bool("hidden")
        found = gr.find_tagged_rules(q, include_hidden=hidden)
        h.observe("found", [r.name for r in found])
        for r in gr.rules:
            mine = False
            for x in postorder(r.expansion):
                if len(x.tag) > 0:
                    mine = h.or_(mine, x.tag == q)
            mine = h.and_(mine, r.visible or hidden)
            h.check(h.iff(any(r is f for f in found), mine), "find_tagged_rules is wrong")
        h.reach("ok")
    return fn


def sequence(budget, leaves=("lit", "dict", "ref"), inner=("seq", "group", "alt", "rep")):
    """Sequence rules have the tags of their original expansion, without those of
    referenced rules, wherever they are in their sequence."""
    def fn(h):
        def ref(g, name):
            return jsgf.RuleRef(jsgf.PrivateRule("x" + name, tagged(jsgf.Literal("w"), "z")))
        g = ExtGen(h, budget, leaves=leaves, inner=inner, text=lambda g, n: "w", ref=ref,
                   tag=lambda g, name: h.string(name + ".tag", 0, 1, "xy"))
        e = g.tree()
        try:
            rule = SequenceRule("r", True, e)
        except jsgf.GrammarError:
            h.reach("refused")
            return
        for i in range(2):
            got = rule.tags
            h.observe("tags%d" % i, sorted(got))
            want = [x.tag for x in g.nodes if len(x.tag) > 0]
            h.check(all(any(t == w for w in want) for t in got), "a sequence rule has a tag of something else")
            h.check(all(any(t == w for t in got) for w in want), "a sequence rule lacks a tag")
            h.check(rule.has_tag(" x") == any(w == "x" for w in want) and not rule.has_tag("z"), "has_tag is wrong for a sequence rule")
            rule.matches("w w")
            rule.set_next()
        h.reach("ok")
    return fn


def search(chars):
    """Searching for any text finds exactly the rules with that tag."""
    def fn(h):
        tags, e = [], jsgf.Sequence("a", jsgf.OptionalGrouping("b"))
        for i, x in enumerate((e, e.children[0], e.children[1].child)):
            if h.bool("tag%d" % i):
                x.tag = h.string("t%d" % i, 1, chars, "xXy ")
                tags.append(x.tag)
        rule = jsgf.PublicRule("r", e)
        g = jsgf.Grammar("g")
        g.add_rule(rule)
        q = h.string("q", 0, chars, "xXy ")
        want = False
        for t in tags:
            want = h.or_(want, h.and_(len(t) > 0, t == q.strip()))
        got = rule.has_tag(q)
        h.check(h.iff(got, want), "has_tag is wrong")
        h.check((g.find_tagged_rules(q) == [rule]) == got, "find_tagged_rules differs from has_tag")
        h.reach("found" if got else "none")
    return fn


def setter(chars):
    """Tags are stripped; no tag is the empty string; other types are refused."""
    def fn(h):
        e = h.pick((lambda: jsgf.Literal("a"), lambda: jsgf.Sequence("a"), lambda: jsgf.NullRef(),
                    lambda: jsgf.NamedRuleRef("n"), lambda: jsgf.AlternativeSet("a", "b")), "e")()
        if h.bool("old"):
            e.tag = "old"
        before = e.tag
        k = h.choose(3, "k")
        if k == 0:
            s = h.string("t", 0, chars, "ab \t\n")
            e.tag = s
            i, j = 0, len(s)
            while i < j and s[i] in " \t\n":
                i += 1
            while j > i and s[j - 1] in " \t\n":
                j -= 1
            h.check(e.tag == s[i:j], "a tag is not the stripped text")
            h.observe("tag", e.tag)
            h.check((len(e.compiled_tag) > 0) == (len(s[i:j]) > 0), "compiled tag without a tag, or the reverse")
        elif k == 1:
            e.tag = h.pick((None, ""), "none")
            h.check(e.tag == "" and e.compiled_tag == "", "the tag was not removed")
        else:
            try:
                e.tag = h.pick((1, ("a",), jsgf.Literal("x")), "bad")
            except TypeError:
                h.check(e.tag == before, "a refused tag was set")
            else:
                h.fail("a tag that is not a string was accepted")
        h.reach("ok")
    return fn


R = ("matched", "rejected")
Q, T, B = ("quick",), ("thorough",), ("quick", "thorough")
ALL = "literals of one symbolic letter, sequences, alternatives, optionals, repeats, stars"
HARNESSES = [
    dict(name="trees4", fn=matching(4, 3), tiers=Q, reach=R,
         bounds="every tree of at most 4 nodes (%s), all tagged, up to 3 symbolic words" % ALL),
    dict(name="again3", fn=matching(3, 2, before=True), tiers=Q, reach=R,
         bounds="every tree of at most 3 nodes matched before with one symbolic word"),
    dict(name="refs4", fn=matching(4, 2, leaves=("lit", "ref"), inner=("seq", "alt", "opt", "rep"), share=True),
         tiers=Q, reach=R, bounds="every tree of at most 4 nodes with references, rules referenced twice included; 2 words"),
    dict(name="wide", fn=matching("wide", 6), tiers=B, reach=R, bounds="sequences, groups and sets of 4 or 6 children, any one of them within another expansion, all tagged, speech of 1-6 words"),
    dict(name="deep", fn=matching("deep", 6), tiers=B, reach=R, bounds="five expansions within each other, of two kinds in turn, all tagged, speech of 1-6 words"),
    dict(name="trees5", fn=matching(5, 3), tiers=T, reach=R, bounds="as trees4 with 5 nodes"),
    dict(name="again4", fn=matching(4, 2, before=True), tiers=T, reach=R, bounds="as again3 with 4 nodes"),
    dict(name="refs5", fn=matching(5, 2, leaves=("lit", "ref"), inner=("seq", "alt", "opt", "rep"), share=True),
         tiers=T, reach=R, bounds="as refs4 with 5 nodes"),
    dict(name="listing3", fn=listing(3), tiers=Q, reach=("ok",),
         bounds="every tree of at most 3 nodes with references; tags of 0..1 symbolic characters on every node"),
    dict(name="find2", fn=listing(2, True), tiers=Q, reach=("ok",),
         bounds="has_tag and find_tagged_rules with a symbolic tag, for a grammar of a rule of at most 2 nodes and another "
                "rule, public or private; disabled rules"),
    dict(name="listing4", fn=listing(4), tiers=T, reach=("ok",), bounds="as listing3 with 4 nodes"),
    dict(name="find3", fn=listing(3, True), tiers=T, reach=("ok",), bounds="as find2 with 3 nodes"),
    dict(name="sequence3", fn=sequence(3, inner=("seq", "alt", "rep")), tiers=Q, reach=("ok",),
         bounds="sequence rules of every tree of at most 3 nodes (literals, dictation, references, sequences, alternatives, repeats), tags of 0..1 symbolic characters"),
    dict(name="sequence4", fn=sequence(4), tiers=T, reach=("ok", "refused"), bounds="as sequence3 with 4 nodes"),
    dict(name="search2", fn=search(2), tiers=Q, reach=("found", "none"),
         bounds="a rule with up to 3 tags of 1..2 characters over 'xXy' and space, a search for 0..2 such characters"),
    dict(name="search3", fn=search(3), tiers=T, reach=("found", "none"), bounds="as search2 with up to 3 characters"),
    dict(name="setter", fn=setter(4), tiers=B, reach=("ok",),
         bounds="tags of 0..4 characters over 'ab', space, tab and newline, removed tags, other types"),
]
