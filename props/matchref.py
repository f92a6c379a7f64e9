"""Reference semantics of matching: membership of words in the language of a tree."""
import jsgf
from props.gen import clone
from jsgf.ext import Dictation


def fold(w, cs):
    return w if cs else w.lower()


def literal_words(e):
    return e.text.split()


class Lang:
    """
    ends(e, i) = {j: condition under which e derives words[i:j]}.

    weight(alt, k): condition under which alternative k of alt can be spoken
    (default: it can).
    """

    def __init__(self, h, words, weight=None):
        self.h = h
        self.w = words
        self.weight = weight
        self.memo = {}

    def ends(self, e, i):
        key = id(e), i
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self._ends(e, i)
        return r

    def add(self, d, j, cond):
        if cond is False:
            return
        d[j] = self.h.or_(d[j], cond) if j in d else cond

    def _ends(self, e, i):
        h, w = self.h, self.w
        out = {}
        if isinstance(e, jsgf.NullRef):
            return {i: True}
        if isinstance(e, jsgf.VoidRef):
            return {}
        if isinstance(e, jsgf.NamedRuleRef):
            return self.ends(e.referenced_rule.expansion, i)
        if isinstance(e, jsgf.Literal):
            ts = literal_words(e)
            if i + len(ts) > len(w):
                return {}
            cs = e.case_sensitive
            cond = True
            for t, x in zip(ts, w[i:]):
                cond = h.and_(cond, fold(t, cs) == fold(x, cs))
            return {i + len(ts): cond} if cond is not False else {}
        if isinstance(e, jsgf.Sequence):
            cur = {i: True}
            for c in e.children:
                nxt = {}
                for k, a in cur.items():
                    for j, b in self.ends(c, k).items():
                        self.add(nxt, j, h.and_(a, b))
                cur = nxt
            return cur
        if isinstance(e, jsgf.AlternativeSet):
            if not e.children:  # compiled to <NULL>
                return {i: True}
            for n, c in enumerate(e.children):
                on = True if self.weight is None else self.weight(e, n)
                for j, b in self.ends(c, i).items():
                    self.add(out, j, h.and_(on, b))
            return out
        if isinstance(e, jsgf.OptionalGrouping):
            out = dict(self.ends(e.child, i))
            out[i] = True
            return out
        if isinstance(e, jsgf.Repeat):
            out = dict(self.ends(e.child, i))
            for k, a in list(out.items()):
                if k > i:
                    for j, b in self.ends_plus(e, k).items():
                        self.add(out, j, h.and_(a, b))
            if isinstance(e, jsgf.KleeneStar):
                out[i] = True
            return out
        raise AssertionError("no semantics for %s" % type(e).__name__)

    def ends_plus(self, e, i):
        return self.ends(e, i)

    def member(self, e):
        return self.ends(e, 0).get(len(self.w), False)


def speech_words(h, n, cls, name="s", chars=1):
    return [h.string("%s%d" % (name, i), 1, chars, cls) for i in range(n)]


def nodes(e, refs=True):
    """All nodes of a tree, those of referenced rules included."""
    yield e
    if isinstance(e, jsgf.NamedRuleRef):
        if refs:
            for x in nodes(e.referenced_rule.expansion):
                yield x
    else:
        for c in e.children:
            for x in nodes(c, refs):
                yield x


def falsy(x):
    return x is None or len(x) == 0


def no_match(h, x, msg):
    m = x.current_match
    h.check(falsy(m), "%s: an expansion has a current match" % msg)
    s = x.matching_slice
    h.check(s is None or s.start == s.stop, "%s: an expansion has a slice" % msg)


def check_no_data(h, e, msg):
    for x in nodes(e):
        no_match(h, x, msg)


def same(h, a, b):
    """Equal up to case (a match may have the case of the speech or of the rule)."""
    return a == b or a.lower() == b.lower()


def check_data(h, e, speech, msg=""):
    """The match data of a matched tree describe a derivation of e's match."""
    m, s = e.current_match, e.matching_slice
    if falsy(m):
        check_unmatched(h, e, msg)
        return
    h.check(s is not None and s.step in (None, 1), msg + "a matched expansion has no slice")
    h.check(same(h, speech[s.start:s.stop], m), msg + "the slice is not that of the match")
    if isinstance(e, jsgf.NamedRuleRef):
        x = e.referenced_rule.expansion
        h.check(not falsy(x.current_match) and x.current_match == m and
                slice_eq(x, e), msg + "a reference and its rule have different matches")
        check_data(h, x, speech, msg)
    elif isinstance(e, Dictation):
        pass
    elif isinstance(e, jsgf.Literal):
        ws = literal_words(e)
        h.check(same(h, m, " ".join(ws)), msg + "a literal matched other words")
    elif isinstance(e, jsgf.Sequence):
        parts = []
        at = None
        for c in e.children:
            check_data(h, c, speech, msg)
            if not falsy(c.current_match):
                parts.append(c.current_match)
                if at is not None:
                    h.check(c.matching_slice.start == at + 1,
                            msg + "the parts of a sequence are not adjacent")
                else:
                    h.check(c.matching_slice.start == s.start,
                            msg + "the first part of a sequence is elsewhere")
                at = c.matching_slice.stop
        h.check(at == s.stop, msg + "the last part of a sequence is elsewhere")
        h.check(" ".join(parts) == m, msg + "a sequence is not the sum of its parts")
    elif isinstance(e, jsgf.AlternativeSet):
        got = [c for c in e.children if not falsy(c.current_match)]
        h.check(len(got) == 1, msg + "not exactly one alternative has a match")
        for c in e.children:
            check_data(h, c, speech, msg)
        h.check(got[0].current_match == m and slice_eq(got[0], e),
                msg + "an alternative has another match than its set")
    elif isinstance(e, jsgf.OptionalGrouping):
        h.check(not falsy(e.child.current_match) and e.child.current_match == m and
                slice_eq(e.child, e), msg + "an optional has another match than its child")
        check_data(h, e.child, speech, msg)
    elif isinstance(e, jsgf.Repeat):
        check_data(h, e.child, speech, msg)
        c = e.child
        ms, ss = e.get_expansion_matches(c), e.get_expansion_slices(c)
        n = e.repetitions_matched
        h.check(len(ms) == n and len(ss) == n and n > 0, msg + "wrong number of repetitions")
        for x in ms:
            h.check(not falsy(x), msg + "an empty repetition")
        h.check(" ".join(ms) == m, msg + "a repeat is not the sum of its repetitions")
        at = s.start
        for x, y in zip(ms, ss):
            h.check(y.start == at, msg + "the repetitions are not adjacent")
            h.check(same(h, speech[y.start:y.stop], x), msg + "a repetition's slice is not that of its match")
            at = y.stop + 1
        h.check(at == s.stop + 1, msg + "the last repetition is elsewhere")
        h.check(not falsy(c.current_match) and c.current_match == ms[-1] and
                c.matching_slice == ss[-1],
                msg + "the child of a repeat does not have its last match")


def slice_eq(a, b):
    return a.matching_slice == b.matching_slice


def check_unmatched(h, e, msg):
    for x in nodes(e):
        no_match(h, x, msg + "in an unmatched part")
        if isinstance(x, jsgf.Repeat):
            h.check(x.repetitions_matched == 0, msg + "repetitions of an unmatched repeat")


def state(rule):
    """Everything that matching is documented to set, for all expansions of a rule."""
    out = []
    for x in nodes(rule.expansion):
        out.append(x.current_match)
        out.append(x.matching_slice)
        out.append(x.had_match)
        if isinstance(x, jsgf.Repeat):
            out.append(x.repetitions_matched)
            for y in nodes(x.child):
                out.append(x.get_expansion_matches(y))
                out.append(x.get_expansion_slices(y))
    return out


def states_equal(a, b):
    return len(a) == len(b) and all(x == y for x, y in zip(a, b))


def postorder(e):
    """All nodes in the order in which they end in the compiled text, referenced rules' included."""
    kids = [e.referenced_rule.expansion] if isinstance(e, jsgf.NamedRuleRef) else e.children
    for c in kids:
        for x in postorder(c):
            yield x
    yield e


def repetition_texts(e, speech):
    return [speech[s.start:s.stop] for s in e.get_expansion_slices(e.child)]


def matched_nodes(e, speech):
    """
    For each node of a matched tree, in post-order: whether it was part of the match,
    in any repetition of any repeat.  Repetitions are matched again with new trees.
    """
    if isinstance(e, jsgf.Repeat):
        total = None
        for text in repetition_texts(e, speech):
            c = clone(e.child)
            c.matches(text)
            one = matched_nodes(c, text)
            total = one if total is None else [a or b for a, b in zip(total, one)]
        if total is None:
            total = [False for _ in postorder(e.child)]
        return total + [not falsy(e.current_match)]
    kids = [e.referenced_rule.expansion] if isinstance(e, jsgf.NamedRuleRef) else e.children
    out = []
    for c in kids:
        out.extend(matched_nodes(c, speech))
    out.append(not falsy(e.current_match))
    return out
