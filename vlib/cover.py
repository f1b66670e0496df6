"""Choosing histories: those that together show every short pattern of calls."""
import itertools


def subseqs(label, t, keep=None):
    """Patterns of a history: all subsequences of labels (gaps allowed) of length up to t.

    label(o): label of a call, None to ignore it; keep(pattern): False for patterns of no interest."""
    def f(h):
        ls = [x for x in (label(o) for o in h) if x is not None]
        return {p for n in range(1, t + 1) for p in itertools.combinations(ls, n) if keep is None or keep(p)}
    return f


def chains(label, objs, t):
    """Patterns of a history: subsequences of up to t calls in which every call shares an object with an earlier one; objects renamed in order of appearance.

    objs(o): dict role -> object of a call."""
    def f(h):
        calls = [(label(o), objs(o)) for o in h]
        out = set()
        def grow(pat, i, n):
            if n:
                ren, can = {}, []
                for l, ob in pat:
                    can.append((l,) + tuple((r, ren.setdefault((r, x), len(ren))) for r, x in sorted(ob.items())))
                out.add(tuple(can))
            if n == t:
                return
            have = {(r, x) for _, ob in pat for r, x in ob.items()}
            for j in range(i, len(calls)):
                if not n or have & set(calls[j][1].items()):
                    grow(pat + [calls[j]], j + 1, n + 1)
        grow([], 0, 0)
        return out
    return f


def select(hs, pats, limit):
    """Greedy selection of `limit` histories covering as many patterns as possible: (chosen, covered, seen)."""
    ps = [pats(h) for h in hs]
    seen = set().union(*ps) if ps else set()
    left, got, out = set(range(len(hs))), set(), []
    while left and len(out) < limit:
        i = max(sorted(left), key=lambda j: len(ps[j] - got))
        if not ps[i] - got:
            break
        left.discard(i)
        got |= ps[i]
        out.append(hs[i])
    out += [hs[i] for i in sorted(left)[:max(0, limit - len(out))]]
    return out, len(got), len(seen)


def choose(c, hs, pats, limit, name="call_patterns"):
    hs = list({repr(h): h for h in hs}.values())
    out, got, seen = select(hs, pats, limit)
    c.cov.setdefault(name, []).append(dict(histories=len(out), covered=got, of=seen))
    return out


def _atoms(h, pre=""):
    for k, v in h.items():
        if isinstance(v, (str, int, bool)):
            yield (pre + k, v.strip() if isinstance(v, str) else v)
        elif isinstance(v, list) and len(v) <= 4 and all(isinstance(x, (str, int)) for x in v):
            yield (pre + k, tuple(v))


def order(hs, rng, head=400, c=None):
    """The scenarios, shuffled, with a prefix that shows every pair of choices early (and then again, until `head`)."""
    hs = list(hs)
    rng.shuffle(hs)
    at = [list(_atoms(h)) for h in hs]
    vals = {}
    for a in at:
        for f, v in a:
            vals.setdefault(f, set()).add(v)
    pairs = [set(itertools.combinations(sorted((x for x in a if 1 < len(vals[x[0]]) <= 24), key=repr), 2)) for a in at]
    every = set().union(*pairs) if pairs else set()
    left, out, got = dict.fromkeys(range(len(hs))), [], set()
    gain = {i: len(p) for i, p in enumerate(pairs)}     # upper bounds: gains only shrink
    first = None
    while left and len(out) < head:
        best, bg = None, 0
        for i in sorted(left, key=gain.get, reverse=True)[:]:
            if gain[i] <= bg:
                break
            gain[i] = len(pairs[i] - got)
            if gain[i] > bg:
                best, bg = i, gain[i]
        if not bg:
            if not got:
                break
            first = first or len(out)
            got = set()
            gain = {i: len(pairs[i]) for i in left}
            continue
        got |= pairs[best]
        out.append(best)
        del left[best]
    if c is not None:
        c.cov.setdefault("choice_pairs", []).append(dict(pairs=len(every), shown_by_first=first or len(out), pool=len(hs)))
    return [hs[i] for i in out] + [hs[i] for i in left]
