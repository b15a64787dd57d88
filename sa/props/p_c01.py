"""C01: arguments are never modified."""
from calls import *

EXPLANATION = ("every public function, constructor and method is abstractly interpreted on references to caller-owned cells; stores "
               "through any alias (slices, views, np.asarray of an array, attributes, list elements) are tracked to the cell they reach. "
               "After the call, on the normal exit and on every exception exit, each cell the caller can reach must hold the content it had.")

STORES = ("array-store", "dict-store", "attr-store", "opaque-store", "opaque-meth")


def store_sites(c, cids):
    return ", ".join(sorted({"%s:%s" % x for q in cids for x in c.I.store_lines.get(q, ())})[:4])


def ob(e):
    c = e.case()
    call = e.build(c, 1)
    P = e.points(c)
    snap = snapshot(c, c.st, call.watch)
    # the object whose method is called may change itself, not what it was given
    if call.recv is not None and isinstance(call.recv, Ref) and call.recv.cid in snap and not any(r is call.recv for _, r in call.watch):
        snap.pop(call.recv.cid)
    o = e.perform(c, call, c.st)
    rule = "caller's arguments unchanged"
    out = []
    # methods of objects of other libraries (figures, files) do not modify their arguments
    opaque = [x for x in c.I.events if x.kind == "opaque-store" or x.kind == "opaque-meth" and "ext:" not in str(x.data[0])]
    exits = []
    if o.value is not None:
        exits.append(("", o.st, ()))
    for r in o.raises[:12]:
        if hasattr(r[2], "heap"):
            exits.append((" when %s is raised" % r[1], r[2], r[0]))
        elif isinstance(r[2], dict):
            s2 = o.st.fork()
            s2.heap = r[2]
            exits.append((" when %s is raised" % r[1], s2, r[0]))
    if not exits:
        return [finding(UNDECIDED, rule, e.site(), "%s: no exit reached: %s" % (e.name, raises_names(o)))], coverage_of(c.I)
    for lab, st, path in exits:
        pts_ = [p for p in P if holds(p, path)]
        ch = changed(c, snap, st, pts_)
        if path and not pts_:
            continue
        for what, r, why in ch:
            cids = [cid for cid, (l, _) in snap.items() if l == what]
            out.append(finding(r, rule, "%s (stores: %s)" % (e.site(), store_sites(c, cids)), "%s: %s%s: %s" % (e.name, what, lab, why)))
        if not ch:
            out.append(finding(PROVED if not opaque else UNDECIDED, rule, e.site(),
                               "%s: %s identical%s%s" % (e.name, ", ".join(sorted({l for l, _ in snap.values()})), lab,
                                                         "; a store to an unknown object at %s" % event_site(c.I, opaque[0]) if opaque else "")))
    return out, coverage_of(c.I)


def holds(p, path):
    try:
        return all(p.cond(q) for q in path)
    except Exception:
        return False


def obligations(tier):
    obs = []
    for e in all_entries(tier):
        obs.append(Ob(e.name, lambda e=e: watched(e)))
    return obs


def watched(e):
    return ob(e)
