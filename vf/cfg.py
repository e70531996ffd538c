from . import ir


def ipdom_acyclic(f, bn):
    """the block where all paths from bn (ignoring paths that never return) re-join, or None.
    The region between must contain no loop header and no ret/unreachable is required to be absent
    (paths that leave the function are simply separate outcomes)."""
    lps = ir.loops(f)
    headers = set(lps)
    # innermost loop containing bn
    inner = None
    for h, (body, la) in lps.items():
        if bn in body and (inner is None or len(body) < len(lps[inner][0])):
            inner = h
    body = lps[inner][0] if inner else None
    # candidate: first block reachable from all successors, exploring inside the same loop body
    succ = {}

    def ss(b):
        if b not in succ:
            r = ir.succs(f.blocks[b])
            t = f.blocks[b].insts[-1]
            if t.op == "invoke":
                r = [t.a[2]]
            succ[b] = r
        return succ[b]

    # postdominators on the subgraph reachable from bn, cutting back edges / loop headers
    region = set()
    st = [bn]
    exits = set()
    while st:
        b = st.pop()
        if b in region:
            continue
        region.add(b)
        for s in ss(b):
            if s in headers and s != bn:
                if s == inner:
                    exits.add(s)
                    continue
                # entering another loop: allowed only beyond the join point
            if body is not None and s not in body:
                exits.add(s)
                continue
            st.append(s)
    # DAG order not guaranteed (inner loops) -> compute by simple postdom iteration with virtual exit
    nodes = list(region)
    pd = {b: None for b in nodes}
    ALL = set(nodes) | {"$x"}
    for b in nodes:
        pd[b] = set(ALL)
    ch = True
    while ch:
        ch = False
        for b in nodes:
            sx = []
            for s in ss(b):
                if s in region and not (s == bn):
                    sx.append(pd[s])
                elif s in region or s in exits:
                    sx.append({"$x"})
            if not ss(b):
                tm = f.blocks[b].insts[-1].op
                if tm in ("unreachable", "resume"):
                    continue_set = None
                    nd = {b} | (ALL if True else set())
                    if nd != pd[b]:
                        pd[b] = nd
                        ch = True
                    continue
                sx.append({"$x"})
            nd = set.intersection(*sx) | {b} if sx else {b}
            if nd != pd[b]:
                pd[b] = nd
                ch = True
    cand = pd[bn] - {bn, "$x"}
    if not cand:
        return None
    # immediate: the candidate whose own pd set is largest
    j = max(cand, key=lambda c: len(pd[c]))
    # region strictly between must not contain loop headers
    seen = set()
    st = [s for s in ss(bn)]
    while st:
        b = st.pop()
        if b == j or b in seen or b not in region:
            continue
        if b in headers:
            return None
        seen.add(b)
        st.extend(ss(b))
    if j in headers:
        return None
    return j
