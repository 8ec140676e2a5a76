"""P01: no rule reaches itself, and no loop inside a rule comes round, without a token having been consumed."""


def sccs(nodes, succ):
    """Tarjan, iterative; yields components that contain a cycle."""
    index = {}; low = {}; on = set(); st = []; n = 0
    for root in nodes:
        if root in index: continue
        work = [(root, iter(succ.get(root, ())))]
        index[root] = low[root] = n; n += 1; st.append(root); on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in index:
                    index[w] = low[w] = n; n += 1; st.append(w); on.add(w)
                    work.append((w, iter(succ.get(w, ()))))
                    break
                elif w in on: low[v] = min(low[v], index[w])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    c = []
                    while True:
                        x = st.pop(); on.discard(x); c.append(x)
                        if x == v: break
                    if len(c) > 1 or v in succ.get(v, ()): yield c


def analyse(pm, results, kinds_text):
    """-> (findings [(rule, category, detail, span, trace)], stats)"""
    out = []
    succ = {}; where = {}
    nodes = set(); nedges = 0
    for (nt, s), r in results.items():
        base = nt.split("@")[0]
        for src, mask, callee, span in r.calls:
            m = mask; i = 0
            while m:
                if m & 1:
                    b = 1 << i
                    for a in ([src] if src else [b]):
                        x, y = (base, a), (callee.split("@")[0], b)
                        nodes.add(x); nodes.add(y)
                        if y not in succ.setdefault(x, set()):
                            succ[x].add(y); nedges += 1
                        where.setdefault((x, y), span)
                m >>= 1; i += 1
    seen = {}
    for c in sccs(sorted(nodes), succ):
        cs = set(c)
        names = sorted({x[0] for x in c})
        bits = 0
        for x in c: bits |= x[1]
        key = tuple(names)
        e = [(x, y) for x in c for y in succ.get(x, ()) if y in cs]
        tr = ["%s calls %s without consuming a token, at %s, with %s as current token" % (x[0], y[0], where[(x, y)], kinds_text(x[1])) for x, y in e]
        if key in seen: seen[key][1] |= bits; seen[key][3].extend(tr)
        else: seen[key] = [names, bits, where[e[0]], tr]
    for names, bits, span, tr in seen.values():
        out.append((names[0], "unbounded recursion", "%s on %s" % (" -> ".join(names + names[:1]), kinds_text(bits)), span, sorted(set(tr))[:40]))
    loops = 0
    for (nt, s), r in results.items():
        su = {}; sp = {}; all_su = {}
        for a, b, prog, span in r.edges:
            all_su.setdefault(a, set()).add(b)
            if not prog: su.setdefault(a, set()).add(b); sp.setdefault((a, b), span)
        loops += sum(1 for _ in sccs(sorted(all_su), all_su))
        spans = set()
        for c in sccs(sorted(su), su):
            cs = set(c)
            spans |= {sp[(x, y)] for x in c for y in su.get(x, ()) if y in cs}
        if spans:
            out.append((nt.split("@")[0], "endless loop", "a loop can come round without consuming a token", sorted(spans)[0], ["loop through " + x for x in sorted(spans)]))
    return out, {"graph_nodes": len(nodes), "graph_edges": nedges, "rules_with_loops_checked": loops}
