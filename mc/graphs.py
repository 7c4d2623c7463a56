"""Enumerations of directed graphs and plain reference algorithms on them."""
import itertools


def pairs(n):
    return [(i, j) for i in range(n) for j in range(n) if i != j]


def digraphs(n):
    """Every labelled digraph without self edges, as edge lists."""
    ps = pairs(n)
    for mask in range(1 << len(ps)):
        yield [p for k, p in enumerate(ps) if mask >> k & 1]


def has_cycle(n, edges):
    out = {i: set() for i in range(n)}
    deg = {i: 0 for i in range(n)}
    for a, b in edges:
        if b not in out[a]:
            out[a].add(b)
            deg[b] += 1
    todo = [i for i in range(n) if deg[i] == 0]
    done = 0
    while todo:
        i = todo.pop()
        done += 1
        for j in out[i]:
            deg[j] -= 1
            if deg[j] == 0:
                todo.append(j)
    return done != n


def on_cycles(n, edges):
    """The nodes that lie on some cycle."""
    reach = {i: {j for a, j in edges if a == i} for i in range(n)}
    for k in range(n):
        for i in range(n):
            if k in reach[i]:
                reach[i] = reach[i] | reach[k]
    return {i for i in range(n) if i in reach[i]}


def acyclic(n, fixed=()):
    """Every labelled DAG whose first rows (out-neighbour masks) are fixed."""
    def go(rows):
        edges = [(i, j) for i, r in enumerate(rows) for j in range(n) if r >> j & 1]
        if has_cycle(n, edges):
            return
        if len(rows) == n:
            yield edges
            return
        for r in range(1 << n):
            if not r >> len(rows) & 1:
                yield from go(rows + [r])
    yield from go(list(fixed))


def prefixes(n, depth):
    """Row prefixes that together cover acyclic(n) exactly once."""
    for rows in itertools.product(range(1 << n), repeat=depth):
        if not any(r >> i & 1 for i, r in enumerate(rows)):
            yield list(rows)


def simple_paths(edges, a, b, most):
    """All simple paths from a to b with at most so many nodes."""
    if most < 1:
        return []
    out, todo = [], [[a]]
    while todo:
        p = todo.pop()
        if p[-1] == b:
            out.append(p)
            continue
        if len(p) < most:
            todo += [p + [j] for i, j in edges if i == p[-1] and j not in p]
    return out
