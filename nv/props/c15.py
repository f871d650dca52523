from ..harness import Job
from ._bfs import h_bfs


def JOBS(tier):
    F = ["bfs.bfs_conncomp1"]
    js = [Job("any-graph-3", h_bfs, dict(n=3, loops=True), bounds="every graph on 3 nodes (with a loop and a repeated edge), every root and mask", funcs=F),
          Job("any-graph-4", h_bfs, dict(n=4), bounds="every graph on 4 nodes, every root and mask", funcs=F)]
    big = {"ring-7": [(i, (i + 1) % 7) for i in range(7)],
           "grid-2x4": [(0, 1), (1, 2), (2, 3), (4, 5), (5, 6), (6, 7), (0, 4), (1, 5), (2, 6), (3, 7)],
           "tree-8": [(0, 1), (0, 2), (0, 3), (1, 4), (1, 5), (2, 6), (6, 7)],
           "star-8": [(0, i) for i in range(1, 8)],
           "hubs-8": [(0, i) for i in range(1, 7)] + [(7, i) for i in range(1, 7)]}
    for nm, g in big.items():
        n = max(max(e) for e in g) + 1
        js.append(Job(nm, h_bfs, dict(n=n, graph=g), bounds=f"{nm}, every root and mask", funcs=F))
    if tier != "quick":
        js.append(Job("any-graph-5", h_bfs, dict(n=5), bounds="every graph on 5 nodes, every root and mask (within the time budget)", funcs=F, opts=dict(max_paths=200000)))
    return js
