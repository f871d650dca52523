from ..harness import Job
from ._grid import h_binary, h_buildgraph, h_buildgraph_bad, h_csr, h_div, h_graph, h_symstruct


def JOBS(tier):
    q = tier == "quick"
    G = "grid.graph."
    js = [Job("csr", h_csr, dict(n=3, ne=3 if q else 4), bounds="any 3 (4) edges on 3 nodes, loops and repeats included", funcs=[G + "edges_to_csr"]),
          Job("csr-n4", h_csr, dict(n=4, ne=2 if q else 3), bounds="any 2 (3) edges on 4 nodes", funcs=[G + "edges_to_csr"]),
          Job("graph-weights", h_graph, dict(n=3, ne=2 if q else 3), bounds="any distinct edges on 3 nodes, any weights", funcs=[G + "edges_to_graph"]),
          Job("graph-plain", h_graph, dict(n=4, ne=2, weighted=False), bounds="any 2 edges on 4 nodes", funcs=[G + "edges_to_graph"]),
          Job("binary", h_binary, dict(n=3, ne=2 if q else 3), bounds="any edges on 3 nodes, any node values incl NaN", funcs=[G + "graph_binary_fcn"]),
          Job("binary-neg", h_binary, dict(n=3, ne=2, neg=True), bounds="any 2 edges on 3 nodes, negative nodes included, any node values incl NaN", funcs=[G + "graph_binary_fcn"]),
          Job("divergence", h_div, dict(n=3, ne=2 if q else 3), bounds="any edges on 3 nodes, any fluxes and widths", funcs=["grid.tools.divergence", "lib.aggsum"]),
          Job("divergence-default", h_div, dict(n=3, ne=2 if q else 3, data="default"), bounds="any edges on 3 nodes, any fluxes", funcs=["grid.tools.divergence", "lib.aggsum"])]
    BB = "7 nodes, 8 edges, one of them any"
    js += [Job("csr-big", h_csr, dict(n=7, ne=8), bounds=BB, funcs=[G + "edges_to_csr"]),
           Job("graph-big", h_graph, dict(n=7, ne=8), bounds=BB + ", any weights", funcs=[G + "edges_to_graph"]),
           Job("binary-big", h_binary, dict(n=7, ne=8), bounds=BB + ", any node values incl NaN", funcs=[G + "graph_binary_fcn"]),
           Job("divergence-big", h_div, dict(n=7, ne=8), bounds=BB + ", any fluxes and widths", funcs=["grid.tools.divergence", "lib.aggsum"])]
    for f in ("csr", "dense", "coo"):
        js.append(Job(f"build-matrix-{f}", h_buildgraph, dict(form="matrix", fmt=f), bounds="any graph on 3 nodes, both-sided or one-sided", funcs=[G + "build_grid"]))
        js.append(Job(f"build-dict-{f}", h_buildgraph, dict(form="dict", fmt=f), bounds="any graph on 3 nodes, any distances", funcs=[G + "build_grid"]))
        js.append(Job(f"refuse-{f}", h_buildgraph_bad, dict(fmt=f), bounds="three inconsistent inputs, any distances", funcs=[G + "build_grid"]))
        js.append(Job(f"symstruct-{f}", h_symstruct, dict(fmt=f, n=2 if q else 3), bounds="any 2x2 (3x3) or 2x3 (3x4) sparsity, any values", funcs=[G + "sym_structure"]))
    return js
