"""C04: work executed in parallel never writes state that another piece of
the work can see."""

from __future__ import annotations

import ast

from ..effects import Interp
from ..entries import concrete_receivers, public_functions
from ..project import External
from ..report import Ctx, Result
from ..selftest import project_from

SELFTEST = {
    "m.py": '''
import dask.array as da
import numba as nb
import numpy as np
from numba import njit, prange

def kernel_bad(block, acc, opts=None):
    acc[0] += block.sum()
    return block

def kernel_opts(block, opts):
    opts["k"] = 1
    return block

def kernel_good(block, opts):
    opts = dict(opts)
    opts["k"] = 1
    out = np.zeros_like(block)
    for i in np.ndindex(out.shape[:-2]):
        out[i] = block[i]
    return out

def bad(x: da.Array):
    acc = np.zeros(1)
    return x.map_blocks(kernel_bad, acc=acc, dtype=float)

def bad2(x: da.Array, opts: dict):
    return da.map_blocks(kernel_opts, x, opts=opts, dtype=float)

def good(x: da.Array, opts: dict):
    return da.map_blocks(kernel_good, x, opts=opts, dtype=float)

@nb.njit(parallel=True)
def scatter(idx, val):
    out = np.zeros(10)
    for i in nb.prange(len(idx)):
        for j in range(10):
            out[j] = out[j] + val[i]
    return out

@njit(parallel=True)
def gather(idx, val):
    out = np.zeros(10)
    total = 0.0
    for i in prange(10):
        tmp = np.zeros(3)
        tmp[0] = val[i]
        row = i
        total += val[i]
        for j in range(10):
            out[row] += val[j] * tmp[0]
    return out, total

@njit
def serial(idx, val):
    out = np.zeros(10)
    for i in prange(3):
        out[0] += val[i]
    return out
'''
}


def is_prange(call, proj, mod) -> bool:
    if not isinstance(call, ast.Call):
        return False
    f = call.func
    if isinstance(f, ast.Attribute):
        return f.attr == "prange"
    if isinstance(f, ast.Name):
        ent = proj.resolve_in_module(mod, f.id)
        return f.id == "prange" or (isinstance(ent, External) and ent.dotted.endswith(".prange"))
    return False


def parallel(f, proj) -> bool:
    for d in f.node.decorator_list:
        if isinstance(d, ast.Call):
            for k in d.keywords:
                if k.arg == "parallel" and not (isinstance(k.value, ast.Constant) and k.value.value is False):
                    return True
    return False


def names(n) -> set[str]:
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}


def base_name(t):
    while isinstance(t, (ast.Subscript, ast.Attribute)):
        t = t.value
    return t.id if isinstance(t, ast.Name) else None


def prange_loops(f, proj):
    """Outermost prange loops (inner ones are serialised by numba)."""
    out = []

    def walk(n, inside):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.For) and is_prange(c.iter, proj, f.module) and not inside:
                out.append(c)
                walk(c, True)
            else:
                walk(c, inside)

    walk(f.node, False)
    return out


def check_loop(f, loop, res: Result, add):
    dep = names(loop.target)
    local = set(dep)  # names bound in the loop: private to the iteration
    for n in ast.walk(loop):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        local.add(x.id)
        elif isinstance(n, ast.For):
            local |= names(n.target)
    # values that depend on the loop variable
    changed = True
    while changed:
        changed = False
        for n in ast.walk(loop):
            if isinstance(n, ast.Assign) and names(n.value) & dep:
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in dep:
                            dep.add(x.id)
                            changed = True
    # arrays that are views of outer arrays stay shared
    shared_alias = {}
    for n in ast.walk(loop):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            if isinstance(n.value, ast.Subscript) and not (names(n.value.slice) & dep):
                b = base_name(n.value)
                if b and b not in local:
                    shared_alias[n.targets[0].id] = b
    for n in ast.walk(loop):
        tgts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AugAssign) else []
        for t in tgts:
            for x in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                if not isinstance(x, ast.Subscript):
                    continue
                b = base_name(x)
                if b is None or (b in local and b not in shared_alias):
                    continue
                res.count("prange_writes")
                sub = set()
                y = x
                while isinstance(y, (ast.Subscript, ast.Attribute)):
                    if isinstance(y, ast.Subscript):
                        sub |= names(y.slice)
                    y = y.value
                if not sub & dep:
                    add("parallel-loop-write", f"{f.short}: {ast.unparse(x)}",
                        f"`{ast.unparse(n)}` in a parallel loop over "
                        f"`{ast.unparse(loop.target)}` writes an element every iteration may write",
                        f"{f.module.relpath}:{n.lineno}", [f.short])


def scan(proj, ctx: Ctx, res: Result):
    mapped = set()
    for f, _ in public_functions(proj):
        receivers = concrete_receivers(proj, f) or [None]
        if not ctx.thorough and len(receivers) > 3:
            receivers = receivers[:1] + receivers[-2:]
        for dyn in receivers:
            it = Interp(proj)
            it.run(f, {}, dyn)
            res.count("entry_contexts")
            for m in it.mapped:
                if m[0].func is not None:
                    mapped.add(m[0].func.short)
                res.count("hand_overs")
            for e in it.mapped_effects.values():
                what = {"P": "an object of the caller", "G": "a module-level object",
                        "CA": "a class-level object", "A": "an object shared by all pieces"}.get(
                            e.tok.root[0], "shared state")
                res.add("shared-write-in-parallel", f"{e.func.short}: {e.detail}",
                        f"runs concurrently and changes {what} with `{e.detail}`",
                        e.where, [f.short, *e.chain])
    res.coverage["functions_run_in_parallel"] = len(mapped)
    res.samples = sorted(mapped)
    for f in proj.all_funcs():
        loops = prange_loops(f, proj) if isinstance(f.node, (ast.FunctionDef,)) else []
        if not loops:
            continue
        res.count("prange_loops", len(loops))
        if not parallel(f, proj):
            continue
        res.count("parallel_functions")
        for lp in loops:
            check_loop(f, lp, res, res.add)


def run(ctx: Ctx) -> Result:
    res = Result(
        "C04",
        explanation=(
            "every function handed to dask or HyperSpy for block-wise or pattern-wise "
            "execution is analysed with everything it captures or is passed: it may write "
            "only objects it allocated itself; in numba functions compiled with "
            "parallel=True, every array element written in a prange loop is selected by "
            "the loop variable"
        ),
        assumptions=[
            "dask and HyperSpy pass each block or pattern to one call only and may run "
            "calls concurrently; NLopt/SciPy optimizer calls write only their own arguments",
        ],
    )
    scan(ctx.proj, ctx, res)
    res.require(res.coverage["functions_run_in_parallel"] >= 15, "functions run in parallel not found")
    res.require(res.coverage.get("prange_loops", 0) >= 3, "prange loops not found")
    selftest(res)
    return res


def selftest(res: Result):
    proj = project_from(dict(SELFTEST))
    r = Result("C04")
    scan(proj, Ctx(proj, "thorough"), r)
    txt = " ".join(f.rule + ":" + f.construct for f in r.findings)
    for w in ("kernel_bad", "kernel_opts", "scatter"):
        res.require(w in txt, f"self-test: {w} not reported ({txt})")
    for w in ("kernel_good", "gather", "serial"):
        res.require(w not in txt, f"self-test: false report on {w}")
    res.count("selftest_cases", 6)
