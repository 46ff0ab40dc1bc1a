"""Syntax trees of JavaScript modules by an independent parser (acorn under node)."""
import json
import os
import subprocess

_P = {}


def asts(srcs, kind="module"):
    """Normalised syntax tree text (comments, quote style and positions left out) or None if not valid."""
    pid = os.getpid()
    if pid not in _P:
        _P.clear()
        _P[pid] = subprocess.Popen(["node", os.path.join(os.path.dirname(os.path.abspath(__file__)), "js_oracle.js")],
                                   stdin=subprocess.PIPE, stdout=subprocess.PIPE, close_fds=True)
    p = _P[pid]
    out = []
    srcs = list(srcs)
    for i in range(0, len(srcs), 2000):
        # ensure_ascii keeps lone surrogates and odd line terminators intact
        p.stdin.write(json.dumps({"srcs": srcs[i:i + 2000], "type": kind}).encode() + b"\n")
        p.stdin.flush()
        line = p.stdout.readline()
        if not line:
            raise RuntimeError("the reference parser died")
        out.extend(json.loads(line))
    return out


def exports(reqs):
    """reqs: [(module text, {name: json text})] -> [None or why the exports differ] (evaluated by node)."""
    pid = os.getpid()
    if ("v", pid) not in _P:
        _P.pop(next((k for k in _P if isinstance(k, tuple)), None), None)
        _P["v", pid] = subprocess.Popen(["node", os.path.join(os.path.dirname(os.path.abspath(__file__)), "js_values.js")],
                                        stdin=subprocess.PIPE, stdout=subprocess.PIPE, close_fds=True)
    p = _P["v", pid]
    p.stdin.write(json.dumps([{"src": s, "want": w} for s, w in reqs]).encode() + b"\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        raise RuntimeError("the reference evaluator died")
    return json.loads(line)


def values(srcs):
    """What the modules export, as json values: [{name: value} or a string saying what is wrong]"""
    return [r["value"] if isinstance(r, dict) else r for r in exports([(s, None) for s in srcs])]
