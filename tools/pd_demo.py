"""Runs the built program on a deck and reads its output (copied beside each demonstration as pd.py)."""
import os, shutil, subprocess, sys, tempfile
import numpy as np
from scipy.io import netcdf_file

EXE = "/repo/_build/src/Peridigm"
ENV = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_plm="isolated",
           OMPI_MCA_pml="ob1", OMPI_MCA_btl="self,vader", OMPI_MCA_btl_vader_single_copy_mechanism="none",
           OMPI_MCA_rmaps_base_oversubscribe="1", OMP_NUM_THREADS="1", HOME="/root")


def q(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, float):
        s = repr(v)
        return s.replace("e", ".0e") if "e" in s and "." not in s else s
    return '"%s"' % v


def yaml(d, ind=0):
    out = []
    for k, v in d.items():
        if isinstance(v, dict):
            out.append(" " * ind + "%s:" % k)
            out.append(yaml(v, ind + 2))
        else:
            out.append(" " * ind + "%s: %s" % (k, q(v)))
    return "\n".join(out)


def read(path):
    f = netcdf_file(path, "r", mmap=False)
    V = f.variables

    def names(k):
        if k not in V:
            return []
        a = V[k][:]
        return [b"".join(r).split(b"\0")[0].decode().strip() for r in a.reshape(-1, a.shape[-1])]
    o = dict(time=[float(t) for t in V["time_whole"][:]], nodal={}, elem={}, glob={}, ids=[], blocks=names("eb_names"))
    if "node_num_map" in V:
        o["ids"] = [int(i) for i in V["node_num_map"][:]]
    for i, n in enumerate(names("name_nod_var")):
        o["nodal"][n] = {p: [float(x) for x in V["vals_nod_var%d" % (i + 1)][:, j]] for j, p in enumerate(o["ids"])}
    eids = [int(i) for i in V["elem_num_map"][:]] if "elem_num_map" in V else []
    for i, n in enumerate(names("name_elem_var")):
        k, d = 0, {}
        for b in range(len(o["blocks"])):
            c = V["connect%d" % (b + 1)].shape[0] if "connect%d" % (b + 1) in V else 0
            v = "vals_elem_var%deb%d" % (i + 1, b + 1)
            for j in range(c):
                if v in V:
                    d[eids[k + j]] = [float(x) for x in V[v][:, j]]
            k += c
        o["elem"][n] = d
    g = names("name_glo_var")
    if g:
        a = V["vals_glo_var"][:]
        o["glob"] = {n: [float(x) for x in a[:, i]] for i, n in enumerate(g)}
    f.close()
    return o


def collect(d, name, np_, ext="e"):
    if np_ == 1:
        p = os.path.join(d, "%s.%s" % (name, ext))
        return read(p) if os.path.exists(p) else None
    out = None
    for i in range(np_):
        p = os.path.join(d, "%s.%s.%d.%0*d" % (name, ext, np_, len(str(np_)), i))
        if not os.path.exists(p):
            continue
        o = read(p)
        if out is None:
            out = o
        else:
            out["ids"] += o["ids"]
            for k in ("nodal", "elem"):
                for n, v in o[k].items():
                    out[k].setdefault(n, {}).update(v)
    return out


def run(deck, files=None, np_=1, outputs=("out",), timeout=120, d=None, ext="e", log=False):
    """Returns (exit status, {output name: contents}); everything happens in a scratch directory."""
    own = d is None
    d = d or tempfile.mkdtemp(prefix="demo")
    try:
        for n, t in (files or {}).items():
            open(os.path.join(d, n), "w").write(t)
        open(os.path.join(d, "deck.yaml"), "w").write(yaml({"Peridigm": deck}) + "\n")
        cmd = [EXE, "deck.yaml"]
        if np_ > 1:
            cmd = ["mpirun", "-np", str(np_)] + cmd
        p = subprocess.run(cmd, cwd=d, env=dict(ENV, TMPDIR=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           stdin=subprocess.DEVNULL, timeout=timeout)
        r = (p.returncode, {o: collect(d, o, np_, ext) for o in outputs})
        return r + (p.stdout.decode("utf-8", "replace"),) if log else r
    finally:
        if own:
            shutil.rmtree(d, ignore_errors=True)


def mesh(rows):
    return "".join("%r %r %r %d %r\n" % (float(x), float(y), float(z), b, float(v)) for x, y, z, b, v in rows)


def elastic(k=1.0e-20, g=1.0e-20, rho=1.0, **kw):
    return dict({"Material Model": "Elastic", "Density": rho, "Bulk Modulus": k, "Shear Modulus": g}, **kw)


def verlet(dt, final, **kw):
    return {"Final Time": float(final), "Verlet": dict({"Fixed dt": float(dt)}, **kw)}


def output(variables, name="out", freq=1, **kw):
    return dict({"Output Filename": name, "Output Frequency": freq, "Output Variables": {v: True for v in variables}}, **kw)


def expect(got, want, what, tol=1e-9):
    a, b = np.array(got, float), np.array(want, float)
    if a.shape != b.shape or not np.all(np.abs(a - b) <= tol * (1.0 + np.abs(b))):
        print("%s: got %s, expected %s" % (what, got, want))
        sys.exit(1)
