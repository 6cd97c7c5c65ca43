"""Scratch HDF5 files and monitors of file handles."""
import hashlib
import os

import h5py
import numpy as np


def digest(fn):
    st = os.stat(fn)
    with open(fn, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest(), st.st_size, st.st_mtime_ns, st.st_ino, st.st_mode


def fds(root):
    out = []
    for d in os.listdir("/proc/self/fd"):
        try:
            p = os.readlink("/proc/self/fd/" + d)
        except OSError:
            continue
        if p.startswith(os.path.realpath(root)) or p.startswith(root):
            out.append(p)
    return sorted(out)


def open_objects():
    f = h5py.h5f
    return int(f.get_obj_count(f.OBJ_ALL, f.OBJ_FILE | f.OBJ_DATASET | f.OBJ_GROUP))


def tree(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            out[p] = digest(p)
    return out


def ssp_content(rng, nz=None, na=None, nw=None, nl=None, f32=False):
    nz, na, nw = nz or int(rng.integers(2, 6)), na or int(rng.integers(2, 7)), nw or int(rng.integers(3, 40))
    nl = int(rng.integers(1, 9)) if nl is None else nl
    d = dict(ssp_lgmet=np.sort(rng.uniform(-4, -1, nz)), ssp_lg_age_gyr=np.sort(rng.uniform(-3.5, 1.2, na)),
             ssp_wave=np.sort(rng.uniform(100, 1e5, nw)), ssp_flux=10 ** rng.uniform(-30, 2, (nz, na, nw)))
    if f32:
        d["ssp_flux"] = np.abs(rng.normal(1, 0.3, (nz, na, nw))).astype(np.float32)
        d["ssp_wave"] = d["ssp_wave"].astype(np.float32)
    if nl:
        pool = ["Ly_alpha_1215", "H_beta_4861", "H_alpha_6563", "OIII_5007", "NII_6584", "SII_6731", "HeII_1640",
                "OII_3727", "line", "A", "Zz_9p5", "x1", "He_I_10829", "ArIII_7753", "a_line_with_a_rather_long_name_1234567", "Q" * 70,
                "H\u03b1_6563", "L\u00fd_\u03b1", "\u03b2"]
        names = list(rng.permutation(pool)[:nl])
        d["ssp_emline_name"] = np.array([n.encode("utf-8") for n in names], dtype="S")
        d["ssp_emline_wave"] = rng.uniform(900, 30000, nl)
        d["ssp_emline_luminosity"] = 10 ** rng.uniform(-70, 3, (nz, na, nl))
    return d


def write(fn, d, **kw):
    with h5py.File(fn, "w") as f:
        for k, v in d.items():
            f.create_dataset(k, data=v, **kw)
