"""Tiny sequence datasets for the episodic checks (C07, C08, C17)."""
import os

import numpy as np

from . import common
from . import fsmodel as fm


class Sequences:
    """dirs: {relative directory: number of frames}; frame k of sequence q has the tag 100*(q+1)+k."""

    def __init__(self, dirs, root=None, names=None, junk=True, shallow=False):
        self.root = root or common.tmpdir()
        self.dirs = dict(dirs)
        self.frames = {}  # directory path -> [file paths in order]
        self.tag = {}
        for q, (d, n) in enumerate(self.dirs.items()):
            p = os.path.normpath(os.path.join(self.root, d))
            os.makedirs(p, exist_ok=True)
            fs = sorted((names or (lambda k: f"{k:04d}.mat"))(k) for k in range(n))
            for k, f in enumerate(fs):
                fp = os.path.join(p, f)
                tag = 100 * (q + 1) + k
                fm.write("mat", fp, tag, 1, images=True)
                self.tag[tag] = (p, k)
            self.frames[p] = [os.path.join(p, f) for f in fs]
            if junk:
                open(os.path.join(p, "notes.txt"), "w").write("x")
                np.save(os.path.join(p, "0000.npy"), np.zeros((2, 3, 2), np.float32))
        if shallow:  # a frame in a directory that is not a leaf
            fm.write("mat", os.path.join(self.root, "top.mat"), 9900, 1)

    def starts(self, L):
        return {(p, s) for p, fs in self.frames.items() for s in range(len(fs) - L + 1)}

    def base(self, how="root", **kw):
        from synthpix import scheduler as S

        fl = {"root": [self.root],
              "dirs": list(self.frames),
              "rdirs": list(self.frames)[::-1],
              "files": [f for fs in self.frames.values() for f in fs],
              "mixed": [f for fs in zip(*[v[::-1] for v in self.frames.values()]) for f in fs]
              + [v[0] for v in self.frames.values()]}[how]
        return S.MATFlowFieldScheduler(fl, output_shape=(fm.H, fm.W), **kw)

    def rows(self, batch):
        """[(directory, frame)] of every row by content; None for unknown content."""
        out = []
        for r in np.asarray(batch.flow_fields):
            tag = int(np.floor(r.flat[0] + 1e-6))
            ok = tag in self.tag and np.array_equal(r, fm.pattern(tag))
            out.append(self.tag[tag] if ok else None)
        return out
