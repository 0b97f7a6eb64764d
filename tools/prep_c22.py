"""Builds the viewer tool from the current tree, instrumented."""
import os

import build as B


def prepare(prop):
    b = B.Builder()
    jobs = [(s, ()) for s in B.lib_sources(["Feature"])]
    jobs.append((os.path.join(B.REPO, "tools/fm-viewer/FeatureModelViewer.cpp"), ()))
    return {"VERIF_VIEWER": b.link("fm-viewer", b.compile_all(jobs))}
