#!/usr/bin/env python3
"""Writes SEEDED.md, the list of planted bugs, from seeded/*/meta.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = """C01-many: lists beyond 256 pairs were added ("large")
C03-gt-label: results with freely chosen counterparts ("counterparts")
C03-eq-frame: twins differing in each single attribute ("twins")
C05-weight: a weighted-precision oracle instead of bounds
C05-scale: pairs within 1e-5 of the threshold at every rank ("margins")
C05-plane-h: judged margins relative to the threshold, not absolute
C05-conf1: menu of confidences up to exactly 1
C07-samestamp: frames with equal times ("frame times")
C07-cap: histories of up to 300 frames ("long histories")
C07-nogt: a frame of estimates only, with the highest confidence, in the menu
C12-tiny: boxes of 1 mm to 1 km ("scales")
C13-tiny: the same for 3D IoU
C14-3d: boxes with roll and pitch ("tilted boxes")
C17-egopose: dangling references in records between key frames
C18-catlabel: all documented names with affixes ("category names")
C19-ms: several LiDAR records with poses of their own ("several-records")
C19-boxz: orientations tilted by 1e-6
C21-blank: blank texts among the values
C21-vis0: every name of every enumeration, characters in every text field
C26-take: files up to 16 MiB
C28-many: frames of up to 520 objects ("large")
C29-mean: the means are recomputed from the rows ("means")
C30-big: pictures up to 65500 pixels wide ("large")
C31-touch: loading damaged datasets ("damaged")
C32-dataset: evaluations that load datasets of the same name ("datasets")
C32-label: evaluations that differ in labels only, fresh processes ("processes", "sequences")"""
missed = dict(l.split(": ", 1) for l in MISSED.splitlines())
out = ["# Planted bugs", "",
       "Each is a patch to /repo that compiles and passes the 53 tests, with a demonstration. Every one is reported by the quick check of its property",
       "(exit 1, VIOLATION line); the last column tells which were missed when first tried and what was added.", "",
       "| bug | breaks | manifests with | missed at first; added |", "|---|---|---|---|"]
d = f"{root}/seeded"
for i in sorted(os.listdir(d)):
    m = json.load(open(f"{d}/{i}/meta.json"))
    out.append(f"| {i} | {m['what_it_breaks']} | {m['needs']} | {missed.pop(i, '')} |")
out += ["", "Tried without keeping a demonstration, missed at first, now caught:", ""]
out += [f"* {k}: {v}" for k, v in missed.items()]
open(f"{root}/SEEDED.md", "w").write("\n".join(out) + "\n")
