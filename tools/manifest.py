#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties and the table of claims below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(f"{root}/properties.jsonl")]
MC = "stateless model checking of the real code: exhaustive enumeration of bounded %s, every execution compared with an independent reference model"
TRUST = " Trusts the explorer and the reference model in mc/src (written independently of the library, validated against seeded bugs); nothing is claimed beyond the bounds listed in the evidence."
CLAIMS = {
 "C01": ("scenes (object lists, attributes, sizes)", "Exhaustive over all estimate/ground-truth lists up to the stated length over a colliding alphabet, all bounded attribute deviations and structured large scenes."),
 "C02": ("scenes and input orders", "Exhaustive over all placements up to the stated size and every order of both lists; stable-matching oracle, so ties are accepted."),
 "C03": ("frame results, label lists, thresholds and modes", "Exhaustive over all result lists up to the stated length; verdicts compared with reference scores, borderline scores (within 1e-9) left out."),
 "C04": ("objects, filters and lists", "Exhaustive over the product of object attributes and filter settings around every boundary, and lists up to the stated length."),
 "C05": ("evaluation histories", "Exhaustive over outcome patterns, confidence orders, ties, frames and labels up to the stated depth; scores read from the printed report (3 decimals)."),
 "C06": ("evaluation histories and one-step changes of them", "Exhaustive over rankings up to the stated length and both monotonicity steps at every rank; scores read from the printed report (3 decimals)."),
 "C07": ("operation sequences on the manager", "Exhaustive over all operation sequences up to the stated depth and all frame orders; a model of the manager is compared after every operation."),
 "C08": ("scenes with and without other labels, and target lists", "Exhaustive over additions and changes of other labels' objects and over all target lists up to 4 entries incl. synonyms."),
 "C09": ("quaternions, pairs of them and box motions", "Exhaustive over finite rotation groups, lattice quaternions, axis-angle grids and operation sequences; a finite set of real inputs, tolerance 1e-12."),
 "C10": ("orientations", "Exhaustive over finite groups and angle grids incl. the poles and quadrant borders; a finite set of real inputs."),
 "C11": ("boxes and point pairs", "Exhaustive over orientations x sizes x places; a finite set of real inputs, relative tolerance 1e-12."),
 "C12": ("pairs of boxes", "Exhaustive over grids of relative poses incl. exact and near coincidences; the score is recovered from verdicts at thresholds v-eps and v+eps (eps 1e-6)."),
 "C13": ("pairs of boxes and elevations", "Exhaustive over grids of relative poses, heights and elevations; score recovered to 1e-6."),
 "C14": ("pairs of boxes around the ego", "Exhaustive over grids of relative poses; scores recovered to 1e-7; pairs whose nearest side is a tie are judged for symmetry only."),
 "C15": ("pairs, modes and thresholds", "Exhaustive over exact-score pairs with thresholds one unit of least precision apart, threshold scans, and attribute deviations."),
 "C17": ("faults in datasets", "Exhaustive over every single fault (and pairs, in the thorough tier) of the stated fault kinds at every record and field of the stated datasets; judged as accepted, refused or panicked."),
 "C18": ("datasets", "Exhaustive over dataset structures and all bounded attribute deviations; every loaded frame compared in full with what the tables say."),
 "C19": ("poses and datasets", "Exhaustive over ego poses x object poses and chains of frames; tolerance relative 1e-9."),
 "C20": ("datasets and navigation paths", "Exhaustive over datasets up to the stated size and all navigation paths over the iterators."),
 "C21": ("records", "Exhaustive over all record types, field values from boundary alphabets and every token byte; sub-microsecond datetimes are outside the property."),
 "C22": ("scenario files", "Exhaustive over scenario trees, layouts, spellings, and single faults at every place; compared with a reference reader over generic YAML. Files the format leaves open are only required not to panic."),
 "C23": ("configuration sequences", "Exhaustive over sequences of configurations, each in a process of its own; log contents identified by unique messages."),
 "C24": ("label names, lists of them and thresholds", "Exhaustive over all documented names with case and edit variants, lists up to the stated length, and all target lists with thresholds; other unlisted names only up to the stated edit distance or length."),
 "C25": ("task and frame names", "Exhaustive over all valid spellings, their case variants, everything within edit distance 2, short texts and joined words."),
 "C26": ("sensor files and faults in them", "Exhaustive over file sizes, channels, contents by value class, and truncations at every byte."),
 "C27": ("datasets, histories and hash seeds", "Exhaustive over the stated datasets and histories x hash seeds (the seed of every hash map is set by the harness); the seeds cover all orders of 4 entries, not all orders of larger maps."),
 "C28": ("datasets", "Exhaustive over scene structures and all bounded deviations of poses, headings, sizes, labels, thresholds and times; end to end through scenario file, dataset and report."),
 "C29": ("configurations and separating scenes", "Exhaustive over target lists, per-label thresholds of both criteria and separating scenes; report text compared field by field."),
 "C30": ("image files and faults in them", "Exhaustive over the stated pictures, every truncation and damaged bytes; JPEG contents judged within coding accuracy only."),
 "C31": ("operation sequences", "Exhaustive over all operation sequences up to the stated depth on sound and damaged datasets; whole directory trees compared after every sequence."),
 "C32": ("interleavings of evaluations", "Exhaustive over all interleavings of whole operations of 2 and 3 evaluations, on one thread and handed over between threads; overlap inside one operation is not explored."),
 "C33": ("numbers in objects", "Exhaustive over up to 2 (thorough 3) fields of a pair of objects, and up to 2 (thorough 4) parameters, at extreme values incl. NaN and infinities."),
 "C34": ("datasets, tokens and files", "Exhaustive over bounded deviations of datasets, every token of a dataset and its one-bit neighbours, and all combinations of the stated log and sensor files."),
 "C35": ("objects and pairs of them", "Exhaustive over all objects and pairs of objects differing in up to 2 (thorough 3) fields, numbers taken one by one from a boundary alphabet, and over all small frames; printed numbers are read back bit for bit."),
 "C16": ("frame lists and query times", "Exhaustive over all frame lists up to the stated length over time differences around every boundary to the nanosecond."),
}
checks, na = [], []
for i in ids:
    if i in CLAIMS:
        what, note = CLAIMS[i][:2]
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i}",
            "thorough_cmd": f"./check.sh {i} --tier thorough",
            "technique": MC % what,
            "level": CLAIMS[i][2] if len(CLAIMS[i]) > 2 else "model_checking",
            "level_note": note + TRUST,
        })
    else:
        na.append({"property": i, "reason": "no check"})
json.dump({
    "version": 1,
    "setup_cmd": "./check.sh build",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: every property is observed through the public API. Repairs of genuine defects are 'fix:' commits in /repo, listed in known_findings.txt.",
}, open(f"{root}/MANIFEST.json", "w"), indent=1)
