#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of implemented checks."""
import json
T = {
 "C01": "runtime monitoring of parsing and loading mutated fonts in watched child processes (panic, crash, CPU and memory monitors)",
 "C02": "runtime monitoring of hostile hinting programs: crash and step monitors, fresh-buffer comparison after failures",
 "C03": "Go race detector over stressed concurrent use of one font, with single-threaded result comparison",
 "C04": "runtime monitoring of character lookups against a reference decoding of generated character maps",
 "C05": "runtime monitoring of metric, kerning and name queries against the model a font was generated from",
 "C06": "runtime monitoring of re-laid-out fonts against the plain layout (differential)",
 "C07": "runtime monitoring of unhinted loads against a reference loader",
 "C08": "runtime monitoring of composite loads against a reference loader",
 "C09": "runtime invariant monitor over loaded glyphs of generated and real fonts",
 "C10": "runtime monitoring of hinted loads against an independent reference interpreter of the instruction set",
 "C11": "runtime monitoring of load histories on a shared buffer against fresh buffers",
 "C12": "runtime span-stream monitor over random and hostile rasterisations",
 "C13": "runtime monitoring of rasterised polygons against an exact area computation",
 "C14": "runtime monitoring of rasterised curves against fine polylines",
 "C15": "runtime monitoring of rasteriser histories (metamorphic comparison of span streams)",
 "C16": "runtime monitoring of painted images against exact compositing, with guard bytes",
 "C17": "runtime monitoring of wrapped painters against a per-pixel model",
 "C18": "runtime monitoring of stroke coverage against the geometric band",
 "C19": "runtime monitoring of face glyph requests against direct rasterisation and fresh faces",
 "C20": "runtime monitoring of face measurements against the font and the loaded glyphs",
 "C21": "runtime monitoring of drawn strings against a reference layout and composition",
 "C22": "runtime monitoring of clipped drawing against unclipped drawing, with guard pixels",
 "C24": "runtime monitoring of the calls that strokes make to caps and joins, and of the outlines with their shapes",
 "C25": "runtime monitoring of faces and contexts of malformed fonts at extreme sizes in watched child processes (panic, crash, CPU and memory monitors)",
 "C26": "runtime monitoring of drawing and stroking of arbitrary paths in watched child processes (panic, crash, CPU and memory monitors, span and outline invariants)",
 "C27": "runtime monitoring of path and stroke histories against a model of the calls made (call-trace comparison), also concurrent",
 "C28": "runtime monitoring of the live heap and of goroutines over long histories of repeated operations on long-lived objects",
 "C23": "runtime monitoring of context histories against fresh contexts (differential)",
}
import glob, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = set(os.path.basename(p)[:-3].upper() for p in glob.glob(here + "/harness/checks/c[0-9][0-9].go"))
checks, na = [], []
for i, t in T.items():
    if i in have:
        checks.append(dict(property=i, quick_cmd=f"bash check.sh {i}", thorough_cmd=f"bash check.sh {i} -tier thorough",
            evidence_file=f"evidence/{i}.json", technique=t, level="exploration",
            level_note="Holds on every execution observed; the evidence file lists cases, events and distinct states seen. "
              "Trusts the harness's independent oracle and the Go toolchain; see DESIGN.md for the domain of the generator."))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="bash setup.sh",
    hooks=dict(guard="verif", enable="no hooks are needed: the checks observe the public API of an ordinary build of /repo's working tree", source_commits=[]),
    checks=checks, not_applicable=na)
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
