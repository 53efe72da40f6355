#!/usr/bin/env python3
"""Source of MANIFEST.json: checks for the properties the simulators register, the rest not applicable."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = "deterministic simulation with fault injection: "
TRUST = " Trusts the publishers' truth model in /verif and samples seeds rather than enumerating them; components that ran for real and stubs are listed in the evidence."
C = {
 "C01": ("seeded publishers, faulty network and concurrent clients; every delivery matched against the published rows", "Every simulated fetch of every text feed is checked row by row against what was published."),
 "C02": ("seeded faults on every document kind, then every consumer operation on what was decoded; panics, aborts and hangs are violations", "Each run is a process of its own under a processor-time limit, so panics, aborts and hangs are all seen."),
 "C03": ("simulated model clock over decades, whole horizons and lost rows; row dates matched against a calendar oracle", "Dates of every delivered row are checked against the instants the simulated model forecast."),
 "C04": ("seeded line and byte faults on published spectral forecasts; intact steps matched against the published ones", "Every intact step must be delivered exactly; gaps may deliver only complete steps."),
 "C05": ("simulated client clocks (skew, drift, steps) behind the clock seam; choices checked at each poll and over each client's history", "Every choice is compared with the published-cycle arithmetic and with the client's history."),
 "C06": ("seeded gappy swell histories (lost, repeated, late, empty steps) polled incrementally; greedy matching oracle and identity invariants", "Identities are checked against an independent matcher that sees only the observed ids of the step before."),
 "C07": ("operations preempted inside library calls by a seeded scheduler, with varied hash seeds, orders and abandoned neighbours; results compared with the same operation alone in a fresh process", "Any dependence on order, neighbours, hash seeding or reuse shows as a differing digest."),
 "C08": ("simulated storage with crashes, torn and lost writes; reloaded records compared with saved ones and with an uninterrupted run", "Every serialisable public type is saved, torn, reloaded and compared field by field."),
 "C09": ("seeded histories of unit-system requests with saves and reloads; values checked against one direct conversion and the true factors", "Factors, drift and path independence are checked after every step of each history."),
 "C10": ("simulated seas, instruments and sensor outages; partition labels, connectivity and energy checked as invariants of each report", "Labels, connectivity, energy sums, component statistics and the five-measurement formula are recomputed independently."),
 "C11": ("seeded JSON publishers with closed connections and lost fields; whole documents compared, others must be refused", "Every whole document is compared entry by entry, every cut or spoiled one must be refused."),
 "C14": ("clients keep timelines on changing grids from a faulty network, failing sensors and torn saves; every value held against the source bins around it and against the same sea turned, relisted and scaled", "Every hop of every timeline is checked bin by bin; which interpolation is used between bins is left open."),
 "C15": ("clients at beaches estimate surf from swells of a faulty network or entered by hand, tide after tide, after restarts and unit switches; every number held against the dispersion relation solved by bisection", "Every swell at every depth is recomputed; the breaking relations themselves are taken from the literature, and waves along the shore are left out."),
 "C16": ("clients under way pick stations by distance and by the window of their map from lists that are lost, repeated, reordered and cut, and restart from saved positions; distances held against the angle between vectors and windows against the coordinates", "Every distance, window and normalised coordinate of every look is recomputed from integer positions; the earth's radius is left open within 0.3 per cent."),
 "C17": ("clients with skewed and stepped clocks show almanacs for places from pole to pole, saved, torn and restored; the sun's height at every event computed independently", "Every event is checked against the height of the sun by formulas of its own, every absence against the lowest and highest stand of that day."),
 "C18": ("clients chart the fields of a model hour after hour on regional and global grids, with blocks and values lost, late frames, restarts and torn saves; every corner held against its neighbours on the grid, every grid point against every outline", "Every corner of every outline and every grid point of every level is judged; outlines may run anywhere between a value and none."),
 "C23": ("clients chart series of spectra from a faulty network, failing sensors and their own grids, reuse projection maps and restart from saves; every pixel held against the nearest bin computed independently", "Every pixel of every frame, every one-dimensional value, mean direction, corner of a contour and value read off between bins is recomputed; that the contours are complete is not checked."),
 "C24": ("clients screen the swell lists of faulty feeds, mirrored spectra and their own entries, preempted inside each other's calls, between unit switches and restarts; every verdict held against pairwise comparison with the first of its period", "Every component of every screened list is judged independently; components of an ambiguous shown period are held to the other rules only."),
 "C25": ("clients show what they hold from a faulty network and from typed texts, after switches, losses, edits and restarts, preempted inside each other's calls; every text compared with the value, unit and direction held and read back", "Every text of every record shown is recomputed from its saved form with independent tables of labels and points."),
 "C20": ("clients with skewed clocks fetch from simulated servers that parse the addresses and lose, refuse, cut or spoil answers; every decoded document compared with what was asked for", "Every answer a client accepts is compared with the server's truth for what the client wanted."),
 "C12": ("seeded publishers, faulty network and concurrent clients of the meteorological and latest-observation feeds and the station list", "As C01, with the files that need two git crates built against stand-ins for those crates."),
 "C13": ("simulated client clocks (skew, drift, steps, readings that advance inside a call) behind the clock seam; addresses looked up in an archive of independently addressed files", "Addresses are compared with independently built ones at every simulated clock reading; built against stand-ins for two git crates."),
 "C19": ("concurrent clients bring in whole model runs from a simulated archive with lost answers and restarts; what they stored is compared with the outputs published", "Every published output must be stored once and in order whatever was lost or restarted; built against stand-ins for two git crates."),
 "C21": ("concurrent clients ask a simulated archive for ranges of histories by address; lost, cut, refused and partial answers; records compared with what the archive holds for the range", "Every decoded record is compared with the archive's truth for the requested range; built against stand-ins for two git crates."),
 "C22": ("messages of simulated model outputs are lost, duplicated, reordered, cut off and damaged before concurrent clients read the waves at a place; records and grid queries compared with means and interpolations computed independently", "Every record and query result is recomputed from the simulated grid; built against stand-ins for two git crates, so GRIB2 decoding itself is not covered.")
}
NA = {}
import re
ids = []
for d in ("sim", "simfull"):
    f = os.path.join(HERE, d, "src", "main.rs")
    if os.path.exists(f):
        ids += re.findall(r"&\w+::(C\d\d)\b", open(f).read())
ids.sort()
checks = [dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough", evidence_file=f"evidence/{i}.json",
               technique=T + C[i][0], level="exploration", level_note=C[i][1] + TRUST) for i in ids]
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
na = [dict(property=i, reason=NA.get(i, "check not built yet")) for i in props if i not in ids]
m = dict(version=1, setup_cmd="./check build",
         hooks=dict(guard="none", enable="No hooks in /repo: clock, hash seeding and preemption are reached by symbol interposition and the global allocator of the simulator.", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Genuine defects repaired are listed in known_findings.json (status fixed) with their fix: commits; see DESIGN.md.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print("claimed", ids, "not applicable", [x["property"] for x in na])
