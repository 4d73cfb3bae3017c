"""Writes /verif/MANIFEST.json from the table below (run after editing)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CHECKS = {
    "C01": ("stateless model checking of the real MPI program (all wildcard matchings) plus exhaustive region-limit lattice",
            "model_checking",
            "Every schedule of hazard.run within the bounds is executed on the real code under a controlled MPI; "
            "trusts the controller's MPI semantics and netCDF."),
}

SCHED = "stateless model checking of the real MPI program (all wildcard matchings, rank orders, send modes)"
CHECKS["C02"] = (SCHED, "model_checking", "Every schedule of database.run within the bounds is executed and the whole "
                 "database compared with rows computed from the inputs; trusts the controller's MPI semantics and SQLite.")
CHECKS["C23"] = ("exhaustive enumeration of small databases and thresholds on the real queries, against a reference model",
                 "exploration", "All databases of the lattice; nothing beyond the lattice is claimed.")
CHECKS["C03"] = ("stateless model checking of the real parallel track generator: all rank orders, process counts, batch "
                 "sizes and run histories within bounds, files compared byte for byte",
                 "model_checking", "Every execution within the bounds is run on the real code; one calibrated model; "
                 "trusts the controller's MPI barriers.")
CHECKS["C19"] = ("exhaustive exploration of the real track generator over all scripts of random deviates with up to two "
                 "deviations from the median path, and all periodic scripts, within bounds",
                 "exploration", "All scripts of the bounded family are run through TrackGenerator.run; deviates between "
                 "the chosen levels are not covered.")
CHECKS["C09"] = ("exhaustive enumeration of small grids, missing-value placements, save modes and sample points on the "
                 "real code, against values computed independently",
                 "exploration", "All grids up to 4x4 of the lattice; sampling of ascii grids has a recorded known finding "
                 "pinned by the existing tests.")

CHECKS["C08"] = ("exhaustive enumeration of track collections, calendars, units, dates and steps written and read with the "
                 "real functions", "exploration", "All cases of the lattice, including rewriting and re-reading histories; "
                 "times with fractions of a second are outside the property.")

CHECKS["C06"] = ("stateless model checking of the real worker threads under a controlled scheduler (all schedules with a "
                 "bounded number of deviations, at synchronisation, raster and source-line points) plus enumerated inputs",
                 "model_checking", "Every schedule within the bounds is executed on the real code and the output compared "
                 "pixel for pixel; trusts GDAL and the scheduler's lock semantics.")

CHECKS["C04"] = ("stateless model checking of the real wind field batch with crash injection at every file operation, "
                 "restarts, all process counts, listing orders and rank interleavings at file operations within bounds",
                 "model_checking", "Every execution within the bounds is run on the real code; a crash is a kill, so the "
                 "reordering of writes by a failing disk is not covered.")
CHECKS["C07"] = ("exhaustive enumeration of operation sequences on the real ledger, with interruptions after every byte, "
                 "against a reference model", "model_checking", "All sequences up to the depth; file names with the "
                 "field separator or line breaks are outside the property.")

CHECKS["C18"] = ("exhaustive fault enumeration on the real download code: the connection fails, ends, breaks or stalls after "
                 "any byte, every file operation fails or is killed, pairs of faults, then a download without faults",
                 "fault_enumeration", "Every fault script of the family runs over the real HTTP client on a scripted "
                 "connection; FTP transfers are not covered.")

CHECKS["C05"] = ("stateless model checking of the real program on controlled MPI ranks: all stage switch combinations and rank "
                 "orders within bounds", "model_checking", "Every execution is of the real tcrm.startup with the stages' "
                 "own work replaced by stand-ins that report their start and end.")

CHECKS["C20"] = ("exhaustive enumeration of operation sequences on the real shared parser against a reference model, and of "
                 "value spellings, places and typed look-ups", "model_checking", "All sequences up to the depth; text that "
                 "is not a Python literal is not evaluated.")

CHECKS["C10"] = ("exhaustive enumeration of storm histories (all sequences of positions up to a length, all models and grid "
                 "set-ups) through the real wind field code, each footprint folded independently from the per-step fields",
                 "exploration", "All histories of the family; the wind field of a single time step is taken from the code "
                 "itself, one track point at a time.")
CHECKS["C11"] = ("exhaustive enumeration of sequences of wind field steps given to the real extraction, and of storm "
                 "histories through wind.run, against records computed from the same fields",
                 "exploration", "All sequences of the family; one process.")
CHECKS["C12"] = ("exhaustive enumeration of sequences of windows given to the real writer with the file read back after "
                 "every step, and of storm histories through wind.run",
                 "exploration", "All sequences of the family; the file is read through the open dataset and after closing.")

CHECKS["C13"] = ("exhaustive enumeration of a lattice of arguments, memory layouts and knot patterns, every case evaluated by "
                 "the real code with and without freshly built extensions and compared",
                 "exploration", "All cases of the lattice; equality is within a stated accuracy.")

CHECKS["C21"] = ("exhaustive enumeration of tracks over lattices of intervals, moves and pressures, run in files of many "
                 "tracks through the real interpolation with every method and compared with a direct evaluation",
                 "exploration", "All tracks of the lattice; no track passes longitude 0/360.")

CHECKS["C14"] = ("exhaustive enumeration of tables of observations of a bounded size, each processed by the real code and all "
                 "its output files compared with a direct reading of the table",
                 "exploration", "All tables of the lattice; seasons do not change within a storm.")

CHECKS["C15"] = ("exhaustive enumeration of domains, cell sizes and points over lattices, and of the placements of a bounded "
                 "number of observations, each run through the real numbering, statistics and distributions and "
                 "compared with a direct selection",
                 "exploration", "All cases of the lattice; a point on the common edge of cells may belong to either.")

CHECKS["C16"] = ("exhaustive enumeration of small samples, kernels, steps and probability grids over lattices; each real table is "
                 "compared with a direct evaluation and sampled with all its critical deviates",
                 "exploration", "All cases of the lattice; deviates between two critical ones give the same sample.")

CHECKS["C17"] = ("exhaustive enumeration of multisets and orders of wind records over a lattice of speeds, of neighbouring cells, of "
                 "the random selections of the confidence limits and of the placement of wind files over the years; the real "
                 "levels are compared with a direct evaluation of the fit",
                 "exploration", "All cases of the lattice; fits whose existence hangs on rounding are left undecided.")
CHECKS["C22"] = ("stateless model checking of the real evaluations on several processes: all matchings of the wildcard receives, "
                 "with eager and synchronous sends; and exhaustive enumeration of small tracks and coasts over a lattice, "
                 "the saved results compared with exact counts",
                 "model_checking", "Every execution within the bounds is run on the real code; figures are recorded instead of "
                 "drawn; the kernel density library is trusted.")
CHECKS["C24"] = ("exhaustive enumeration of wind directions, short series and sets of stations on the real program, "
                 "against a direct evaluation", "exploration", "All cases of the lattice.")

CHECKS["C25"] = ("exhaustive enumeration of short tracks and meridian crossings on the real program, against the input",
                 "exploration", "All sequences of crossings within the bounds.")

CHECKS["C26"] = ("exhaustive enumeration of the combinations of options and of station names on the real program, with notes "
                 "of what reaches the figures and the impact program", "exploration", "All combinations within the bounds.")

CHECKS["C27"] = ("exhaustive enumeration of options, domains and patterns of missing cells on the real plotting stage, with "
                 "notes of what reaches the figures", "exploration", "All combinations within the bounds.")

CHECKS["C28"] = ("exhaustive enumeration of a lattice of storms on the real wind field stage, with relations between the fields of "
                 "the lattice", "exploration", "All storms of the lattice for every profile and boundary layer model.")

CHECKS["C29"] = ("exhaustive enumeration of tile sets, run histories and interruption points on the real program",
                 "fault_enumeration", "All tile sets of a block, pairs of runs, and an end of the process before every event.")

CHECKS["C30"] = ("exhaustive enumeration of stored climatologies, positions, days, tables and scripted deviates on the real code, "
                 "compared with the formulas of the climatologies", "exploration",
                 "All combinations within the bounds, and scripted deviates that differ from the middle in one draw.")

CHECKS["C31"] = ("exhaustive enumeration of unit pairs and triples, files in all units and a lattice of positions, bearings and "
                 "distances on the real code, compared with the definitions of the units and vectors on a sphere", "exploration",
                 "All combinations within the bounds.")

CHECKS["C32"] = ("exhaustive enumeration of short storms in best-track files, together and alone, on the real reader, compared with "
                 "the published relation", "exploration", "All storms of up to three records over the alphabet.")

NOT_APPLICABLE = {}


def main():
    with open(os.path.join(HERE, "properties.jsonl")) as fh:
        ids = [json.loads(l)["id"] for l in fh]
    m = {"version": 1,
         "setup_cmd": "/opt/venv/bin/python -B -m mc.setup",
         "checks": [], "not_applicable": [],
         "notes": "No hooks are needed: the checks drive the code through its entry points. See DESIGN.md."}
    for i in ids:
        if i in CHECKS:
            tech, level, note = CHECKS[i]
            m["checks"].append({
                "property": i,
                "quick_cmd": "bash check.sh %s quick" % i,
                "thorough_cmd": "bash check.sh %s thorough" % i,
                "evidence_file": "evidence/%s.json" % i,
                "technique": tech, "level": level, "level_note": note})
        else:
            m["not_applicable"].append({
                "property": i,
                "reason": NOT_APPLICABLE.get(i, "check not built yet")})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
