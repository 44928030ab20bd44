"""Writes /verif/MANIFEST.json from the checks present in harness/checks."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PBT = "property-based testing (Hypothesis, shrinking)"
T = {
 "C01": (PBT + " against an independent numpy reference model", "random search over configurations; every output number of every case is compared with a reference written from the documented integrals. Trusts numpy and the reference's reading of theory.rst (cross-checked by C02, C03, C06-C08, which do not use the formulas of the integrals)"),
 "C02": (PBT + ": output series evaluated as a coordinate map", "random search over smooth configurations; cases that the resolution does not resolve are recognised by the reference's own truncation error and not judged tightly"),
 "C03": (PBT + ": residual of the covariant equations from outputs only", "random search; nu and the angles are rebuilt from the outputs, so the equations are judged, not the formulas used to solve them"),
 "C04": (PBT + ": surface averages and Jacobian identity", "random search over configurations and surface lists"),
 "C05": (PBT + ", stateful reuse of one object, against a definition-level model", "random sequences of up to three configurations on one object"),
 "C06": (PBT + ": metamorphic relation symmetric/asymmetric mode", "paired runs; tolerances scale with the magnitude of all terms"),
 "C07": (PBT + ": metamorphic rewritings of the mode tables", "paired runs over ten kinds of rewritings, composed"),
 "C08": (PBT + ": metamorphic scalings, shifts, reflections", "paired runs over nine kinds of transformations"),
 "C09": (PBT + ": bitwise comparison of runs with different surface lists and foreign data", "paired runs; one column per run is also compared with the reference"),
 "C10": (PBT + " over thread counts, plus generated schedules under ThreadSanitizer on a stand-in OpenMP runtime", "schedules are sampled, not enumerated; races are reported by ThreadSanitizer on the executed schedules"),
 "C11": ("stateful property-based testing (random histories, shrinking) against fresh objects as the model", "random histories of 2-14 operations; comparison is bitwise"),
 "C12": (PBT + ": before/after snapshots and runs differing in verbosity", "bitwise comparison of all attributes and files"),
 "C13": (PBT + " against the documented half-grid mapping and exact polynomial families", "random search over VMEC-style arrays"),
 "C14": (PBT + ": files by an independent writer, differential against init_from_vmec", "wout files are written with scipy's netCDF-3 writer (CDF-1, CDF-2)"),
 "C15": (PBT + ": generated deviations from consistent input, rejection oracle", "random single and multiple deviations; the oracle is computed from the documented shapes"),
 "C16": (PBT + ": write/read/write round trip", "bitwise comparison of attributes and of file contents"),
 "C17": (PBT + ": differential against an independent netCDF implementation", "scipy.io.netcdf_file is the independent reader and writer"),
 "C18": ("property-based fault injection (Hypothesis) with enumeration of truncation points and byte limits", "faults come from outside the process (file contents, resource limits, permissions)"),
 "C19": (PBT + ": differential between Python driver, C++ driver and library", "random input files, valid and faulty"),
 "C20": (PBT + " against the reference: parsing of the printed reports", "printed numbers carry four digits, so differences below 0.05% are invisible"),
 "C21": (PBT + " against direct series evaluation, recording matplotlib/plotly calls", "plotly is not installed: a recording stand-in receives the traces"),
 "C22": (PBT + " against a model of the documented mode selection, inspecting matplotlib artists", "lines, colours, labels and data of the produced figure are inspected"),
 "C23": (PBT + ": assignment round trips over array layouts and types", "random attribute operations, values compared bitwise, results compared with runs from plain arrays"),
 "C24": ("fuzzing with AddressSanitizer/UBSan of API inputs and mutated netCDF files", "memory errors are those the sanitizers see on the executed inputs; uninitialised reads are looked for with memory poisoning"),
 "C25": ("stateful property-based testing: interleaved histories of several objects against each history alone in a new process; generated concurrent runs under ThreadSanitizer", "histories and thread timings are sampled; comparison is bitwise"),
 "C26": (PBT + ": differential between C++ programs (two compilers, with and without OpenMP) and the Python package", "computed numbers are compared to rounding error, everything else exactly"),
 "C27": (PBT + ": metamorphic relation between resolutions", "the reference supplies the size of the aliasing error only"),
}
checks, na = [], []
for k in sorted(T):
    if os.path.exists(os.path.join(ROOT, "harness", "checks", k.lower() + ".py")):
        checks.append({"property": k, "quick_cmd": "./check.sh %s quick" % k, "thorough_cmd": "./check.sh %s thorough" % k,
                       "technique": T[k][0], "level": "exploration", "level_note": T[k][1]})
    else:
        na.append({"property": k, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks: every check uses the public interface (Python, C++, command line, files) of a build made from /repo's working tree."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
