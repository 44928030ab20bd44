"""Writes /verif/known_findings.json."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = [
 {"id": "KF1", "property": "C18",
  "what": "read_wout/read_boozmn of a classic netCDF file that ends inside the data section returns normally; the missing numbers are read as 0 (or as earlier data of the same file)",
  "input": "any wout or boozmn file (CDF-1/CDF-2) cut after the end of its header and before its last needed byte; libnetcdf's nc_get_var fills reads past the end of the file with zeros, or, more than a buffer after the cut, sometimes with what an earlier part of the file left in its buffer, without an error",
  "why_not_repaired": "libnetcdf reports no error and does not expose data offsets through its API; detecting this needs a parser of the classic header in booz_xform"},
 {"id": "KF2", "property": "C23",
  "what": "an array obtained by reading an attribute shares the object's memory: when that attribute is assigned, loaded or recomputed later, the earlier array changes (same size) or refers to freed memory (other size)",
  "input": "v = b.ATTR; then any assignment, load or run that rewrites b.ATTR; then reading v. In the check: iota = [1,2,3]; v = iota; iota = [4,5,6]; v is [4,5,6]",
  "why_not_repaired": "the getters return read-only numpy views by design; returning copies would make the usual loops over b.bmnc_b[jmn, js] quadratic in memory traffic, and shared ownership needs a redesign of the class"},
]
# property, start of the commit subject, what failed
FIXED = [
 ("C17", "fix: write zeros, not uninitialised memory, to beta_b", "write_boozmn stored uninitialised memory in beta_b when flux data are present"),
 ("C05", "fix: discard stale asymmetric outputs", "run() with asym=False kept the bmns_b... of an earlier asymmetric run"),
 ("C24", "fix: init_trig wrote out of bounds", "init_trig wrote out of bounds when mpol (or mboz) leaves only m=0"),
 ("C24", "fix: allow input modes with m = mpol", "input modes with m = mpol read beyond the trigonometric tables"),
 ("C24", "fix: out-of-bounds read of the m=1 modes", "init_from_vmec read beyond the arrays for m=1 and ns=2"),
 ("C12", "fix: verbose>1 printed elements", "verbose=2 read beyond the end of small arrays"),
 ("C15", "fix: check compute_surfs when it is used", "surface indices out of range were not checked at run() (and old ones were checked at loading)"),
 ("C16", "fix: restore Boozer_G, Boozer_I and aspect", "read_boozmn did not restore Boozer_G, Boozer_I and aspect"),
 ("C17", "fix: set chi to 0 instead of leaving it uninitialised", "chi was uninitialised memory for files without chi_b"),
 ("C18", "fix: close netCDF files when reading or writing fails", "a failing read or write leaked a file descriptor"),
 ("C23", "fix: initialise all scalar members", "a new object had uninitialised scalars"),
 ("C18", "fix: reject netCDF files whose variables do not match", "arrays of other sizes than declared were read out of bounds or wrongly accepted"),
 ("C15", "fix: init_from_vmec read beyond the end of empty mode tables", "empty mode tables were read out of bounds; a failing init_from_vmec changed ns_in"),
 ("C15", "fix: run() raises an exception, rather than reading out of bounds", "run() on inconsistent inputs read out of bounds"),
 ("C18", "fix: write_boozmn read out of bounds when there are no results", "write_boozmn without (matching) results read out of bounds"),
 ("C22", "fix: modeplot failed when nmodes exceeds", "modeplot failed for nmodes larger than the number of modes"),
 ("C21", "fix: wireplot showed no curves for refine=1", "wireplot drew no curves for refine=1"),
 ("C21", "fix: wireplot used uninitialised input data", "wireplot of a boozmn file used input data that do not exist"),
 ("C21", "fix: include the asymmetric modes in the surface normal", "the surface normal of wireplot left out the asymmetric modes"),
 ("C24", "fix: integer overflows for extreme resolutions", "integer overflow for extreme mboz, nboz, nfp"),
 ("C18", "fix: leave Eigen arrays empty, not dangling", "an allocation failure left arrays with dangling pointers, so the object crashed later"),
 ("C19", "fix: both command-line drivers recognise the same integers", "the two command-line drivers parsed integers differently"),
 ("C23", "fix: refuse integer array values that do not fit", "integer array attributes silently wrapped values that do not fit (compute_surfs=[4294967296] became [0])"),
 ("C22", "fix: symplot drew a mode in the colour of another group", "the 'other helical' legend entry of symplot could show a mode of the n=-nfp*m group"),
 ("C22", "fix: modeplot and wireplot take the surface with the largest s", "with unsorted compute_surfs, modeplot ranked the modes at (and wireplot drew) the last, not the outermost surface"),
 ("C24", "fix: after a failed read there are no half-read data", "after a failed read_boozmn or read_wout, run() or write_boozmn used (and wrote) arrays that had been sized but never filled; jlist = -2147483648 overflowed"),
 ("C24", "fix: integer overflow in run() for mpol or ntor", "mpol, ntor, mpol_nyq or ntor_nyq = 2147483647 overflowed in run()"),
 ("C15", "fix: run() raises an exception if the first Nyquist mode", "run() with a first Nyquist mode other than (0,0) aborted (debug builds) or took I and G from another mode"),
 ("C24", "fix: integer overflows for extreme nfp", "nfp near 2**31 overflowed in the spacing of the zeta grid and for xn = -2**31 (read out of bounds)"),
 ("C24", "fix: write_boozmn refuses surfaces", "write_boozmn after compute_surfs was set to surfaces that do not exist wrote an invalid jlist (and overflowed for 2147483647)"),
]
log = [l.split(" ", 1) for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()]
fixed, used = [], set()
for prop, subject, what in FIXED:
    hit = [h for h, s in log if s.startswith(subject)]
    if len(hit) != 1:
        print("no commit for", subject)
        continue
    used.add(hit[0])
    fixed.append("fixed: property=%s %s %s" % (prop, hit[0], what))
for h, s in log:
    if s.startswith("fix:") and h not in used:
        print("unlisted", h, s)
with open(os.path.join(ROOT, "known_findings.json"), "w") as f:
    json.dump({"findings": FINDINGS, "fixed": fixed}, f, indent=1)
    f.write("\n")
