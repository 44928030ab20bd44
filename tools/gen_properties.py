"""Writes /verif/properties.jsonl (kept as a script so the wording stays reviewable)."""
import json, os
S = "src/_booz_xform/"
P = "src/booz_xform/"
props = []
def add(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    props.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

add("C01", "Boozer spectra equal the defining Fourier integrals",
 "After run(), every column of bmnc_b, rmnc_b, zmns_b, numns_b, gmnc_b (and of bmns_b, rmns_b, zmnc_b, numnc_b, gmns_b when asym is true) equals the Fourier amplitude, in the Boozer angles, of B, R, Z, nu and (G+iota*I)/B^2 for that surface, evaluated by the trapezoidal rule on the documented (mboz, nboz) grid, to rounding error. "
 "This holds for stellarator-symmetric and asymmetric data, every nfp, every resolution (including axisymmetry nboz=0 and mboz=1) and every mode.",
 ["inputs", "configurations"],
 "All documented inputs: asym in {F,T}, nfp>=1, any mode tables with xm<mpol, any ns_in, any mboz>=1, nboz>=0, amplitudes for which B>0 and G+iota*I is not 0.",
 "The regression test compares 4 equilibria at one resolution each with the Fortran output; most mode tables, nfp values, resolutions (mboz=1, nboz=0 with 3D data) and amplitudes are never reached.",
 [S+"surface_solve.cpp", S+"init.cpp", S+"init_trig.cpp", S+"run.cpp"],
 [("half-grid theta integration weights for symmetric data", S+"surface_solve.cpp"), ("Fourier normalisation with factor 1/2 for mode (0,0)", S+"surface_solve.cpp"), ("trigonometric recurrences", S+"init_trig.cpp")],
 observe=["Booz_xform.bmnc_b ... gmns_b after run()"])

add("C02", "Boozer series reproduce |B|, R, Z, nu and Jacobian at mapped points",
 "When mboz and nboz resolve the configuration, summing the output series for |B|, R, Z, nu and the Jacobian at Boozer angles (theta_B, zeta_B) gives the values that the input data have at the original angles (theta_0, zeta_0) which map to that point, with zeta_B - zeta_0 = nu and theta_B - theta_0 = lambda + iota*nu.",
 ["inputs", "configurations"],
 "Every smooth configuration whose Boozer spectrum is resolved by (mboz, nboz), at arbitrary angles not tied to the internal grid, symmetric or not, any nfp.",
 "Tests compare spectra with stored Fortran spectra only; no test evaluates the transformation as a coordinate map at any point.",
 [S+"surface_solve.cpp", S+"init.cpp"],
 [("nu from eq (10), angles from eq (3), integrals eq (11)-(12)", S+"surface_solve.cpp")],
 observe=["output spectra evaluated at mapped points"])

add("C03", "nu and the new angles satisfy the Boozer-coordinate equations",
 "On every transformed surface the new angles are Boozer angles: along the surface the covariant components of the input field satisfy B_theta0 = I*d(theta_B)/d(theta_0) + G*d(zeta_B)/d(theta_0) and B_zeta0 = I*d(theta_B)/d(zeta_0) + G*d(zeta_B)/d(zeta_0), with theta_B = theta_0+lambda+iota*nu, zeta_B = zeta_0+nu and nu taken from the output series. "
 "This holds for every input field whose covariant components are consistent (derivable from one potential).",
 ["inputs", "configurations"],
 "All resolved configurations with covariant components derived from a single-valued potential plus (I, G), including modes with m=0 and n=0, negative n, nfp>1, I=0 or I!=0.",
 "No test evaluates the covariant equations; a compensated sign error in one mode family (m=0 or asymmetric) only shows for data containing those modes.",
 [S+"surface_solve.cpp"],
 [("selection of bsubu vs bsubv per mode (m=0 special case)", S+"surface_solve.cpp"), ("nu = (w - I*lambda)/(G+iota*I)", S+"surface_solve.cpp")],
 observe=["numns_b, numnc_b"])

add("C04", "Flux functions G, I and the Jacobian relation sqrt(g)*B^2 = G+iota*I",
 "After run(), Boozer_I and Boozer_G hold the surface averages of B_theta and B_zeta on the transformed surfaces, Boozer_I_all and Boozer_G_all hold them on all ns_in input surfaces, and s_b holds the s_in values of the transformed surfaces. "
 "Evaluated at resolved points, the output Jacobian times the square of the output |B| equals G+iota*I with that surface's own G, I and iota.",
 ["inputs", "configurations"],
 "All inputs; any subset and order of compute_surfs, including 'all', one surface and duplicates.",
 "The Fortran comparison looks at buco/bvco of 4 files with a fixed surface choice; no test relates Jacobian, |B|, G and I or checks Boozer_*_all against an arbitrary subset.",
 [S+"init.cpp", S+"surface_solve.cpp"],
 [("(0,0) modes of bsubumnc/bsubvmnc", S+"surface_solve.cpp"), ("Boozer_*_all loop", S+"init.cpp")],
 observe=["Boozer_G, Boozer_I, Boozer_G_all, Boozer_I_all, s_b, gmnc_b, bmnc_b"])

add("C05", "Output mode table and array shapes are canonical",
 "After run(), (xm_b, xn_b) lists every pair with 0<=m<mboz and |n|<=nboz exactly once (n>=0 only when m=0, n stored times nfp), starting with (0,0), ordered by m then n, and mnboz is its length. "
 "Cosine/sine outputs have shape mnboz x ns_b with ns_b = len(compute_surfs) and the symmetry-forbidden outputs have shape 0 x 0 whenever asym is false, whatever was computed or read before; none of the outputs contains stale or uninitialised numbers.",
 ["inputs", "configurations", "histories"],
 "All mboz>=1, nboz>=0, nfp>=1, compute_surfs lists, both symmetry classes, also when an object is reused with different settings.",
 "Tests use the default resolution of 4 files, and never re-run one object with another symmetry or resolution.",
 [S+"init.cpp", S+"booz_xform.hpp"],
 [("mode table loop", S+"init.cpp"), ("output resizing", S+"init.cpp")],
 observe=["xm_b, xn_b, mnboz, ns_b, shapes of all outputs"])

add("C06", "Symmetric data give the same answer in symmetric and asymmetric mode",
 "For data that are stellarator-symmetric, running with asym=true and zero sine arrays gives the same bmnc_b, rmnc_b, zmns_b, numns_b, gmnc_b, G and I as running with asym=false, and sine-parity outputs that vanish to rounding. "
 "With asym=false the contents and shapes of the unused input arrays (rmns, zmnc, lmnc, bmns, bsubumns, bsubvmns) never influence anything.",
 ["inputs", "configurations"],
 "All symmetric configurations, all resolutions, arbitrary content or absence of the unused arrays.",
 "Each test equilibrium is run only in its own symmetry class.",
 [S+"surface_solve.cpp", S+"init.cpp", S+"init_from_vmec.cpp"],
 [("half versus full theta grid and its end-point weights", S+"surface_solve.cpp"), ("`if (!asym) continue`", S+"surface_solve.cpp")],
 observe=["all outputs of paired runs"])

add("C07", "Only the represented fields matter, not the layout of the mode tables",
 "The outputs depend on the represented fields only: reordering the input modes (the (0,0) mode staying first), adding modes with zero amplitude, enlarging mpol/ntor/mpol_nyq/ntor_nyq, splitting one mode into several entries, writing (m,n) sine/cosine modes with the opposite sign convention for m=0, or describing a field with nfp periods as nfp'=nfp/k, leaves the corresponding outputs unchanged to rounding.",
 ["inputs", "configurations"],
 "All inputs and all such rewritings; for relabelled nfp the resolution is scaled so both runs are resolved.",
 "Test data always have VMEC's canonical full table; other layouts never occur.",
 [S+"surface_solve.cpp", S+"init.cpp", S+"init_trig.cpp"],
 [("mode loops over xm/xn and xm_nyq/xn_nyq with trig tables indexed by m and |n|/nfp", S+"surface_solve.cpp")],
 observe=["outputs of paired runs"])

add("C08", "Covariance under units, field reversal, angle shifts and reflection",
 "Scaling lengths scales only R and Z outputs; scaling B together with its covariant components scales |B|, G, I by the factor and the Jacobian by its inverse, leaving nu unchanged; reversing the sign of both covariant components reverses G, I and the Jacobian only. "
 "Shifting the origin of the toroidal angle by a multiple of a grid spacing, or reflecting (theta,zeta)->(-theta,-zeta), transforms the output spectra exactly as the same change of angle does.",
 ["inputs"],
 "All inputs (shifts and reflections: asym=true; half-period shifts: also symmetric), all resolutions.",
 "No test relates two runs.",
 [S+"surface_solve.cpp"],
 [("linearity of the transforms in R, Z, B", S+"surface_solve.cpp")],
 observe=["outputs of paired runs"])

add("C09", "Each surface is transformed independently of all the others",
 "The output column of a surface depends only on that surface's own input data: it is the same whichever other surfaces are in compute_surfs, in whatever order, with duplicates, and whatever data (even NaN) other surfaces carry. "
 "Columns follow the order of compute_surfs.",
 ["inputs", "configurations"],
 "All inputs with ns_in>=1, all non-empty lists of surface indices.",
 "Tests use a fixed list per file, or compare two sorted lists for one file.",
 [S+"surface_solve.cpp", S+"run.cpp", S+"init.cpp"],
 [("js = compute_surfs[js_b] and per-surface work arrays", S+"surface_solve.cpp")],
 observe=["output columns of paired runs"])

add("C10", "Results do not depend on thread count or schedule; run() is race-free",
 "For every input, run() gives bitwise the same outputs for every number of OpenMP threads and every assignment of surfaces to threads, with printing on or off. "
 "No two threads of run() access the same memory without synchronisation, and report lines of different surfaces are never interleaved.",
 ["schedules", "inputs"],
 "All thread counts (fewer, equal to and more than surfaces), all iteration-to-thread assignments, verbose 0 and 1.",
 "The test suite runs with 4 threads once and with tolerances; a race rarely shows in one run.",
 [S+"run.cpp", S+"surface_solve.cpp", S+"check_accuracy.cpp", S+"init.cpp"],
 [("omp parallel for with thread-private work arrays", S+"run.cpp"), ("omp critical around printing", S+"check_accuracy.cpp")],
 observe=["outputs, stdout, ThreadSanitizer reports with generated schedules"])

add("C11", "History independence: a reused object behaves like a fresh one",
 "After any sequence of loads (read_wout, init_from_vmec, read_boozmn), attribute changes, runs, writes and failed calls on one object, loading an equilibrium and running gives bitwise the same outputs and the same boozmn file as a fresh object given the same final inputs. "
 "In particular running twice equals running once, and a failed call does not spoil later valid ones.",
 ["histories"],
 "All finite sequences of public calls and attribute assignments, with equilibria of different sizes, symmetries and flux options.",
 "Tests use a fresh object for practically every step; only one re-run with edited compute_surfs exists.",
 [S+"init.cpp", S+"init_from_vmec.cpp", S+"read_boozmn.cpp", S+"read_wout.cpp", S+"run.cpp", S+"write_boozmn.cpp"],
 [("re-initialisation of every work and output array", S+"init.cpp"), ("compute_surfs, mboz, nboz defaults reset on load", S+"init_from_vmec.cpp")],
 observe=["all attributes and written files at the end of a history"])

add("C12", "Running, writing and plotting do not change inputs; verbosity is inert",
 "run() leaves every input attribute unchanged, write_boozmn() leaves every input and every transformed output unchanged, and the plotting functions leave the object unchanged. "
 "verbose changes only what is printed (0 prints nothing), never a number or a file, and never makes a valid call fail.",
 ["inputs", "histories"],
 "All valid objects, verbose in {0,1,2}, including tiny equilibria (few surfaces, few modes).",
 "Tests never compare inputs before and after, and use default verbosity.",
 [S+"run.cpp", S+"surface_solve.cpp", S+"write_boozmn.cpp", S+"init_from_vmec.cpp", P+"plots.py"],
 [("work on local copies", S+"surface_solve.cpp"), ("printing guarded by verbose", S+"init_from_vmec.cpp")],
 observe=["all attributes before/after, stdout"])

add("C13", "VMEC full-grid data are mapped to the half grid as documented",
 "init_from_vmec() puts lambda, B and covariant-field data and iota on the ns-1 half-grid surfaces by dropping the leading entry, and R, Z by averaging even-m modes and interpolating odd-m modes divided by sqrt(s), m=1 being extrapolated to the axis. "
 "Consequently even-m amplitudes linear in s, and odd-m amplitudes of the form sqrt(s)*(a+b*s) (with a=0 when m is not 1), are reproduced exactly at s_in=(j+1/2)/(ns-1).",
 ["inputs"],
 "All ns>=2 (m=1 with ns=2 falls back to a constant amplitude/sqrt(s)), all mode tables, both symmetry classes, with or without flux data.",
 "Only 4 equilibria with tens of surfaces are seen, at loose tolerances that cannot see the m=1 or first-surface rule and nothing tests small ns.",
 [S+"init_from_vmec.cpp"],
 [("parity-dependent interpolation and m=1 axis extrapolation", S+"init_from_vmec.cpp")],
 observe=["rmnc, rmns, zmnc, zmns, lmnc, lmns, b*, iota, s_in after init_from_vmec"])

add("C14", "read_wout loads every quantity of the wout file faithfully",
 "read_wout(file, flux) gives exactly the object that init_from_vmec() gives for the arrays stored in the file, with asym, nfp, mpol, ntor, mode tables, aspect as in the file, Nyquist limits from the Nyquist tables, all half-grid surfaces selected and the default resolution mboz=6*mpol, nboz=max(2*ntor-1,0). "
 "With flux=True, chi, pres, phi are stored unchanged, phip is phipf/(-2*pi) and toroidal_flux is the last phi; with flux=False they are empty and toroidal_flux is 0.",
 ["inputs", "configurations"],
 "All well-formed wout files (classic, 64-bit-offset, CDF-5 or netCDF-4 files, any ns>=2, mode counts, symmetry, extra variables).",
 "Tests load 4 files and look at results only through the transformation; flux arrays are checked for one file.",
 [S+"read_wout.cpp", S+"init_from_vmec.cpp", S+"netcdf_reader.cpp"],
 [("variable-by-variable nc.get", S+"read_wout.cpp")],
 observe=["all input attributes after read_wout"])

add("C15", "Inconsistent VMEC input and invalid surface choices are rejected",
 "init_from_vmec() raises an exception whenever an array's shape disagrees with ns, mnmax or mnmax_nyq, nfp or ns is too small, or a mode table is inconsistent (wrong length, not starting with (0,0), last toroidal number not nfp*ntor), for every array required by the symmetry class and by the flux option. "
 "run() likewise raises, rather than using them, for compute_surfs entries outside [0, ns_in), mboz<1, nboz<0, and directly assigned arrays or mode tables that disagree with ns_in, the mode counts or the mode number limits (mpol, ntor and their Nyquist versions) or whose Nyquist table does not start with (0,0). All consistent inputs are accepted.",
 ["inputs"],
 "All single and multiple deviations from a consistent input set, for both symmetry classes; all compute_surfs lists.",
 "No test passes inconsistent arrays or out-of-range surfaces.",
 [S+"init_from_vmec.cpp", S+"run.cpp", S+"init.cpp"],
 [("validation block", S+"init_from_vmec.cpp")],
 observe=["exceptions raised"])

add("C16", "boozmn files round-trip: read_boozmn restores what was written",
 "Writing a finished transformation and reading it into any object (fresh or used) restores bitwise asym, nfp, mboz, nboz, mnboz, mode tables, ns_in, compute_surfs, iota, Boozer_G, Boozer_I, Boozer_G_all, Boozer_I_all, aspect, flux profiles (zeros if none), and all spectra, and s_b to rounding. "
 "Writing the object that was read back gives a file with identical contents.",
 ["inputs", "histories"],
 "All completed runs with any surface selection, resolution, symmetry, with or without flux data; any prior state of the reading object.",
 "One existing test round-trips a few attributes for given files into a fresh object; Boozer_G/I on ns_b, unsorted selections and reused objects are not covered.",
 [S+"write_boozmn.cpp", S+"read_boozmn.cpp", S+"netcdf_writer.cpp", S+"netcdf_reader.cpp"],
 [("field-by-field write/read with pmns=-numns and jlist=compute_surfs+2", S+"write_boozmn.cpp")],
 observe=["attributes after read_boozmn, file bytes"])

add("C17", "boozmn files follow the classic format and hold the right numbers",
 "write_boozmn() writes a classic netCDF file with the documented dimensions and variables, in which jlist=compute_surfs+2, radial profiles carry a prepended 0, p spectra are -nu spectra, asymmetric spectra are present exactly when lasym is 1, beta/rmax/rmin placeholders are 0 and flux profiles are the object's (or zeros): an independent netCDF reader finds exactly the object's data. "
 "Files of the older Fortran program, with or without chi_b, and files in that format written by others are read with the same meaning, never with uninitialised numbers.",
 ["inputs", "configurations"],
 "All completed runs; all well-formed boozmn files (CDF-1/CDF-2).",
 "Tests compare files with the Fortran reference for 4 runs, skipping placeholders and flux data, and read back only with this library.",
 [S+"write_boozmn.cpp", S+"netcdf_writer.cpp", S+"read_boozmn.cpp"],
 [("nc.put sequence and dimension order reversal", S+"write_boozmn.cpp")],
 observe=["the file as seen by scipy.io.netcdf_file"])

add("C18", "Failing file operations are reported, leak nothing and are recoverable",
 "When a file is missing, truncated, not netCDF, lacks a required variable, has array sizes inconsistent with its dimensions, or cannot be written completely (no permission, disk or size limit), read_wout, read_boozmn and write_boozmn raise an exception rather than returning normally, crashing or using wrong data. "
 "No file descriptor stays open and the object remains usable for later valid calls. (Known exception: classic files cut inside the data section, whose missing numbers libnetcdf reads as 0.)",
 ["fault_sequences", "crash_points", "inputs"],
 "All truncation points, all single missing or resized variables, and all byte limits at which writing can fail.",
 "No test exercises any failing file operation.",
 [S+"netcdf_reader.cpp", S+"netcdf_writer.cpp", S+"read_wout.cpp", S+"read_boozmn.cpp", S+"write_boozmn.cpp"],
 [("return-code checks of every netCDF call", S+"netcdf_reader.cpp"), ("nc_close check", S+"netcdf_writer.cpp")],
 observe=["exceptions, process status, open descriptors"])

add("C19", "Command-line drivers are equivalent to each other and to the library",
 "For every valid input file, the Python and the C++ xbooz_xform write boozmn_<extension>.nc identical to what the library gives for mboz=max(requested, default), nboz=max(requested, default) and the sorted requested surfaces (all surfaces if none), with any whitespace layout and ignoring everything from the first non-integer token on. "
 "Wrong arguments print the usage message; unreadable input, wout files or surfaces out of range end in an error and write no output.",
 ["inputs", "configurations"],
 "All wout files with mpol>=1 as VMEC writes them, all token layouts (ASCII whitespace, plain decimal integers with optional sign), all surface lists, requested resolutions below and above default; error files.",
 "One CLI run and three parser cases are tested; the C++ executable is not compared with the Python one.",
 [P+"_cli.py", S+"driver.cpp", S+"xbooz_xform.cpp"],
 [("token parsing and max/sort rules", P+"_cli.py"), ("same rules in C++", S+"driver.cpp")],
 observe=["exit status, stdout, boozmn file"])

add("C20", "The printed accuracy report is truthful",
 "With verbose=1, run() prints for every transformed surface exactly one report: js_b, js, and |B| from the input and from the Boozer series at theta=0,pi and zeta=0,pi/nfp with their relative error (with nboz=0 the second line uses zeta=0). "
 "The printed numbers equal those values to the printed precision, for symmetric and asymmetric, axisymmetric and 3D data.",
 ["inputs", "configurations"],
 "All inputs, thread counts 1..n, any surface list.",
 "Nothing checks the printed report.",
 [S+"check_accuracy.cpp", S+"run.cpp"],
 [("evaluation of the series at 4 points", S+"check_accuracy.cpp")],
 observe=["stdout of run()"])

add("C21", "surfplot and wireplot draw the quantities they document",
 "surfplot draws |B| of output surface js on a grid over one field period 0<=phi<=2*pi/nfp and 0<=theta<=2*pi (both parities when asym), filled or not as asked, passing further options to matplotlib. "
 "wireplot draws the surface points (R,Z at toroidal angle zeta_B-nu) and exactly ntheta+1 and nphi+1 curves of constant angle for Boozer and (if asked) original angles, for the chosen or outermost surface.",
 ["inputs", "configurations"],
 "All completed runs (objects or boozmn files), all js, grid sizes, refine>=1, fill/surf/orig options.",
 "The only plot test calls each function once and checks nothing about the content.",
 [P+"plots.py"],
 [("series evaluation on a meshgrid", P+"plots.py")],
 observe=["data passed to matplotlib/plotly"])

add("C22", "symplot and modeplot draw the right modes, values and groups",
 "symplot draws each mode with |m|<=max_m and |n|<=max_n*nfp once (plus legend entries), modeplot draws the min(nmodes, available) modes largest at the outermost surface in decreasing order with their (m,n) labels; each line is that mode's bmnc_b versus s (or sqrt(s)), absolute value iff log. "
 "B0=False removes the (0,0) mode, remove_helicity=(M,N) zeroes exactly the modes with N*m = M*n, colours/labels group modes as documented, the default lower limit of a logarithmic axis is 1e-4 of the largest amplitude, and b is not modified.",
 ["inputs", "configurations"],
 "All completed runs or boozmn files, all option combinations including nmodes larger than the number of modes.",
 "The only plot test calls each function once and checks nothing about the content.",
 [P+"plots.py"],
 [("mode filters, sorting and grouping", P+"plots.py")],
 observe=["lines on the matplotlib axes"])

add("C23", "Python attributes transport data faithfully",
 "Assigning an input attribute from Python (any memory layout, dtype convertible without loss, lists or arrays) and reading it back gives the same values, and run() and init_from_vmec() use exactly these values. "
 "Output attributes cannot be assigned, values that an attribute cannot hold are refused, arrays returned by earlier reads and wrongly typed assignments never corrupt the object, and a new object starts from the documented defaults.",
 ["inputs", "histories"],
 "All array layouts (C/Fortran order, strided, negative strides, int/float32), all sizes including empty, every documented attribute.",
 "One test assigns a few arrays.",
 [S+"bindings.cpp", S+"booz_xform.cpp", S+"booz_xform.hpp"],
 [("def_readwrite/def_readonly bindings", S+"bindings.cpp"), ("defaults()", S+"booz_xform.cpp")],
 observe=["attribute values and exceptions in Python"])

add("C24", "Memory safety on every consistent input and every file",
 "No call of the library on consistent input (any documented sizes, including minimal ones such as mpol=1, ntor=0, ns=2, mboz=1, one mode) and no wout or boozmn file, however malformed, makes the library access memory out of bounds, use uninitialised or freed memory, overflow, or abort: calls succeed or raise an exception. (Crashes of libnetcdf itself on a corrupt file, with valid buffers passed to it, are outside this property.)",
 ["inputs", "fault_sequences", "histories"],
 "All consistent inputs built through the C++ API and all byte strings given as netCDF files.",
 "Tests are built without sanitizers and use four well-formed files.",
 [S+"init.cpp", S+"init_trig.cpp", S+"surface_solve.cpp", S+"init_from_vmec.cpp", S+"read_wout.cpp", S+"read_boozmn.cpp", S+"netcdf_reader.cpp", S+"write_boozmn.cpp"],
 [("array sizing and validation", S+"init_from_vmec.cpp")],
 observe=["AddressSanitizer/UBSan reports"])

add("C25", "Objects in one process are independent of each other",
 "Any number of Booz_xform objects can exist, be loaded, changed, run, written, read, copied (C++) and deleted in any interleaving: what one object returns, prints and writes is exactly what it would be if it were the only one in the process, also after calls on other objects failed, and also when one object's arrays are assigned to another. "
 "In C++, different objects may be loaded from memory and run at the same time in different threads without data races, and a copy of an object is independent of its original.",
 ["histories", "schedules", "inputs"],
 "All interleavings of operations on two or more objects (equal or different sizes, symmetry and resolution); concurrent init/run of different objects without file operations and with verbose=0.",
 "Tests use one object at a time and never two interleaved or concurrent ones; hidden shared state (static tables, caches keyed by size) gives right answers there.",
 [S+"booz_xform.cpp", S+"booz_xform.hpp", S+"run.cpp", S+"init.cpp", S+"init_trig.cpp", S+"surface_solve.cpp", S+"init_from_vmec.cpp", S+"bindings.cpp"],
 [("all state is held in members", S+"booz_xform.hpp"), ("work arrays of one surface", S+"surface_solve.cpp")],
 observe=["attributes, printed text and files of each object", "ThreadSanitizer reports"])

add("C26", "The C++ class gives what the Python package gives",
 "The documented C++ interface (class Booz_xform: members, read_wout, init_from_vmec, run, write_boozmn, read_boozmn), compiled with or without OpenMP, gives the results of the Python package for the same sequence of calls: the same loaded attributes and defaults, spectra equal to rounding error, the same boozmn contents, and an exception with the same message where Python raises one. "
 "Each side reads the other's boozmn files to the same attributes.",
 ["configurations", "inputs"],
 "All loads (members, init_from_vmec with and without flux arrays, read_wout with flux given or not), resolutions, surface lists, one or several runs, thread counts, and failing calls.",
 "The C++ unit tests cover init_trig and the driver only; no test compares the C++ class with the Python package or a build without OpenMP with one that has it.",
 [S+"booz_xform.hpp", S+"booz_xform.cpp", S+"run.cpp", S+"init_from_vmec.cpp", S+"bindings.cpp", S+"check_accuracy.cpp"],
 [("default arguments of init_from_vmec and read_wout", S+"booz_xform.hpp"), ("bindings of the same calls", S+"bindings.cpp"), ("#ifdef OPENMP branches", S+"run.cpp")],
 observe=["class members in C++ and attributes in Python", "boozmn files", "exception messages"])

add("C27", "Resolution only selects which amplitudes are computed",
 "mboz and nboz select which amplitudes are computed and how finely the integrals are sampled, nothing else: for a configuration resolved at two resolutions (at each, the integrals of the common modes are converged), the common amplitudes agree, whichever of the two is larger and whether or not the same object is used; G, I, s and all inputs do not depend on the resolution at all. "
 "For axisymmetric input all amplitudes with n!=0 vanish and the others do not depend on nboz, including nboz=0.",
 ["inputs", "configurations", "histories"],
 "All pairs of resolutions mboz>=1, nboz>=0, in particular one parameter changed alone, nboz=0 against nboz>0 for axisymmetric input, and lower after higher on one object.",
 "Every test uses one resolution per equilibrium.",
 [S+"init.cpp", S+"surface_solve.cpp", S+"run.cpp"],
 [("grid sizes from mboz, nboz", S+"init.cpp"), ("normalisation by the number of grid points", S+"surface_solve.cpp")],
 observe=["Booz_xform outputs at several resolutions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
print(len(props))
