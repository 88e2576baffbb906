#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

p("P01", "Compiled kernels never leak, double-free or use freed heap memory",
  "Every block of heap memory that a compiled kernel allocates is released exactly once on every way out of the kernel, including early returns and error returns, or is handed to the caller through a constructor whose every caller releases it. No block is released twice, and no block is read, written or passed on after its release.",
  ["inputs", "programs"], "every path through every C kernel, for all inputs and all mesh sizes, in both build configurations",
  "The tests run each kernel on a few small crystals and observe only returned numbers; a leak or a stale pointer on an error branch or a rarely used option leaves those numbers intact.",
  ["c/*.c"], [("malloc/free pairing per function", "c/*.c"), ("Darray/RecgridGrid ownership helpers", "c/phononcalc.c, c/recgrid.c, c/bzgrid.c, c/_phono3py.cpp")])
p("P02", "Results do not depend on the number of threads: kernels have no data race",
  "Two iterations of a parallel kernel loop never write the same memory location, and no iteration reads a location another iteration of the same loop writes, except through a declared reduction. Scratch variables and scratch buffers used inside a parallel loop belong to a single iteration or thread.",
  ["schedules", "inputs"], "every thread schedule and thread count of every parallel loop",
  "A data race shows up only under particular interleavings and large meshes; the tests compare a few numbers with loose tolerances, often with loops too short to be split.",
  ["c/*.c"], [("#pragma omp parallel for loops", "c/*.c")])
p("P03", "Grid, triplet and index arithmetic is done in 64 bits throughout",
  "Every grid-point index, triplet index, array offset and element count handled by the compiled kernels, and every integer array exchanged between Python and the kernels, is kept in 64-bit integers (or pointer-size ones) from entry to use. No such value passes through a narrower integer type or through an arithmetic expression evaluated in a narrower type.",
  ["inputs"], "all mesh sizes and numbers of atoms, including those whose products exceed 2**31",
  "Tests use meshes of at most a few thousand points; a 32-bit product or variable gives identical results there and overflows only for production-size meshes.",
  ["c/*.c", "c/*.h", "c/*.cpp", "phono3py/**/*.py"], [("int64_t declarations and products", "c/*.c"), ("dtype='int64' arrays", "phono3py/**")])
p("P04", "Compiled kernels stay inside their scratch buffers and fixed-size arrays",
  "For all sizes, every access a compiled kernel makes to a scratch buffer it allocated, or to a fixed-size local or static array, lies within the allocated extent, including the accesses made by the functions the buffer is handed to. Multi-dimensional data stored flat are addressed with one and the same row-major layout everywhere they are written or read in a kernel.",
  ["inputs"], "all mesh sizes, numbers of bands, atoms, temperatures and frequency points",
  "An out-of-bounds access or a stride mix-up that only bites when the number of bands in the request differs from the total number of bands, or when extents differ, is invisible for the sizes in the tests.",
  ["c/*.c"], [("malloc sizes and flat index polynomials", "c/*.c")])
p("P05", "Arrays given to compiled kernels have the element type and layout read there",
  "Whenever Python code hands an array to a compiled kernel, the array is C-contiguous and its element type is the one the kernel reinterprets the buffer as. Temporary copies are never handed over as output arguments, and each call passes exactly the arguments that the kernel entry point declares.",
  ["inputs", "configurations"], "every call site of every kernel entry point, whatever options lead there",
  "The bindings accept any buffer without checking; a wrong dtype or a strided view is silently misread, and only the call sites and argument shapes that tests happen to reach are exercised.",
  ["phono3py/**/*.py", "c/_phono3py.cpp", "c/_phononcalc.cpp", "c/_recgrid.cpp"], [("_phono3py / _phononcalc / _recgrid calls", "phono3py/**"), ("nanobind wrappers", "c/_*.cpp")])
p("P06", "Each quantity reaches the parameter that is meant for it",
  "In every call between Python functions, from Python into compiled kernels, and between compiled functions, a quantity that carries the name of one of the callee's parameters is passed to that parameter and not to another one. In particular two arguments of the same kind (two frequencies, two cutoffs, masses and multiplicities, mesh and band indices) are never interchanged.",
  ["inputs", "configurations"], "every call site in the Python package and in the C sources",
  "Interchanged arguments of the same type run without error and, on symmetric or default inputs, often yield the same numbers; many call sites belong to modes no test runs.",
  ["phono3py/**/*.py", "c/*.c", "c/*.cpp"], [("call sites with positional arguments", "phono3py/**, c/**")])
p("P07", "Grid addresses are never mixed between the two grid-index conventions",
  "A grid point given in the Brillouin-zone numbering is never used where the regular-grid numbering is required, nor the other way round, without the documented conversion; and a position in a list of irreducible points is never used as a grid point. This holds for every lookup of frequencies, eigenvectors, weights and mappings, and for every value a user gives or gets as grid point.",
  ["inputs", "configurations"], "all meshes, symmetry settings and grid points",
  "Both numberings agree for the first grid points and on meshes without boundary points, so mix-ups give correct numbers for the grid points the tests choose.",
  ["phono3py/phonon/grid.py", "phono3py/phonon3/*.py", "phono3py/conductivity/*.py", "phono3py/cui/*.py"], [("bzg2grg / grg2bzg / rotations", "phono3py/phonon/grid.py")])
p("P08", "Results are filed under their own smearing, temperature, grid point and band",
  "In every result array sampled over smearing widths, temperatures, grid points, frequency points or bands, the entry at given indices belongs to that smearing, temperature, grid point, frequency point and band. A result is computed and filed for every requested combination: no entry is skipped because of the value of an earlier one.",
  ["inputs", "configurations"], "any number and order of smearing widths, temperatures, grid points and bands",
  "The tests mostly use one smearing and one temperature, for which interchanged indices, a loop left too early or a value reused from the previous round are invisible.",
  ["phono3py/conductivity/*.py", "phono3py/phonon3/*.py", "phono3py/file_IO.py"], [("loops over sigmas/temperatures/grid points", "phono3py/conductivity/*.py, phono3py/phonon3/*.py")])
p("P09", "Every command-line option and configuration tag takes effect, alike",
  "Each option the command line accepts reaches the settings of the run, and setting the same thing in a configuration file has the same effect. No option or tag is parsed and then dropped, and no option stores its value under another option's setting.",
  ["configurations"], "every command-line option and configuration tag",
  "Tests drive the command with a handful of options; an option that is accepted and ignored produces an ordinary successful run.",
  ["phono3py/cui/phono3py_argparse.py", "phono3py/cui/settings.py"], [("argument parser", "phono3py/cui/phono3py_argparse.py"), ("conf parser and settings", "phono3py/cui/settings.py")])
p("P10", "User settings reach the calculation unchanged in every run mode",
  "A setting or parameter that the user gives is forwarded to every internal stage that takes it, in every run mode: it is not replaced by a default, by another setting, or by a constant on the way. A stage that accepts an option of the same name as one its caller received from the user gets the value the user gave.",
  ["configurations"], "every run mode and every combination of options",
  "There are several thousand option combinations; the tests run a dozen, and a dropped option just yields the result for its default value.",
  ["phono3py/cui/*.py", "phono3py/api_phono3py.py", "phono3py/api_jointdos.py", "phono3py/api_isotope.py", "phono3py/conductivity/*.py"], [("keyword forwarding through API layers", "phono3py/api_phono3py.py")])
p("P11", "Every dataset in an output file holds the quantity it is named after",
  "In each HDF5, YAML or text file written, a dataset or field named after a quantity contains that quantity for the run at hand: quantities of like shape are never interchanged between fields, and a quantity the run computed and the file has a field for is written. The same holds for reading: a value read from a named field is delivered as that quantity.",
  ["configurations", "inputs"], "every output file and every option that adds fields to one",
  "File output is mostly untested (under a fifth of the I/O code is executed) and when it is, tests check that files exist rather than what each field holds.",
  ["phono3py/file_IO.py", "phono3py/conductivity/utils.py", "phono3py/phonon3/*.py"], [("HDF5 writers and readers", "phono3py/file_IO.py"), ("conductivity output", "phono3py/conductivity/utils.py")])
p("P12", "Result files written by one run can be found and read back by another",
  "For every kind of result that a later run can read back, the file name built by the reader from given mesh, grid point, band, smearing, cutoff and user suffix equals the one built by the writer, and distinguishing parameters always enter the name, so that results of different parameters never overwrite each other. Every dataset the reader requires is one that the writer writes.",
  ["histories", "configurations"], "every writer/reader pair and every combination of file-name parameters",
  "Tests write with the default parameters and rarely read back; a missing component of the file name or a changed dataset name shows only in multi-step workflows over several grid points, smearings or bands.",
  ["phono3py/file_IO.py", "phono3py/conductivity/utils.py"], [("_get_filename_suffix and read_/write_ pairs", "phono3py/file_IO.py")])
p("P13", "Information saved in phono3py.yaml is restored on loading",
  "Saving a calculation to phono3py.yaml and loading it again gives back the same cells, supercell and primitive matrices, calculator, non-analytical-term parameters, and the same displacement dataset: atoms, displacements, forces, energies, pair distances, cutoff, duplicates and the flags telling which pairs are included. Each is written with enough digits and read back from where it was written into the datum it came from, for each dataset format, with or without forces, and with or without a separate harmonic supercell.",
  ["histories", "inputs"], "all dataset types, calculators and options of saving",
  "Round trips are tested on a few files of one dataset type; keys used only for other formats are never read back in a test.",
  ["phono3py/interface/phono3py_yaml.py"], [("Phono3pyYamlDumper / Phono3pyYamlLoader", "phono3py/interface/phono3py_yaml.py"), ("load, parse_forces", "phono3py/cui/load.py, phono3py/cui/create_force_constants.py")])
p("P14", "Changing an input discards the results derived from the old value",
  "When a user replaces an input of a calculation object (mesh, force constants, masses, NAC parameters, dynamical matrix, grid point, smearing, temperatures or dataset), any stored result computed from the old value is discarded or recomputed before it can be used again. A calculation object used for a second grid point or smearing never returns values left over from the first.",
  ["histories"], "every sequence of setter and run calls on one object",
  "Tests create a fresh object and call each setter once; stale results need a second assignment on the same object.",
  ["phono3py/api_phono3py.py", "phono3py/phonon3/*.py", "phono3py/conductivity/*.py"], [("property setters and set_/init_ methods", "phono3py/api_phono3py.py, phono3py/phonon3/interaction.py")])
p("P15", "Using a calculation before its prerequisites are set raises a clear error",
  "Public operations that need force constants, a mesh, phonon-phonon interaction, displacements or forces check that these are present and raise an error naming what is missing before doing any work. A check tests the very object that is used afterwards, with the right polarity.",
  ["histories", "inputs"], "every order of public calls",
  "Tests follow the documented order of calls; the missing-prerequisite paths are hardly ever executed.",
  ["phono3py/api_phono3py.py", "phono3py/api_jointdos.py", "phono3py/api_isotope.py"], [("guards of run_/init_/generate_/produce_ methods", "phono3py/api_phono3py.py")])
p("P16", "Arrays and dictionaries supplied by the caller are not modified",
  "A public function, method or property setter does not change the contents of an array, list or dictionary that the caller passes in or that a getter handed out earlier, unless changing that argument is its documented purpose.",
  ["inputs", "histories"], "every public entry point and any reuse of its arguments",
  "Tests pass fresh arguments and do not look at them afterwards; a user who runs two calculations with the same dataset or q-direction gets a wrong second result.",
  ["phono3py/**/*.py"], [("in-place operations on parameters", "phono3py/**")])
p("P17", "Acoustic modes at Gamma and zero temperature never yield NaN or infinity",
  "Phonon modes with frequency at or below the cutoff frequency are excluded before any division by a frequency or by an occupation factor, and the zero-temperature limit is used where a formula is singular at zero temperature, in every calculation of interaction strength, linewidth, self-energy, isotope scattering, heat capacity and conductivity.",
  ["inputs"], "all grid points including Gamma, all temperatures including zero, and modes with zero or imaginary frequencies",
  "Tests use stable crystals at 300 K and compare selected bands; a missing guard yields NaN only for particular grid points or temperatures.",
  ["c/interaction.c", "c/reciprocal_to_normal.c", "c/imag_self_energy_with_g.c", "c/collision_matrix.c", "c/isotope.c", "phono3py/phonon3/*.py", "phono3py/conductivity/*.py"], [("cutoff_frequency comparisons", "c/*.c, phono3py/**")])
p("P18", "Equal inputs give equal results: no hidden randomness or global state",
  "Apart from documented random displacements without a seed, results depend only on the inputs and options: no calculation reads the clock, the process environment, unordered containers, uninitialised memory or mutable module-level state, and a given random seed determines the generated displacements.",
  ["histories", "configurations"], "all repeated runs in one or several processes",
  "A test observes one run; order dependence on hashing or on what ran before shows only across processes or call histories.",
  ["phono3py/**/*.py", "c/*.c"], [("random displacement generation", "phono3py/api_phono3py.py")])
p("P19", "No accepted usage dies with an internal naming or call error",
  "On every path through the Python package, variables and object attributes are defined before they are used, called functions exist, and calls match the signature of what they call. An accepted combination of options never ends in a NameError, UnboundLocalError, AttributeError for a missing member, or a TypeError for a wrong call.",
  ["programs", "configurations"], "every path of every function of the Python package",
  "Python resolves names at run time and only a part of the package is executed by the tests (a quarter of several modules).",
  ["phono3py/**/*.py"], [("whole Python package", "phono3py/**")])
p("P20", "Errors are reported, never swallowed, and scripts exit with failure status",
  "When a command-line run stops because input is missing, unreadable or inconsistent, it says so and ends with a non-zero exit status, and it does not write results. Exceptions raised while reading input or computing are not caught and discarded, and rejected input is not treated as if it were absent.",
  ["fault_sequences", "configurations"], "every failure branch of the command-line programs and of the file readers",
  "The tests exercise successful runs; the exit status after a failure is not looked at.",
  ["phono3py/cui/*.py", "phono3py/file_IO.py", "phono3py/scripts/*.py"], [("error branches of the command-line modules", "phono3py/cui/*.py")])
p("P21", "Verbosity and requests to write files do not influence results",
  "The verbosity level only decides what is printed, and options that request writing a file only decide whether the file is written; neither changes computed values, stored state that later steps use, or which calculations are made for the requested result.",
  ["configurations"], "every verbosity level and write option in every run mode",
  "Tests run nearly always silently and without optional output, so a computation moved under a verbosity test would be missed on one side only.",
  ["phono3py/**/*.py"], [("blocks conditioned on log_level / is_verbose / write_* flags", "phono3py/**")])
p("P22", "Fortran and C interfaces of the grid library match the implementation",
  "Each entry point of the public grid library has the same number, order, kind and constness of arguments in its C header, its C definition and its Fortran interface block, and each public C entry forwards its arguments to the routine of the same purpose in the declared order.",
  ["programs"], "every public entry point of the grid library",
  "No test calls the library through the Fortran module, and mismatched interfaces link without complaint.",
  ["c/gridsys.c", "c/gridsys.h", "fortran/gridsysf.f90"], [("bind(c) interface blocks", "fortran/gridsysf.f90"), ("gridsys_* functions", "c/gridsys.c")])
p("P23", "Conductivity includes every requested scattering mechanism exactly once",
  "Whatever solver, transport model, smearing method and grouping of grid points is used, the linewidth that enters the conductivity is the sum of phonon-phonon, isotope and boundary contributions, each included exactly once if requested and not at all otherwise. Normal and Umklapp parts, when asked for, add up to the total.",
  ["configurations"], "every solver, transport model and combination of scattering options",
  "Isotope and boundary scattering are tested with one solver and one transport model each; other combinations run code no test reaches.",
  ["phono3py/conductivity/base.py", "phono3py/conductivity/rta.py", "phono3py/conductivity/direct_solution.py"], [("_get_main_diagonal / gamma accumulation", "phono3py/conductivity/*.py")])
p("P24", "Public attributes expose the data they are named after",
  "Reading a public attribute of a calculation object returns the data of that name held by that object, setting it stores the given value there, and an attribute, deprecated accessor or keyword offered as an alias gives exactly what the current name gives.",
  ["programs", "histories"], "every public property, accessor and alias",
  "Over three hundred accessors exist, and only those that tests happen to read are checked, often only for shape.",
  ["phono3py/**/*.py"], [("property getters and setters", "phono3py/**")])

# ---- properties of the system that static analysis cannot decide ----
p("P30", "Every triplet conserves crystal momentum and covers the full grid once",
  "For each first grid point the list of irreducible triplets contains only triplets whose sum is a reciprocal lattice vector, and the weights of each list sum to the number of grid points.",
  ["inputs"], "all crystal structures, meshes and symmetry operations", "Checked on a few meshes of cubic crystals.",
  ["c/triplet_grid.c", "phono3py/phonon3/triplets.py"], [("triplet search", "c/triplet_grid.c")])
p("P31", "Conductivity tensors are invariant under the crystal point group",
  "The computed lattice thermal conductivity tensor is symmetric, positive semidefinite and invariant under the rotations of the crystal.",
  ["inputs"], "all crystals and meshes", "Numbers of a few cubic and one hexagonal crystals are compared.",
  ["phono3py/conductivity/*.py"], [("kappa accumulation", "phono3py/conductivity/rta.py")])
p("P32", "The collision matrix is symmetric and has no negative decay rates",
  "The symmetrised collision matrix is symmetric and positive semidefinite up to rounding, for all grids and temperatures.",
  ["inputs"], "all crystals, meshes and temperatures", "One or two crystals on tiny meshes are run.",
  ["c/collision_matrix.c", "phono3py/conductivity/direct_solution.py"], [("collision matrix", "c/collision_matrix.c")])
p("P33", "Force constants obey permutation symmetry and translational invariance",
  "After symmetrisation, second- and third-order force constants are invariant under index permutation and satisfy the acoustic sum rules to rounding, in full and in compact form alike.",
  ["inputs"], "all supercells and force sets", "Tests compare a few stored arrays.",
  ["c/fc3.c", "phono3py/phonon3/fc3.py"], [("fc3 symmetrisation", "c/fc3.c")])
p("P34", "Tetrahedron weights integrate to one and agree with the analytical limit",
  "For any frequencies at the vertices, the tetrahedron integration weights are non-negative and sum to the exact volume fraction.",
  ["inputs"], "all vertex frequencies, including degenerate ones", "A few structures are compared with stored numbers.",
  ["c/tetrahedron_method.c"], [("weight formulae", "c/tetrahedron_method.c")])
p("P35", "Full and symmetry-reduced calculations give the same results",
  "Linewidths and conductivities computed with mesh symmetry equal those computed without, for every crystal.",
  ["inputs", "configurations"], "all crystals, meshes and symmetry settings", "One crystal is compared on a small mesh.",
  ["phono3py/phonon3/*.py", "phono3py/conductivity/*.py"], [("symmetry reduction", "phono3py/phonon/grid.py")])
p("P36", "The alternative solver back ends give the same pseudo-inverse",
  "Diagonalisation back ends and the C and Python implementations of the same quantity agree to rounding.",
  ["inputs", "configurations"], "all matrices", "Only one back end is built in the test environment.",
  ["phono3py/conductivity/direct_solution.py"], [("pinv solver dispatch", "phono3py/conductivity/direct_solution.py")])
p("P37", "Displaced supercells determine all force constants",
  "The displacements generated for a crystal suffice to determine every element of the force constants allowed by symmetry.",
  ["inputs"], "all crystal symmetries", "A few crystals are tested.",
  ["phono3py/phonon3/displacement_fc3.py"], [("pair displacement search", "phono3py/phonon3/displacement_fc3.py")])
p("P38", "Smith and Niggli reductions return unimodular, correct transformations",
  "For every integer grid matrix the Smith normal form satisfies D = P A Q with unimodular P, Q and the Niggli reduction returns a reduced basis of the same lattice.",
  ["inputs"], "all integer matrices and lattices", "A finite sample of matrices is tested.",
  ["c/snf3x3.c", "c/niggli.c"], [("snf3x3, niggli_reduce", "c/snf3x3.c, c/niggli.c")])
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
open("/verif/properties.jsonl", "w").write("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
