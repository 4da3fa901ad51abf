#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=hook)))

APPS = ["ababe/cmdline/apps/occupymaker.py", "ababe/cmdline/apps/occupybiter.py",
        "ababe/cmdline/apps/occupytenter.py", "ababe/cmdline/apps/occupymakert.py"]
p("C01", "Occupation commands write each inequivalent structure exactly once",
  "When an occupation command (ocumaker, ocubiter, ocutenter, ocumakert) exits with status 0, the output directory it made holds exactly one complete, loadable file for every symmetry-inequivalent placement of the requested speckles that passes the requested primitive-cell and distance filters, and nothing else. "
  "This holds for every outcome of the random draws that name files and directories, for anything already present in the working directory, and under short reads and writes, clock jumps and a bounded supply of file descriptors.",
  ["inputs", "histories", "fault_sequences"],
  "every parent crystal and option set, every sequence of random name draws (including colliding ones), every prior content of the working directory",
  "No test runs a command; the generator tests check a handful of counts on three cells and never touch the naming, filtering and writing path, where a colliding draw (probable after ~1500 structures) silently replaces a structure.",
  APPS + ["ababe/cmdline/runabalib.py", "ababe/stru/sogen.py", "ababe/stru/scaffold.py", "ababe/stru/restriction.py", "ababe/io/io.py", "ababe/stru/io.py"],
  [("random file/directory suffix", "apps/occupy*.py App.run"), ("orbit set of hashed occupations", "stru/sogen.py gen_2nodup_gen/_update_isoset"),
   ("primitive and minimum-distance filters", "apps/occupy*.py App.run, stru/restriction.py")],
  [("out_dir", "directory of one run's structures", "apps/occupy*.py")],
  ["exit status", "files below the working directory"])
p("C02", "suplat writes each inequivalent superlattice exactly once",
  "When suplat exits with status 0, its output directory holds exactly one complete, loadable supercell file for every superlattice of the requested index (2D: in-plane only) that is distinct under the parent's point symmetry, each describing the parent crystal with the full number of atoms, and nothing else. "
  "This holds for every outcome of the random draws that name the files and for any earlier content of the output directory.",
  ["inputs", "histories", "fault_sequences"],
  "every primitive parent cell, index, dimension flag and output format, every sequence of name draws, every earlier content of the target directory",
  "Tests compare counts from the generator for two lattices; none runs the command, so lost files on colliding draws, stale files and wrong cell content are invisible.",
  ["ababe/cmdline/apps/superlattice.py", "ababe/stru/grid.py", "ababe/stru/scaffold.py", "ababe/io/io.py"],
  [("HNF enumeration and symmetry de-duplication", "stru/grid.py hnfs_from_n"), ("target directory replaced at start", "apps/superlattice.py App.run"),
   ("random file suffix", "apps/superlattice.py App.run")], [], ["exit status", "files below the working directory"])
p("C03", "Enumeration generators are exact in any consumption order",
  "The library's non-duplicate generators (whole cell, per element, per Wyckoff letter, ternary, level by level, speckled lattice grids, and the C60 ones) each yield exactly one representative of every symmetry class of the requested occupation, with all other sites untouched, and the generator's own equivalence test tells the same classes apart. "
  "This holds however their consumption is interleaved - with one another, across caller threads that use different generators of the same object, with level generators drained in any order, with some abandoned or closed early or their source raising - and whatever is derived from the structures already yielded.",
  ["schedules", "histories", "inputs"],
  "every interleaving of next/close/abandon over several live generators of shared objects, thread switches at any source line, every parent cell",
  "Tests drain one generator at a time, in creation order, and only compare counts.",
  ["ababe/stru/sogen.py", "ababe/stru/scaffold.py", "ababe/stru/buckyball.py"],
  [("lazy generators chained by itertools.tee", "stru/sogen.py all_speckle_gen*, stru/buckyball.py all_speckle_gen"),
   ("per-generator set of seen orbits", "stru/sogen.py gen_2nodup_gen, stru/buckyball.py to_nodup_generator"),
   ("shared permutation table", "stru/scaffold.py get_symmetry_permutation")],
  [("isoset", "hashes of every occupation equivalent to one already yielded", "stru/sogen.py, stru/buckyball.py")], ["values yielded"])
p("C04", "An acknowledged structure write reads back as what was written",
  "Once writing a structure to a file has returned (with fractional or Cartesian coordinates), reading that file gives the same lattice, sites and species (vacancies excepted in the VASP format) within the formats' rounding, also after the writing process dies at any later moment, until the file is written again. "
  "A write that failed or was cut short reads back as the old structure, the new one, or an error - never as some other set of atoms - and a later successful write is unaffected by it.",
  ["histories", "crash_points", "fault_sequences", "inputs"],
  "every history of writes, overwrites and reads over a few file names, with process death or an I/O error at any point of a write",
  "Tests write one file and compare the text inside the same process, where unflushed data is still visible and nothing ever fails.",
  ["ababe/io/io.py", "ababe/io/vasp.py", "ababe/io/yaml.py", "ababe/stru/io.py"],
  [("with-block around open/write closes before returning", "io/vasp.py, io/yaml.py, stru/io.py write"), ("format chosen from file name", "io/io.py")],
  [], ["structure returned by reading"])
p("C05", "A truncated structure file is never read as a smaller structure",
  "A structure file that lost its tail at any byte (torn write, full disk, interrupted copy) either fails to load, in the library and in every command, or loads with every atom of the complete file and the right species. "
  "A command given a truncated input never exits 0 having written structures with missing atoms.",
  ["fault_sequences", "inputs"],
  "every truncation point of every structure file ababe writes, read by the library and by every command",
  "Tests only read intact files.",
  ["ababe/io/vasp.py", "ababe/io/yaml.py", "ababe/stru/scaffold.py", "ababe/cmdline/runabalib.py"],
  [("number of positions must match number of species", "stru/scaffold.py GeneralCell.__init__"), ("required keys / header lines", "io/yaml.py, io/vasp.py from_string")],
  [], ["structure returned or exception", "exit status"])
p("C06", "Exit status 0 means complete output, whatever I/O fails",
  "If any file, directory or output-stream operation fails during any command (no space, I/O error, permission, descriptor limit, failing close, interrupted by Ctrl-C, out of memory, failing symmetry library), the command either ends with a non-zero status or has still produced its complete, correct output. "
  "No failure is ever swallowed into a success that misses or damages part of the output.",
  ["fault_sequences", "inputs"],
  "every single fault and short fault sequence, at every file-system, stream, random-draw and symmetry-library call of every command",
  "No test runs a command or injects a failure.",
  APPS + ["ababe/cmdline/apps/superlattice.py", "ababe/cmdline/apps/atomclarifier.py", "ababe/cmdline/apps/atomperturb.py", "ababe/cmdline/runabalib.py", "ababe/cmdline/runatilib.py", "ababe/io/io.py", "ababe/io/vasp.py", "ababe/io/yaml.py", "ababe/stru/io.py"],
  [("exceptions propagate to the entry point", "cmdline/runabalib.py run, cmdline/runatilib.py run")], [], ["exit status", "files and standard output"])
p("C07", "A command changes nothing but its own output target",
  "No command modifies, replaces or deletes anything that existed before it started - its input, other runs' output directories, any other file - except its own named target (suplat: SUPLAT_<comment>; atclear, perturb, supcell, pcell: their one output file), and it creates nothing outside that target. "
  "This holds at every instant, also when the command fails, is interrupted or is killed, and when random name draws hit existing names.",
  ["crash_points", "fault_sequences", "histories"],
  "every command, working-directory content, name-draw outcome and point of failure or death",
  "No test runs a command; the recursive delete on the output path is never executed by a test.",
  APPS + ["ababe/cmdline/apps/superlattice.py", "ababe/cmdline/apps/atomclarifier.py", "ababe/cmdline/apps/atomperturb.py", "ababe/cmdline/runatilib.py"],
  [("fresh directory per run", "apps/occupy*.py App.run"), ("rmtree limited to SUPLAT_<comment>", "apps/superlattice.py App.run")], [], ["working tree before and after"])
p("C08", "Re-running after a crash at any point gives the full result",
  "If a command is killed at any moment (with what it had not yet handed to the operating system lost, and possibly its unsynced files torn), running the same command again to completion exits 0 and yields exactly the complete output of an undisturbed run, unaffected by what the killed runs left behind. "
  "Any number of killed attempts may precede it.",
  ["crash_points", "histories"],
  "every command and every kill point, repeated kills, torn leftovers",
  "No test runs or kills a command.",
  APPS + ["ababe/cmdline/apps/superlattice.py", "ababe/cmdline/apps/atomclarifier.py", "ababe/cmdline/apps/atomperturb.py", "ababe/cmdline/runatilib.py"],
  [("fresh or replaced output directory", "apps/*.py App.run"), ("output files truncated on open", "io/vasp.py, io/yaml.py, stru/io.py")], [], ["output of the final run"])
p("C09", "Concurrent commands in one directory do not disturb each other",
  "Any number of commands run at the same time in one working directory, with different named targets (occupation commands always qualify, even with equal options and equal random draws), all exit 0 and each leaves exactly the complete output it would have produced alone, in a place of its own.",
  ["schedules", "inputs"],
  "every interleaving of the file-system operations of two or three commands, including equal random streams",
  "No test runs two commands at once.",
  APPS + ["ababe/cmdline/apps/superlattice.py", "ababe/cmdline/runatilib.py"],
  [("directory creation decides ownership", "apps/occupy*.py App.run"), ("random suffixes", "apps/occupy*.py App.run")], [], ["exit statuses", "working tree afterwards"])
p("C10", "perturb moves every atom by exactly the requested distance",
  "Perturbing a structure by a distance d, in the library or by the perturb command, displaces every atom by a Cartesian vector of length exactly d (up to rounding of the written file), each in its own direction, and keeps the lattice, number of atoms and species. "
  "This holds for every outcome of the random draws, including degenerate zero vectors.",
  ["inputs", "fault_sequences"],
  "every structure, distance and random-draw outcome (including repeated and zero draws)",
  "The test only checks that something changed, for one draw.",
  ["ababe/stru/scaffold.py", "ababe/cmdline/apps/atomperturb.py"],
  [("random unit vector scaled to d, redrawn when zero", "stru/scaffold.py ModifiedCell.perturb"), ("Cartesian translation of a site", "stru/scaffold.py translate_sites")], [], ["site positions", "file written by perturb"])
p("C11", "A random-walk arrangement is connected, repeat-free and full length",
  "For every outcome of the random draws, a random-walk arrangement on a grid (or any problem whose goal is reachable) terminates and returns exactly the requested number of distinct sites of the problem, beginning at the start site, each later site being a neighbour of an earlier one. "
  "Neighbours of a grid site are exactly the other sites within the distance threshold, also when there is one or none.",
  ["inputs", "fault_sequences"],
  "every sequence of draws (including extreme and repetitive ones), problem size and grid",
  "Two tests with one unseeded draw each, checking only the number of distinct sites.",
  ["ababe/mlearn/arrange.py", "ababe/mlearn/arrangeAgent.py", "ababe/mlearn/dsutils.py", "ababe/stru/scaffold.py", "ababe/stru/scaffold2d.py"],
  [("frontier with random pop", "mlearn/arrange.py random_walk_arrange"), ("KD-tree neighbour query", "stru/scaffold.py, scaffold2d.py get_neighbors")], [], ["returned path"])
p("C12", "RandomPopSet is a set whose random pop removes one present member",
  "Over any history of operations and any outcome of the random draws, a RandomPopSet has exactly the members a mathematical set would have (length, membership, iteration without repeats, set operators and comparison agree), random_pop returns a present member and removes just that one (None when empty), get_random returns a present member and removes nothing, and every present member can be drawn.",
  ["histories", "fault_sequences"],
  "every operation history and draw sequence",
  "Its test file shadows the class under test and fails for that reason; nothing is checked.",
  ["ababe/mlearn/dsutils.py"], [("item->index map and swap-with-last removal", "mlearn/dsutils.py RandomPopSet.discard")],
  [("map/list", "index of each member / members by index", "mlearn/dsutils.py")], ["public methods"])
p("C13", "Tree-search statistics stay exact over any game and failing callback",
  "Over any sequence of searches and moves, each playout starts from a fresh copy of the given state, at each step takes an action of maximal running-mean value plus prior-weighted exploration bonus as documented, and is counted once along its whole path with the documented mix of leaf value and rollout result; a search returns a most-visited action. "
  "Advancing by a move keeps exactly that move's subtree statistics (an unknown move starts afresh), and a playout aborted by an exception of a callback changes no statistics.",
  ["histories", "fault_sequences", "inputs"],
  "every game, policy, value function, parameter setting, history of moves by both sides, and callback failure point",
  "Nothing but an import covers this module.",
  ["ababe/mlearn/mcts.py"], [("select/expand/update_recursive", "mlearn/mcts.py TreeNode"), ("playout, rollout, re-rooting", "mlearn/mcts.py MCTS")],
  [("_n_visits,_Q,_u", "node statistics", "mlearn/mcts.py TreeNode")], ["calls received by the state and the callbacks", "chosen actions"])
p("C14", "Chained structure commands keep the crystal they describe",
  "Over any history of supcell, pcell and atclear commands fed with each other's output files, with some commands failing and being repeated, each success leaves the correct structure in its output: supcell the same crystal with scale-product times the atoms, pcell the same crystal in a primitive cell, atclear the same cell less exactly the atoms of the given element within the radius of a centre atom. "
  "The same text goes to standard output when that is selected.",
  ["histories", "fault_sequences", "inputs"],
  "every command history, input crystal and format, with I/O failures and short reads/writes between and inside commands",
  "Tests call the underlying methods once on one cell each; no command is run and nothing is chained through files.",
  ["ababe/cmdline/runatilib.py", "ababe/cmdline/apps/atomclarifier.py", "ababe/stru/clarifier.py", "ababe/stru/scaffold.py", "ababe/io/vasp.py", "ababe/io/yaml.py"],
  [("supercell construction", "stru/scaffold.py supercell"), ("primitive standardisation", "stru/scaffold.py get_refined_pcell"), ("site removal by periodic distance", "stru/clarifier.py, scaffold.py")], [], ["files and standard output"])
p("C15", "Random filling uses only the two species and can reach every pattern",
  "For every outcome of the random draws, randomly filling a grid gives a grid of the requested size in which every site holds either the base or the filling species, and every site takes either species under some outcome.",
  ["fault_sequences", "inputs"], "every size, species pair and draw outcome",
  "One draw of one size, checked only by a sum.",
  ["ababe/stru/scaffold.py"], [("random 0/1 mask", "stru/scaffold.py SitesGrid.random_fill")], [], ["resulting grid"])
p("C19", "Mutable cells and grids act as plain site sequences; copies are independent",
  "Over any history of edits made through any number of mutable cells and site grids (flat ones included) that were copied from one another, interleaved in any way and some of them failing or interrupted, each holds exactly the sites a plain list edited the same way would hold (length, order, indexing and slicing, iteration, membership, comparison, array views, conversion to a general cell and back, sites found or removed around a point in a cell of any shape, structures made over a grid), and every edit ends. "
  "An edit, translation or random perturbation of one copy never shows in another copy, in the cell, grid or arrays it was made from, or in a general cell made earlier; a failed edit leaves the sites as they were, or with those a failing source delivered.",
  ["schedules", "histories", "fault_sequences"],
  "every edit history over copies of copies, every interleaving of threads editing their own copies, every point at which an edit is interrupted",
  "One or two edits per test, never of a copy and its origin, never interrupted; a grid copy is compared but not edited.",
  ["ababe/stru/scaffold.py", "ababe/stru/scaffold2d.py", "ababe/stru/site.py", "ababe/stru/clarifier.py"],
  [("list of sites and its edits, copy, comparison", "stru/scaffold.py ModifiedCell"), ("grid copy and assignment", "stru/scaffold.py SitesGrid.deepCopy"), ("site removal", "stru/clarifier.py AtomRemoveClarifier")], [], ["sites of every holder after every step"])
p("C21", "A killed or failed enumeration leaves only right, distinct structures",
  "If an occupation command or suplat is killed, interrupted or fails at any moment, every file in its output directory except at most one (the one being written) is a complete structure that the full run would have written, no two describe the same structure, and nothing else is there. Files of an earlier suplat run never remain beside new ones.",
  ["crash_points", "fault_sequences"],
  "every command of this kind, every kill point and failing operation, every outcome of the name draws",
  "No test kills a command or lets an operation fail.",
  APPS + ["ababe/cmdline/apps/superlattice.py", "ababe/io/io.py"],
  [("one file per structure, written and closed before the next", "apps/*.py App.run"), ("earlier output removed before the first new file", "apps/superlattice.py App.run")], [], ["output directory after the end of the process"])
p("C22", "A refused command changes nothing",
  "A command whose input cannot be opened or read (missing, a directory, no permission, I/O error, interrupted), is not a structure, names an unknown element or is not primitive where it must be, or whose options are unusable, ends with a non-zero status and leaves the working directory as it was, earlier output under its own target name included; only an occupation command may leave one new, empty directory.",
  ["fault_sequences", "histories", "inputs"],
  "every command, every kind of unusable input and option, every failing operation on the input, with and without earlier output",
  "No test gives a command a bad input or looks at the directory afterwards.",
  APPS + ["ababe/cmdline/apps/superlattice.py", "ababe/cmdline/apps/atomclarifier.py", "ababe/cmdline/apps/atomperturb.py", "ababe/cmdline/runatilib.py", "ababe/cmdline/runabalib.py", "ababe/io/io.py"],
  [("input read and checked before the output is touched", "apps/*.py App.__init__"), ("primitive-cell check", "apps/superlattice.py App.__init__"), ("options checked by type", "cmdline/runabalib.py, cmdline/runatilib.py")], [], ["exit status", "working tree before and after"])
p("C23", "Commands of one process do not affect one another",
  "Any sequence of commands run inside one process - one after another or in caller threads, in the same directory or in others, some of them failing or interrupted, some given another file under a name used before, other options, or a structure easily taken for an earlier one - gives for each command that succeeds exactly the output it would give in a fresh process; no command changes what another wrote or anything outside its own target, and one that met no fault does not fail.",
  ["schedules", "histories", "fault_sequences", "inputs"],
  "every sequence and thread interleaving of commands, every failure or interruption between and inside them, every replacement of their inputs",
  "No test runs two commands in one process, replaces an input, or makes one command fail before another.",
  APPS + ["ababe/cmdline/apps/superlattice.py", "ababe/cmdline/apps/atomclarifier.py", "ababe/cmdline/apps/atomperturb.py", "ababe/cmdline/runatilib.py", "ababe/cmdline/runabalib.py", "ababe/io/io.py", "ababe/stru/sogen.py", "ababe/stru/grid.py", "ababe/stru/scaffold.py", "ababe/stru/restriction.py"],
  [("state of a command lives in its App object", "apps/*.py App.__init__"), ("input read anew by every command", "io/io.py GeneralIO.from_file"), ("working directory left alone", "apps/*.py run")],
  [("process", "working directory, module and class attributes, open files", "ababe.*")], ["exit status of each command", "its output", "working tree"])
# ---- not applicable to this technique
p("C16", "Symmetry permutations form the site action of the space group",
  "The permutation table of a cell is exactly the action of the cell's symmetry operations on its sites: one valid permutation per operation, closed under composition, each keeping species.",
  ["inputs"], "every cell", "One count for one cell.",
  ["ababe/stru/scaffold.py"], [("sites of the transformed cell matched to the sites", "stru/scaffold.py get_symmetry_permutation")])
p("C17", "Distance and space-group restrictions decide the periodic structure",
  "The minimum-distance restriction accepts a structure exactly if all periodic images of the element are farther apart than the limit, and the space-group restriction exactly if the structure's group is listed.",
  ["inputs"], "every structure and limit", "Two structures.",
  ["ababe/stru/restriction.py"], [("2x2x2 supercell pair distances", "stru/restriction.py")])
p("C18", "Element symbols and atomic numbers map one to one",
  "Symbol to number and back is the identity for every supported element, with 0 the vacancy.",
  ["inputs"], "every element", "Two elements.", ["ababe/stru/element.py", "ababe/stru/pt.json"], [("table lookup", "stru/element.py")])
p("C20", "Grid structures convert to cells faithfully",
  "A grid structure's cell has the grid's sites, species and scaled lattice; and the disjoint-speckle test agrees with periodic geometry.",
  ["inputs"], "every grid", "A few grids.", ["ababe/stru/scaffold.py"], [("get_cell, is_speckle_disjunct", "stru/scaffold.py")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
