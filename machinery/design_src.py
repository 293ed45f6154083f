"""Writes DESIGN.md: fixed text below plus the lists kept elsewhere (sub-checks with their numbers, findings, planted bugs)."""
import importlib, json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/machinery", V + "/checks"]

HEAD = """# Verification of QDng by property-based testing and fuzzing

(Generated by `machinery/design_src.py`; the sub-check numbers, findings and planted bugs are taken from the checks,
`known_findings.json` and `seeded/`.)

## Machinery

* `machinery/build.py` compiles /repo's **current** sources (source lists taken from the repository's Makefile.am
  files) with ninja into `build/opt` (as shipped, -O1 -fopenmp) and `build/asan` (address + bounds/null/vptr
  sanitizers). Nothing is written to /repo. Incremental: a second check only recompiles what changed.
* `harness/qdrv.cc` + `drv_*.cc`: a fork server exposing the library's public interfaces (wave functions, operators,
  propagators, files, buffer, memory manager, parameter containers, linear algebra, FFT, parsers) as commands over a
  pipe. Every generated case runs in its own forked child: no state leaks between cases, and a crash, a hang or a
  sanitizer report is an observable outcome of the case. Program level properties run the real `qdng`, `qdz`,
  `qdinfo`, `qds2qdi` binaries in scratch directories that are removed afterwards.
* `machinery/runner.py`: Hypothesis generates and shrinks JSON cases (`database=None`, seed derived from VERIF_SEED,
  so a run is a function of seed, tier and tree); amplitudes are a pure function of drawn integers. Work is sharded
  over processes. A failing case is shrunk, repeated three times, stored in `replays/` and reported as
  `VIOLATION property=.. replay=..` (`check.py Cxx --replay FILE` runs it again). Evidence goes to
  `evidence/<id>.json` with measured counts, the distribution of classes and samples of the cases.
* Generators shared by the checks: `checks/common.py` (wave function shapes and contents), `oplib.py` (every operator,
  its parameters, its input file form and its **dense numpy matrix**), `optree.py` (compositions of operators),
  `prop.py` (propagator set-ups, fields, clocks), `filt.py` (filter chains).
* The oracle is always independent of the code: numpy/scipy reference formulas written from the documentation,
  a model (list, dictionary, accounting, session), round trips, or the agreement of two independent paths of the
  program. The checks judge behaviour (numbers, files, exit status, answers), never source text.
* Fault injection: damaged and truncated files (C03, C07, C26), missing temporary directory, lost temporary files,
  exhausted memory (C04, C06), incomplete series (C21), diverging runs (C19), wrong commands (C28).
* Tiers: quick = first number of a sub-check below, thorough = second (about 20-50 times as many cases).
  Quick checks need 10-100 s on 8 cores, including the build.

Why this reaches what the tests cannot: the 117 tests run one hand-picked input each and compare printed digits. The
checks quantify over shapes, contents, parameters, compositions, histories and damage, and compare with a reference
for each of them. The %d genuine defects found this way were repaired (list below).

Limits of the family: the checks establish nothing beyond the explored inputs. Thread interleavings (C27) are sampled,
not controlled: a rare race may be missed. The memory manager built with NDEBUG pooling is not the one the build
produces and is not tested. Everything runs in finite arithmetic: equality is bitwise where the code copies data, and
otherwise up to bounds derived from the conditioning of the case.

## Properties: how each is decided
"""

HOW = {
"C01": ("Round trip through files, in fresh and existing objects, both formats, all kinds; a lossy sub-check bounds each real and imaginary part by the tolerance. Oracle: the numbers that were written (numpy), the metadata parsed independently.",
        "A stale stream file left under the name of a newly written binary multistate function is excluded (the documentation does not say who removes it)."),
"C02": ("Round trip potential/matrix/laser, then stored again in another format and read again; metadata numbers parsed in Python, bit-identical.", ""),
"C03": ("Structured mutation fuzzing of stored files under AddressSanitizer: truncation, bit flips, extreme lengths, deleted/duplicated/zeroed ranges, edited metadata. Oracle: an error, or an object all of whose values are present in the file, complete.",
        "The formats carry no checksum: changed amplitudes cannot be noticed and are not claimed."),
"C04": ("Stateful model-based generation: operation histories against a Python list, with limits that force spilling, asan build; `faults` removes or truncates temporary files or exhausts the memory during the history; protected references are re-read bit for bit after each operation.",
        "Unspecified and not claimed: the content of a position while it is being overwritten when memory runs out; whether accesses made before a change of the automatic lock depth count."),
"C05": ("Stateful model-based generation against a dictionary of typed values; write/parse round trip; documents with junk lines.", ""),
"C06": ("Stateful model-based generation against a reference accounting; every live block carries a pattern that is checked after each operation; texts with units against an independent parser.", ""),
"C07": ("qdz/qdinfo run as programs on generated files; metamorphic: any order of methods within the tolerance of the original; output of qdinfo parsed.",
        "Unknown command line options are ignored by design (an existing unit test pins it)."),
"C08": ("Histories of vector space operations against numpy after every step, operands bitwise unchanged.", ""),
"C09": ("Every helper against numpy/scipy or its residual equation (A v = w v, orthonormality, order).", ""),
"C10": ("numpy.fft and explicit DFT matrices; histories of real/momentum space switches tracked by a model of the representation, with different planning modes.", ""),
"C11": ("Each way of calling an operator against one dense matrix per operator; histories with repeated and re-initialised operators; incompatible pairs must be refused. Uses the destination's old content as part of the case.",
        "The clause about copies of an operator was dropped: `Operator::Copy` is unused and documented only for some classes."),
"C12": ("The program's own matrix is collected column by column; hermiticity, flag and the announced range are decided on its eigenvalues.", ""),
"C13": ("Dense derivative matrices (spectral from the DFT with the Nyquist convention, finite differences from the central stencils by solving the Vandermonde system).", ""),
"C14": ("Element-wise evaluation of the documented formula.", "Flux is compared in its three documented forms; a `GridDipole scale` finding is recognised by its exact result."),
"C15": ("Trees of compositions against the same algebra of dense matrices, with actions (apply, add, expectation, step, re-init) in between; shared members and keys.", ""),
"C16": ("Histories of clock movements in any order; field value of the step from the generated samples; pulses against the formula; setting of fields.", ""),
"C17": ("scipy.linalg.expm of the dense Hamiltonian of each step; order of split operator and RK4 from the ratio of errors at dt and dt/2; the range announced; conservation over many steps.", ""),
"C18": ("Histories mixing steps, direction and mode switches against expm of H, H+ and exp(-H dt); `adjoint` applies the Hamiltonian after the switch; round trips within the method's accuracy; decay/relaxation.",
        "`adjoint` excludes PML, Kick and the chain-rule G-matrix (no adjoint defined in the code or documentation)."),
"C19": ("Program runs against the library stepped through the driver; tables, spectra, metadata and files; metamorphic: restart, other write cycle, other reporting, diverging runs.",
        "Either conjugation of <Psi0|PsiT> is accepted (the text does not fix it). The filter `Gobbler residue` option is excluded."),
"C20": ("Direct diagonalisation (numpy) of the same dense Hamiltonian; Ritz conditions, residuals, orthonormality, order, file/energy correspondence.",
        "For method ac the default window and peak search are claimed to their resolution only."),
"C21": ("Chains of filters modelled in numpy on stored series, and on the program's own propagation; table order and times.",
        "States reduced to nothing (norm 0 after an operator) are skipped."),
"C22": ("Overlaps of wave functions stepped through the library or by dense matrices (operators with fields at the times of the cycles); bitwise layout of the result; baselines computed, written and read.",
        "Unclaimed: write cycles beyond the number of steps, a MaxBufferSize below four wave functions."),
"C23": ("Dense propagations in the fields the run writes; each method's update equation evaluated in numpy; guaranteed gain of the Krotov/Rabitz theory up to O(dt).",
        "Unclaimed: scale of lasers within OCT, products containing a dipole, Raman, the laser objective of freq and rabitzfb. Krotov's laser objective is accepted in two forms. Operator targets with an absorber and a vanishing target state are skipped. For several targets only the gain of the weighted sum (a Cauchy-Schwarz weak form) is claimed."),
"C24": ("Descriptions interpreted by a Python model on the stored amplitudes; invalid ones must be refused.", "Unclaimed: normalising a zero state; fewer coefficients than entries of a state map."),
"C25": ("An independent implementation of the language (lexer, grammar, evaluation) as reference, valid and damaged programs; metamorphic: equivalent inputs give the same files bit by bit.",
        "Unclaimed: undefined variables, the same name on command line and in the file, numbers beyond 1e9, format widths above 99."),
"C26": ("Mutation fuzzing of complete valid inputs under asan; outcome must be success with its closing line or a message with failure status. `certain` adds errors that must be refused; `huge` uses a 2 GB address space limit.",
        "Inputs naming paths outside the working directory are skipped (the program may write there); time limits with huge loop counts are no violation."),
"C27": ("Metamorphic: two runs of the program which must agree to rounding (other thread count, repeated, wisdom, before/after/twice/sibling blocks in one input; large wave functions in the library).",
        "Results that also change when the inputs are perturbed by 1e-14 are ill-conditioned and skipped; eigenvectors are compared by their energies; blocks sharing an OCT field are skipped."),
"C28": ("Stateful model-based generation: a client speaks the protocol over the FIFOs of a real session; every answer against the same calculation in the library; wrong commands must be answered with an error message (which may end the session orderly).",
        "The mode with `-` (stdin/stdout) mixes log text into the answers and is unclaimed."),
}

def main():
    k = json.load(open(V + "/known_findings.json"))
    out = [HEAD.replace("%d", str(len({f.split()[2] for f in k["fixed"]})))]
    titles = {}
    for l in open(V + "/properties.jsonl"):
        d = json.loads(l); titles[d["id"]] = d["title"]
    for c in sorted(titles):
        m = importlib.import_module(c.lower())
        how, lim = HOW[c]
        out.append(f"\n### {c} {titles[c]}\n\n{' '.join(m.__doc__.split())}\n\n{how}\n")
        if lim:
            out.append(f"\nLimits: {lim}\n")
        out.append("\n" + "; ".join(f"`{s.name}` {s.n[0]}/{s.n[1]}" for s in m.SUBS) + " cases (quick/thorough).\n")
    out.append("\n## Known findings (not repaired)\n\nRecognised by exactly the wrong result described, so any other violation is still reported.\n\n")
    for f in k["findings"]:
        out.append(f"* `{f['id']}` ({f['property']}): {f['what']}\n")
    out.append("\n## Repaired defects\n\n")
    for f in k["fixed"]:
        out.append(f"* {f[7:]}\n")
    out.append("\n## Planted bugs\n\nEach was confirmed in a scratch build (tests pass, demo passes unchanged and fails with it). Catching check in brackets.\n\n")
    for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
        m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
        out.append(f"* `{i}` [{m.get('caught_by', m['property'])}]: {m['what_it_breaks']} (needs {m['needs']})\n")
    out.append(open(V + "/machinery/notes.md").read() if os.path.exists(V + "/machinery/notes.md") else "")
    open(V + "/DESIGN.md", "w").write("".join(out))

main()
