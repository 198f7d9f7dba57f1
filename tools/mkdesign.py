"""Writes /verif/DESIGN.md: design_head.md, one section per property (from the check modules and NOTES below), the planted
bugs and the findings."""
import ast, json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
# id: (oracle, domain decisions, why beyond the tests)
NOTES = {
"C01": ("sample-by-sample convolution of every recorded source channel with the recorded path, written with plain loops (mc/simkit); every microphone sample is compared",
        "paths with taps from 1e-12 to 1 (tolerance scaled to the path); static arrays, the pre-roll is C05, moving arrays C19. One pass runs with numba's JIT enabled, to validate that the interpreted Python source used elsewhere is what users run"),
"C02": ("the run with one chunk and a buffer longer than the run", "with a processor: buffer >= 2 blocks and chunk >= 1 block; without: buffer >= 2 and chunk >= 1 (the code gives no other admissible range)"),
"C03": ("a reference model of the processor schedule: which samples are visible, requested and written at every call; the processor is a recording stand-in", "as C02"),
"C04": ("sum of the contribution signals over the sources, in recordings and in what the processor sees, including the pre-roll", ""),
"C05": ("the simulation that has been running for ever: source samples continued backwards in time from the same generator, convolved by plain loops", ""),
"C06": ("the set of requested time indices applied to the run recorded without intervals", ""),
"C07": ("the value of the property in a separately kept history of the processor's state (deep copies)", "property expressions within the grammar of the code: names, attributes, indices, quoted keys"),
"C08": ("the complete recording cut at each export index, read back from the npz, text, wav and figure contents", "figures are compared by the data handed to matplotlib (savefig is a recording stand-in)"),
"C09": ("the diagnostic alone in the same simulation; every exported file, legend and label included", ""),
"C10": ("an independent table of which path each pair has to use, with the explicit arrays, zeros, delta or the room response of mc/rirref", "'direct' needs equally many sources and microphones; 'random' draws from numpy's global generator, which the check seeds"),
"C11": ("each simulator in a fresh process-like history: built alone with the same calls", "sim.rng is shared between simulators of one set-up by design"),
"C12": ("paths computed without sessions for the same configuration", "that a session is *reused* is required only when all compared parameters are equal; wrong reuse is always an error"),
"C13": ("the paths of the interrupted or of a fresh simulation; later simulations always get their own paths or a clean rejection of the folder", "crash points are the write calls of the session (stand-in in the same process, in a scratch folder); the completions of a torn config keep sample rate >= 900 and rooms that contain the arrays"),
"C14": ("the objects the set-up was made of (positions, groups, metadata, values), read back from every file", "tikz and png outputs excluded (external programs)"),
"C15": ("a name is free iff nothing of that name exists; the highest number by definition", ""),
"C16": ("the same source drawn in one block", ""),
"C17": ("closed forms: Fourier sums, shift registers stepped bit by bit, sequence periods, power by definition", "Gold sequences of order 8 have no preferred pair; even orders above 11 are refused; the short start-up transient of autocorrelated noise is not judged; LinearChirpSource raises NotImplementedError"),
"C18": ("exact rational walk along the polygon; parametrised circle", ""),
"C19": ("superposition over time of the room response for the positions at the last update (every sample convolved by plain loops)", ""),
"C20": ("set definitions of the shapes evaluated with exact fractions where the coordinates are dyadic; joint distribution of samples by a generator stand-in that enumerates the unit cube", "on curved boundaries only points off the boundary or dyadic are decided; grid counts are compared after rounding"),
"C21": ("definitions of the arrangements (edges, angles, radii, counts)", "uniform_disc spacing only bounded"),
"C22": ("an independent image-source implementation (mc/rirref), symmetry, locality and translation laws", "randomised image sources are outside (C12 covers their sessions); extra_delay >= 1 apart from the known finding"),
"C23": ("the timeline written out sample by sample", ""),
"C24": ("definition: lengths add up, end points hit boundaries", ""),
"C25": ("dictionary from position to value", "the grid is rectangular (as the function asserts)"),
"C26": ("discrete Fourier sum with loops", "even numbers of frequencies (the function asserts it)"),
"C27": ("definition applied to the complete recording", "ratio smoothing in the first smoothing-1 samples after an interval that starts later than 0 is undefined; functions of a signal summary are additive over samples"),
"C28": ("scipy polyphase resampling applied to single channels; the recorded samples and a linear fade", "resampling upwards is rejected by the code"),
"C29": ("a list-based model of arrays, groups and collections run in lockstep", "what an array is after a rejected call is decided only where it is reachable by a user"),
"C30": ("linearity and shift laws over all impulses; response of plane waves in closed form", "microphone distance below half of the shortest wavelength"),
"C31": ("a dictionary time -> value per signal, updated with every write of the enumerated program", "recordings are decided for values written ahead of time only: what is rewritten after it has passed is recorded or not depending on the chunk (documented limitation of the design)"),
"C32": ("the component alone; the simulation without disturbance; bitwise", "paths of type 'random' use numpy's global generator by design and are excluded"),
"C33": ("positions, bounding boxes and corner times written down by the enumerator; everything drawn is recorded when the figure is saved", "a corner reached exactly at the end of the run may be drawn or not; markers, colours and scales are free"),
}
T = json.loads((root / "tools" / "times.json").read_text()) if (root / "tools" / "times.json").exists() else {}
out = [(root / "tools" / "design_head.md").read_text().rstrip(), "", "## Properties", ""]
for l in (root / "properties.jsonl").read_text().splitlines():
    p = json.loads(l); i = p["id"]
    src = (root / "checks" / f"{i.lower()}.py").read_text()
    g = {}
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and node.targets[0].__class__ is ast.Name and node.targets[0].id in ("TECH", "BOUND", "ASSUMPTIONS"):
            v = node.value
            g[node.targets[0].id] = {k.arg: ast.literal_eval(k.value) for k in v.keywords} if isinstance(v, ast.Call) else ast.literal_eval(v)
    b = g["BOUND"]
    out += [f"### {i} {p['title']}", "", f"* enumerated (quick): {b['quick']}", f"* thorough: {b['thorough']}"]
    if "TECH" in g: out.append(f"* method: {g['TECH']}")
    o, d = NOTES.get(i, ("", ""))
    if o: out.append(f"* oracle: {o}")
    if d: out.append(f"* domain: {d}")
    for a in g.get("ASSUMPTIONS", []): out.append(f"* assumption: {a}")
    out.append(f"* beyond the tests: {p['why_tests_cant']}")
    if i in T: out.append(f"* cost of quick: about {T[i]} s on 8 cores")
    out.append("")
out += ["## Planted bugs (`seeded/`)", "", "Each one passes the stable tests; 'caught' is the result of `tools/plant.py`.", "", "| bug | property | what it breaks | needs | result |", "|---|---|---|---|---|"]
R = json.loads((root / "tools" / "caught.json").read_text()) if (root / "tools" / "caught.json").exists() else {}
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    c = lambda s: s.replace("|", "/").replace("\n", " ")
    out.append(f"| {d.name} | {m['property']} | {c(m['what_it_breaks'])} | {c(m['needs'])} | {R.get(d.name, 'caught')} |")
out += ["", "## Findings in the original tree", "", "From `known_findings.txt` (one line per finding; `fixed` ones were repaired by a `fix:` commit).", ""]
for l in (root / "known_findings.txt").read_text().splitlines():
    if l and not l.startswith("#"): out.append("* " + l)
(root / "DESIGN.md").write_text("\n".join(out) + "\n")
