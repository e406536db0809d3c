#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": ("random linear circuits against the circuit equations", "Every generated circuit's reported operating point is put into the equations of the generator's own circuit description; tolerances follow the rounding of a solver with partial pivoting. Circuits close to singular are left out."),
 "C02": ("random diode circuits against the diode law", "The reported operating point is put into the nonlinear equations; the tolerance is what RELTOL/VNTOL allow for the linearization error. The thermal voltage is taken from the code (its value is C03's subject)."),
 "C03": ("random bias histories against the Shockley equation", "The model's (g, i) is compared with the equation and its derivative for histories of biases; the 363 in the thermal voltage is a known finding."),
 "C04": ("random source descriptions against a reference waveform, incl. exact breakpoints", "Values at breakpoints, one ulp around them and at random times; where time arithmetic rounds, every value within that rounding is accepted."),
 "C05": ("random linear transients against the backward Euler equations", "Every row of the waveform file is put into the equations with the row before it as history."),
 "C06": ("random diode transients against the diode law", "Every row of the waveform file is put into the nonlinear equations with the row before it as history; tolerance as in C02."),
 "C07": ("random circuits: first row against the operating point, constant circuits against themselves", "Metamorphic: no stimulus, no change, whatever capacitors and timestep."),
 "C08": ("random analysis times: invariants of the time axis, TSTART against a run without", "Invariants over the whole time axis, and a differential run with another TSTART."),
 "C09": ("random retry settings: step sequence invariants, differential runs with smaller RMIN", "Step ratios against powers of FT, limits against RMIN, reported end against last row; exact step sequence where every step is retried once."),
 "C10": ("random hierarchical decks against the generator's own flattening", "The expanded circuit has to have exactly the elements of the flattening, under the right node names; solved, it has to agree with the flat deck."),
 "C11": ("random parameter structures against a reference resolution", "Values of the expanded elements and of the recorded parameters against the generator's own scoping."),
 "C12": ("random net names against a reference node partition", "Names that look like ground, differ in case, or recur in other scopes."),
 "C13": ("random number texts against exact decimal values", "Every place where a deck takes a value; near-number texts must not be taken."),
 "C14": ("metamorphic: random re-layout and reordering of decks", "The same deck in two layouts has to give the same circuit, and the same solution by name."),
 "C15": ("metamorphic: library sections against the same lines in the deck", "Random library files with decoy sections and text; also by way of the program for missing files and sections."),
 "C16": ("random control blocks against a reference configuration", "Every field of the configuration, set or default, after every generated control block."),
 "C17": ("fault injection into random decks, run by the program itself", "One fault of 32 kinds put into a valid deck: an error message and no waveform file; the deck without the fault has to be simulated."),
 "C18": ("random decks: the waveform file read back against the simulated circuit", "Columns by label against the circuit equations by node name, number round trip, and the bundled loader run on the file."),
 "C19": ("random decks, several fresh processes, byte comparison", "Hash seeds differ between processes, so every pair of runs is an independent draw."),
 "C20": ("random histories of analyses on one engine against fresh engines", "Stateful: sequences of analyses over several circuits, each compared with a fresh engine; repeated expansion compared."),
 "C21": ("circuits of random large size against closed forms", "Ladders, dividers, source stacks, buffer chains and instance arrays up to many hundreds of nodes."),
 "C22": ("random pairs of solutions against the tolerance formula", "Includes exact boundaries and non-finite entries in every position."),
 "C23": ("random histories of registrations against a reference registry", "Stateful comparison with a model after every operation."),
 "C24": ("random circuits made singular, reported solutions against the circuit equations", "Whatever is reported as found, and every transient row, is put into the equations; unsolvable circuits must not be reported as found."),
 "C25": ("fault injection: write faults at random bytes, file compared with that of a run without", "File size limits, devices that are full, directories and files in the way; stored bytes compared as a prefix, and a message required."),
 "C26": ("random edits of random decks against a second, independent reader", "Up to three line, word or character edits of a valid deck; a second reader of the format's rules says refuse, accept as this circuit and configuration, or unclear (discarded, about 30 %)."),
 "C27": ("random directories of waveforms and requests, plots recorded by a stand-in for matplotlib", "bin/r8n run by python3 with a recording matplotlib (the real one isn't installed); plotted lines, marks and colours compared bit for bit with the files."),
 "C28": ("random hierarchical decks, the log parsed and compared", "The program's console output parsed; element and node listing matched as a multiset with an independent flattening; counts, times, options, end and file name compared with the deck and the waveform file."),
}
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "./check.sh build",
 "checks": [{
   "property": i,
   "quick_cmd": f"./check.sh {i} quick",
   "thorough_cmd": f"./check.sh {i} thorough",
   "evidence_file": f"evidence/{i}.json",
   "technique": "property-based testing: " + TECH[i][0],
   "level": "exploration",
   "level_note": TECH[i][1],
 } for i in ids if i in TECH],
 "not_applicable": [],
 "notes": "No hooks: everything the checks need is public API, the program itself, or its files.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
