#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below (run by hand when the list changes)."""
import json
G = "product comparison of transition systems extracted by abstract interpretation with a declarative grammar"
CHECKS = {
 "A01": (G, "Every transition of every element parser on which a number, enumeration word, sub-element, end of input or foreign keyword fails is shown to end in an error return, for all token sequences."),
 "A02": (G, "For every keyword of every block the parsed sub-element type and the slot receiving it are shown to be those of the grammar, and no other slot changes."),
 "A03": (G, "Order, conversion, destination slot and number of consumed tokens of all positional parameters agree with the grammar for all token sequences."),
 "A04": (G, "Acceptance of every block is shown to happen only at its own end marker; end of input and foreign keywords lead to errors; keyword table is complete."),
 "A05": (G, "Enumeration words are followed from the token to the stored constant; unknown words end in errors."),
 "A06": (G, "Conversion call, base and bit width of every numeric parameter are compared with the slot's width; out-of-range must end in an error."),
 "A08": (G, "Map slots are shown to be keyed by the stored object's own name."),
}
X = "abstract interpretation to path summaries of the reader pipeline, compared with the record format by polynomial normal forms"
CHECKS.update({
 "H01": (X, "For every record shape the record parser admits, the byte sum is shown to be compared with the format's residue over exactly the bytes of the line, in a stage that covers every record, and a failing comparison is followed to an error return of the driver."),
 "H02": (X, "Every path of line worker and record parser is classified: blank, recorded, or failing with the failure followed to the driver's error return; accepted lines are shown to have the length their byte count states; unsupported record types are rejected."),
 "H03": (X, "Address and value of every produced byte are polynomials over the digits of the line and are shown equal to the format's; all records are covered and all bytes stored."),
 "H04": ("automaton extraction of the offset worker and case analysis of its transitions", "The upper address in force is shown to change only at extended-address records and to be written to every following data record until one that already carries it; worker starts cover the list, and workers are waited for before the addresses are used."),
 "H05": (X, "Every store into the memory image is shown to be guarded by the same key's absence, a present key leads to an error return."),
 "H06": ("constant evaluation of the conversion table and its readers from the type-checked syntax", "All 22x22 digit pairs, plus the rejection path of the conversion functions."),
})
Y = "abstract interpretation of starting functions and workers to path summaries with channel, wait-group and lock events"
CHECKS.update({
 "C02": (Y + "; partition arithmetic on the part bounds", "For the line, record, token and module fan-outs the bounds given to the workers are shown to cover the list exactly once for every list length and number of workers, the workers to pass on every element of their part, and the results to be put back in order."),
 "C03": (Y, "For every path of every function that starts goroutines: wait-group balance, close-once-after-last-send, no wait for a worker that can block on a full channel, receive loops end, fill levels are read after the senders ended, locks released, no result before the workers ended."),
 "C06": (Y + ", compared with the grammar of the sequential parser", "Every block the sequential parser of a module handles is shown to be handled by the parallel one, with the same rule, sent over a channel whose collector stores it in the same slot under the same key, and every failure to reach the error result."),
})
CHECKS.update({
 "A07": ("abstract interpretation to token-reading transition systems; cycles decided by a ranking argument (tokens read, bounded counters) and by the edges feasible at the end of the input", "Every loop and every recursion of every element parser and of the tokenizer: each turn reads a token (or moves the text position) or moves a counter to a fixed bound; no turn is possible once the input has ended; the cursor contract (next moves on or gives the empty token) is checked on the cursor itself."),
 "A09": ("interval/linear-fact abstract interpretation with obligations at every index, slice, division, map write, fixed-width decode and dereference; requirements pushed to every caller; induction over loop heads; a violation needs a concrete witness along a feasible path", "Every operation of the a2l, ihex32 and srec19 packages that can panic, and every deliberate abort (panic, log.Fatal, os.Exit), on every path a text or hex file can drive the readers through."),
 "C04": ("interprocedural access-path and lock-set dataflow over SSA, combined with the thread structure of the starting functions", "Every access a worker (with all its callees) makes to memory it did not make itself is computed as a path from a package variable, parameter or captured variable together with the locks held; every pair of such accesses of two workers, of two instances of one worker, and of a worker and its starter before the join is shown to be disjoint, read-only, atomic, or under a common lock. Distinct access paths are assumed not to be aliases."),
})
Z = "abstract interpretation to transition systems; failures of callees followed along every path to the caller's result"
CHECKS.update({
 "A10": (Z, "Every path of every tokenizer function on which a callee fails is shown to fail, the sentinel for the regular end is shown to arise only where the text is used up and never inside quoted texts or two-worded keywords, every token is shown to reach the list, and a worker's failure the driver's error return and ParseFromFile's result."),
 "A11": ("closed forms of the tokenizer's fan-out (per-line map, contiguous cuts, ordered concatenation) and taint of the number of CPUs", "What a worker makes of a line is a function of that line only; parts are contiguous, complete and put together in order; tokens are built of the whole; the number of CPUs flows into capacities and cuts only."),
})
CHECKS.update({
 "C01": (Y + "; evaluation of the file-kind conditions on representative names", "On every successful path of the combined read both workers are shown to have reported no failure (every failing or unsupported path of a worker sends a non-nil error that the driver rejects), the results are shown to be those of the right parser for the right path, and the entries of the parsers are shown to fail when reading or parsing fails."),
 "C05": ("interprocedural must-be-assigned-before-use dataflow over SSA, split by error outcome", "Every package variable that changes while parsing is shown to be assigned before any use on every path from each parse entry, goroutines included."),
})
W = "abstract interpretation to path summaries, each path's arithmetic and table evaluated against the format's rule for every data type, byte order and alignment setting"
CHECKS.update({
 "R01": ("abstract interpretation of the position table builder over all stated/unstated components and colliding pairs", "For every component and every pair of components the table is shown to hold exactly the stated ones under their own names, and a collision to be an error."),
 "R02": ("abstract interpretation of the component readers to a transition system per component; every transition that fetches a value is checked", "For each of the layout's components: data type used for fetching, converting and advancing, the slot written, the number of axis points, the order of positions, and the start address, on every path."),
 "R03": (W, "Bit length, Go type, name and decoding of each of the eleven data types are compared with each other and with the data type's definition; short byte lists are shown to be rejected."),
 "R04": (W, "For every byte order value and data type the bytes the decoder combines and their order are shown to be the declared ones; unsupported orders are shown to be errors."),
 "R05": (W, "For every data type and every combination of layout and module alignments the address used is shown to be the next multiple; the bytes fetched are shown to be those of the value, a missing one to be an error."),
})
CHECKS.update({
 "R06": ("abstract interpretation of the conversion functions to transition systems; each transition's guard and result compared with the rule at every border value, tables by induction over the rows", "For every conversion type, every combination of missing coefficients, flags and defaults, and for each relation of the value to the row looked at, the transition taken is shown to be the one the rule prescribes; formulas are compared as expressions on a fixed set of points that includes every constant the guards compare with."),
})
NA = json.load(open("na.json"))
TRUST = " Trusted: Go type checker and x/tools SSA builder, the analyser's own transfer functions, and the reviewed specification in spec/."
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": k, "quick_cmd": f"bash check.sh {k}", "thorough_cmd": f"bash check.sh {k}", "technique": t, "level": "other", "level_note": n + TRUST} for k, (t, n) in sorted(CHECKS.items())],
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items()) if k not in CHECKS],
     "notes": "All checks are static: they load /repo's current source, type-check it, build SSA and decide from that; nothing of the subject is executed."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
