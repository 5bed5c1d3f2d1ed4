#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(os.path.join(V,"properties.jsonl"))]
MAIN="explicit-state model checking of the implementation: breadth-first enumeration of all instruction sequences up to a depth on the real program, every transition judged"
TECH={
 "C15":"exhaustive enumeration of account-to-role assignments executed on the real program (explicit-state model checking)",
 "C16":"exhaustive enumeration of creation configurations, then breadth-first exploration of the created markets on the real program (explicit-state model checking)",
 "C21":"exhaustive enumeration of encodings through the real entry point, and state-by-state comparison of both call paths over the explored state graph (explicit-state model checking)",
 "C23":"exhaustive enumeration of the input grid on the real function (bounded model checking by explicit enumeration)",
 "C26":"explicit-state exploration of the program; every reached state decoded by the real JavaScript library and compared",
 "C27":"exhaustive enumeration of tree images and queries on the real library functions (explicit-state model checking)",
 "C29":"explicit-state model checking of the implementation: every refused transition of the explored state graph and of the enumerated account configurations is judged",
 "C28":"explicit-state model checking of the implementation: every transition of the explored state graph is taken on both compiled versions of the program and the results compared",
}
LVL="Holds on every state and transition within the bounds in DESIGN.md (market sizes, order alphabets, depths); nothing is sampled. The explored object is the compiled program itself, so no model has to be trusted; trusted are the oracle in mc/src (list-based reference semantics, raw byte decoders), the host build instead of the Solana target (C28 compares the two versions of the source), and the rule that failed instructions roll back."
NOTE={
 "C15":"Complete over all assignments of a 30-odd account pool to the roles of every instruction, both call paths. Trusts the host build and the account pool's coverage of look-alikes.",
 "C16":"Complete over account lengths up to a bound, aliasing patterns, tags, owners, balances and parameter values of the alphabets; the created markets are then explored as for the other properties.",
 "C21":"Complete over all operation bytes, truncations, flag and enumeration bytes and the parameter alphabet, and over every state of the explored graph for both call paths.",
 "C23":"Complete on a small rectangle of ticks and prices and on all pairs of boundary values of the 64-bit range; not a proof for all 2^128 pairs.",
 "C26":"Every state of the bounded exploration is decoded by the library's own TypeScript sources, bundled with stand-ins for bn.js, borsh and web3.js (js/stubs, which are trusted). Hand-written market sizes and alphabets bound the states.",
 "C27":"Complete over all order sets of 8 six-key universes, node placements up to 5 nodes (7 thorough) plus affine placements of larger ones, depths and directions, on the library compiled for this host (not wasm32).",
 "C28":"Every transition within the bounds in DESIGN.md is taken twice, on the host version and on a copy of the source in which target_os = \"solana\" is true, both compiled for this machine. Trusts that the Solana compiler gives the same source the same meaning (its u128 alignment and 64-bit pointers agree with this host).",
}
m={"version":1,"setup_cmd":"./setup.sh",
 "checks":[{"property":p["id"],"quick_cmd":f"./check.sh {p['id']}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {p['id']}","evidence_file":f"evidence/{p['id']}.json",
   "technique":TECH.get(p["id"],MAIN),"level":"model_checking","level_note":NOTE.get(p["id"],LVL)} for p in props],
 "not_applicable":[],
 "notes":"No hooks in /repo: the checkers use the crate's public interface and the raw account bytes. See DESIGN.md and KNOWN_FINDINGS.txt."}
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
