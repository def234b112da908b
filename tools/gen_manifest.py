#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T_HIST = "bounded exhaustive exploration of operation histories on the real code against a reference model"
T_CHOICE = "stateless model checking of the real code: every outcome of every random choice enumerated, exact outcome probabilities compared with the model"
T_INPUT = "exhaustive enumeration of bounded inputs on the real code against a reference model"
NOTES = {
 "D01": (T_HIST, "every add/remove history up to the depth bound over small alphabets; values and weights outside them and deeper histories are not covered"),
 "D02": (T_HIST, "every insertion history up to the depth bound; closed forms recomputed independently; tolerance 1e-7 relative"),
 "D03": (T_CHOICE, "all sampling executions of discrete families; continuous draws are discretised to equal-probability quantiles and compared with the integrated predictive within 0.03"),
 "D04": (T_CHOICE, "every grid outcome from every enumerated data state"),
 "C01": (T_HIST, "every seat/unseat history up to the depth bound, 3-4 customers"),
 "C02": (T_CHOICE, "every assignment of up to 4-5 customers, 5 concentrations, every seating order"),
 "S01": (T_INPUT, "every documented name, parameter forms in the alphabet, unknown names, nearest-value probes up to length 4-5 against brute-force edit distance"),
 "E01": (T_HIST, "every add/remove history up to depth 4-6 over small pair alphabets; the error-rate categorical model, whose state depends on order by design, is checked for last-in-first-out undo, count bounds and being as new when emptied; the context string model is in E04"),
 "E02": (T_CHOICE, "every outcome of every draw for finite models; string noise down to execution probability 2e-5; Gaussian noise through 401 quantiles"),
 "E03": (T_INPUT, "all evidence lists up to length 3-5 from every small trained state"),
 "E04": (T_INPUT, "all string pairs up to length 3 from 5 trained states, every draw outcome of probability >= 1e-5; every multiset of 2-3 pairs added and removed in every order"),
 "A01": (T_INPUT, "all string pairs up to length 3-4 over two letters, 6 cost functions, 7 values of k, against full enumeration of alignments"),
 "M01": (T_INPUT, "all vectors up to length 4-6 over an alphabet with the edge values"),
 "R01": (T_HIST, "breadth-first over all reachable (seating, facts) states of 6 relation shapes with 2-3 entities per domain, plus unmerged histories to depth 3-4; every drawn fact enumerated"),
 "R02": (T_HIST, "every reachable state of 12 configurations, every entity and table; compared with the block score difference recomputed from scratch; floating-point tolerance 1e-7"),
 "R03": (T_HIST, "every reachable state of 12 configurations; tuples with two unseen slots of one domain are outside the property (documented limitation in the code)"),
 "N01": (T_HIST, "breadth-first over all reachable states of 6 clean/noisy configurations (bases of equal or smaller arity, chains, separate submodels, repeated domains), plus unmerged histories"),
 "N02": (T_CHOICE, "also whole-relation re-estimation of both kinds of model against its values one by one in every order; every reachable state, every base fact, every outcome of the re-estimation, once and twice in a row; voting ties may break either way"),
 "I01": (T_CHOICE, "every (facts, clustering) state of 7 model shapes (2-3 entities per domain, up to 3 facts per relation), every entity, every outcome; fixed default cell hyperparameters"),
 "I02": (T_HIST, "all 125 ways in which three relations can name bases; breadth-first over real operation histories with draws pinned, first 1200 (thorough 12000) states per shape; hyperparameter and whole-step draws limited to few deviations"),
 "I03": (T_INPUT, "every state, every pair (and many triples) of new facts; two unseen entities of one domain are outside the property (documented limitation); facts are independent given the placement"),
 "H01": (T_HIST, "all 125 ways in which three relations can name bases; breadth-first over real operation histories with draws pinned, first 500 (thorough 4000) states per shape, 6 shapes of 2-3 relations; whole inference steps with at most 1-2 deviations from the most probable draws"),
 "H02": (T_CHOICE, "every state and relation of 6 shapes; the reference law enumerates all seatings in all candidate submodels"),
 "H03": (T_CHOICE, "0-2 samples from every state; draw executions of probability >= 1e-3/1e-2 with at most 3 deviations"),
 "F01": (T_INPUT, "all lines up to length 4-7 over alphabets of 8-17 characters and every byte pair against an independent tokenizer; all schemas of a grammar pool in every line order; every line within two token edits of a valid one must keep its exact meaning or be refused"),
 "F02": (T_INPUT, "every observation file of up to 3-5 facts in every line order for 10 schemas (clean, noisy, chains, observed or latent bases), relational and hierarchical, with a few draw outcomes each; partially observed bases are outside the property (documented assumption)"),
 "F03": (T_INPUT, "every clustering of the entities and relations of every small observation file, with two table namings, loaded, compared, saved, re-read independently and loaded again"),
 "V01": (T_INPUT, "every text of up to 8-10 characters over five-character alphabets (fields, commas, newlines, white space, odd bytes), with a header and with one, two or three given columns, read and written back; larger tables over nine field values with three line-end styles"),
 "V02": (T_INPUT, "every schema of a grammar pool in five layouts; every single-token insertion, deletion, replacement and swap and every second deletion; every single-character edit; every line of up to 5 tokens and parameter list of up to 8 tokens, against an independent strict reader"),
 "V03": (T_INPUT, "every acyclic class graph of up to 4 classes (thorough 5) with every attribute and reference layout, every set of queried paths up to the bound, both emission options and both record-class options, against an independent path-walking reference"),
 "G01": (T_HIST, "9 schemas (chain, diamond, two references to one class, shortcut, unqueried branch ...), all row sequences up to 3 rows with missing cells, both entity options, all outcomes of the entity draws up to a deviation bound; entity links, clusterings, facts and cells recomputed from the references after each row; reference identifiers of 60000 items per reference are distinct"),
 "G02": (T_HIST, "8 schemas, all option combinations, a spread of two- and three-row databases, every reference, one or two re-linkings or a whole pass over the record class, draws with at most 2-3 deviations from the most probable; everything recomputed from the references afterwards"),
 "G04": (T_HIST, "all sequences of 8 kinds of operation to depth 5 (thorough 6) on several schemas, draws pinned to their most probable outcomes"),
 "B01": (T_HIST, "the real command-line binaries run on every combination of modes, seeds, iteration counts, sample and held-out options over small data sets, each run twice, and every invalid invocation of a list"),
 "Y01": (T_INPUT, "every small schema, observation file and clustering, layout variants included; numeric values only (string values cannot be plotted)"),
 "P01": (T_HIST, "breadth-first over real operations of seven relation shapes with two entities per domain to depth 4 (thorough 5), first 900 (thorough 12000) states per shape, every draw outcome; leaf models to depth 6 (7)"),
 "P02": (T_CHOICE, "every set of up to 2-3 (thorough 3-4) facts and every clustering of seven shapes, two settings of the concentrations; whole sweeps over up to three entities"),
 "P03": (T_INPUT, "every state with up to 2 (thorough 3) facts, every fact and pair of facts over seen and one unseen entity per domain"),
 "P04": (T_HIST, "breadth-first over real operations to depth 5 (thorough 6) with two to three relations, every draw outcome, first 700 (thorough 9000) expanded states"),
 "P05": (T_INPUT, "every clustering with up to 2-3 facts of seven shapes, two table numberings; loading under every outcome of its draws"),
 "P06": (T_INPUT, "every clustering with up to 2-3 facts; figures inspected as objects, not rendered"),
 "T01": (T_CHOICE, "complete kernels of single sweeps over every state of about a dozen relational and hierarchical shapes (2-3 entities per domain, 2-3 relations), fixed parameters; hierarchical kernels on the states reachable with every fact observed"),
 "T02": (T_CHOICE, "single deviations from the most probable outcomes (two for structural draws) from a spread of starting states; continuous draws at quantiles; the wall clock is replaced by one the harness advances"),
 "G03": (T_CHOICE, "8 schemas, a spread of complete two- and three-row databases, every reference, every candidate; the log odds of the final draw compared with the score differences of the states each choice leads to"),
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTES:
        t, n = NOTES[i]
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 build.py --warm", "checks": checks, "not_applicable": na,
           "notes": "Checks build /repo/cxx sources unmodified with a force-included header that replaces the std random distributions, assert and exit (shim/); no hooks in /repo."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
