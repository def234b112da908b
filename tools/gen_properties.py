#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    P.append(d)

p('D01', 'Removing an observation from a distribution exactly undoes adding it',
  'A value distribution (Bernoulli, categorical, string categorical, bigram string, digit string, normal, zero-mean normal, Skellam and their string-typed versions) is a function of the multiset of values it currently holds: after any legal sequence of adding and removing values, with whole or fractional weights, its predictive log-probabilities, its score and its held count equal those of a fresh distribution given just the values that remain. In particular removing the last value leaves it indistinguishable from a new one.',
  ['histories', 'inputs'], 'every sequence of adds and removes of in-support values up to a depth, in every order, for every distribution family and hyperparameter setting in the alphabet',
  'Tests add and remove one or two fixed values per family; they never compare against a rebuilt distribution over all orders, weights and interleavings of adds and removes.',
  ['cxx/distributions'], [('sufficient statistics updated by signed weights', 'cxx/distributions/*.cc incorporate/unincorporate')],
  [('counts / mean / var / s / seen', 'sufficient statistics', 'cxx/distributions')], ['logp', 'logp_score', 'N'])
p('D02', 'Distribution scores factor into sequential predictive probabilities',
  'For every value distribution, the score of the data it holds is zero when empty and grows by exactly the predictive log-probability of each value at the moment it is added (at fixed hyperparameters), so it does not depend on the order in which values arrived. For the conjugate families the score and the predictive equal the textbook closed-form marginal likelihood and posterior predictive of the model; for the Skellam family they equal those of the Skellam law at its current rates.',
  ['histories', 'inputs'], 'all value sequences up to a length over small value alphabets, at several hyperparameter settings, for every family',
  'Tests check the identity on a handful of hand-picked sequences, mostly at default hyperparameters.',
  ['cxx/distributions'], [('logp and logp_score', 'cxx/distributions/*.cc')], None, ['logp', 'logp_score'])
p('D03', 'Predictive probabilities are normalised and sampling follows them',
  'In every reachable state, each discrete value distribution assigns predictive probabilities that sum to one over its support (for length-limited strings: together with the mass of strings too long to hold), continuous predictives integrate to one, and values are sampled with exactly the predictive probabilities, always inside the support (length-limited strings are truncated at the limit). Evaluating a probability or drawing a sample never changes later probabilities, scores or counts.',
  ['histories', 'inputs'], 'every state reached by add/remove sequences up to a depth, and every outcome of every random draw made while sampling',
  'Tests draw a few samples with a fixed seed and look at one or two of them; the law of the sample and its absence of side effects need every outcome of every draw.',
  ['cxx/distributions', 'cxx/util_math.cc'], [('sample', 'cxx/distributions/*.cc sample'), ('weighted choice', 'cxx/util_math.cc choice')], None, ['sample', 'logp'])
p('D04', 'Hyperparameter inference is an exact grid draw that leaves data intact',
  'Resampling hyperparameters of a value distribution, an emission or a seating process picks a point of its fixed grid with probability proportional to the exponentiated score of the data it holds at that point (never one whose score is undefined), regardless of the current hyperparameters (for the Skellam family the score is the log prior density of its latent rates, which themselves move by a Metropolis-Hastings step). It never changes the data held, and afterwards all probabilities are those of a distribution with the chosen hyperparameters and the same data.',
  ['histories', 'inputs'], 'every data state up to a depth, every current hyperparameter setting in the alphabet, every outcome of the random draw',
  'Tests run the transition once or twice with a seed and check that a score went up or a value landed near an expectation.',
  ['cxx/distributions', 'cxx/emissions', 'cxx/util_math.cc'], [('grid Gibbs', 'transition_hyperparameters / transition_alpha')], None, ['transition_hyperparameters', 'transition_alpha'])
p('C01', 'Seating bookkeeping of the clustering process is a consistent partition',
  'After any sequence of seating and unseating customers, the clustering process records each present customer at exactly one table, each listed table is non-empty and lists exactly its customers, the customer count and highest table are right, and an unseated customer leaves no trace. Domains keep their item set equal to the customers of their clustering process and re-adding a present item changes nothing.',
  ['histories'], 'all seat/unseat/reseat sequences up to a depth over a few customers and tables (including gaps in table numbers)',
  'Tests follow one or two fixed sequences.',
  ['cxx/distributions/crp.cc', 'cxx/domain.hh'], [('incorporate/unincorporate', 'cxx/distributions/crp.cc'), ('item set', 'cxx/domain.hh')],
  [('tables, assignments, N', 'partition of customers', 'cxx/distributions/crp.hh')])
p('C02', 'Clustering-process probabilities are those of a Chinese restaurant process',
  'For every partition and concentration, the probabilities of joining each existing table or a fresh one are size- and concentration-proportional and sum to one (from the empty state too), sampling follows them, and the score is the log-probability of the partition, equal to the sum of sequential seating probabilities in any order. The reseating weights offered for a seated customer equal the probabilities the process would give were the customer first unseated, with exactly one fresh table on offer.',
  ['histories', 'inputs'], 'all partitions of up to a few customers with arbitrary table labels, several concentrations, all customers as the one to be reseated, all draws',
  'Tests compare a few hand-computed numbers, mostly with concentration one where several errors are invisible.',
  ['cxx/distributions/crp.cc', 'cxx/domain.hh'], [('tables_weights, tables_weights_gibbs, logp, logp_score, sample', 'cxx/distributions/crp.cc')])
p('S01', 'Specification strings select exactly the distribution or emission they name',
  'Every distribution or emission name with its parameters (inline or as separate arguments) yields an object of the named family with those parameters honoured and the value type it declares; text values convert to typed values and back without changing them; and the nearest-supported-value query returns the value itself when supported and otherwise a supported value at least as close as any other. Unknown names are rejected rather than silently mapped.',
  ['inputs', 'configurations'], 'all family names, parameter combinations in the alphabet, and all short probe values',
  'Tests probe a few names and values.',
  ['cxx/distributions/get_distribution.cc', 'cxx/emissions/get_emission.cc', 'cxx/distributions/adapter.hh', 'cxx/distributions/stringcat.cc', 'cxx/distributions/string_nat.hh', 'cxx/distributions/dirichlet_categorical.cc'], [('spec parsing and construction', 'cxx/distributions/get_distribution.cc'), ('nearest', 'cxx/distributions')])
p('E01', 'Noise models: removal undoes addition and scores factor sequentially',
  'Noise models (bit flip, categorical confusion, Gaussian noise, the error-rate versions of bit flip and Gaussian, identity, simple string noise) behave as a function of the multiset of (clean, dirty) pairs they hold: any add/remove history gives the same scores, predictives and counts as a fresh model given the remaining pairs. At fixed hyperparameters the score grows by the predictive log-probability of each added pair, independently of order, and querying probabilities changes nothing. Simple string noise records, for each pair, the insertion, deletion and substitution decisions of one complete generation of the dirty string from the clean one; the error-rate version of the categorical model never holds a negative or excess count, gives back what it recorded when pairs are removed last-in first-out, and is as new once emptied.',
  ['histories', 'inputs'], 'all add/remove sequences of small (clean, dirty) pairs up to a depth for each noise model',
  'Tests add two or three pairs and compare a few numbers.',
  ['cxx/emissions'], [('incorporate/unincorporate/logp/logp_score', 'cxx/emissions/*.hh')])
p('E02', 'Noise models generate dirty values with the probabilities they report',
  'For every state and clean value, noise models with a finite or truncatable outcome space draw dirty values according to their own current error rates and outcome probabilities, only ever emit values of the legal alphabet, and discrete predictive probabilities over all dirty values sum to one where the model is a proper law (never exceeding probability one per outcome). Drawing a dirty value leaves the model unchanged.',
  ['histories', 'inputs'], 'all states up to a depth, all clean values in the alphabet, every outcome of every draw (string growth bounded)',
  'Tests draw a handful of samples with one seed.',
  ['cxx/emissions', 'cxx/distributions'], [('sample_corrupted', 'cxx/emissions')])
p('E03', 'Proposed clean values respect the evidence',
  'The clean value proposed from a list of dirty values is a legal value; when all dirty values agree it is that value (the flipped bit, for the pure bit flipper; the most likely explanation for the categorical model), when one value is a strict majority the voting models return it, the categorical model returns a maximiser of the likelihood and the Gaussian model the mean. The proposal does not depend on the order of the evidence for likelihood- and mean-based models and leaves the model unchanged.',
  ['inputs', 'histories'], 'all multisets of up to a few dirty values over small alphabets, in every order, from several states',
  'Tests use one or two example lists.',
  ['cxx/emissions'], [('propose_clean', 'cxx/emissions')])
p('A01', 'String alignment returns the k cheapest alignments',
  'For any two strings, any k and any cost that adds, piece by piece, a non-negative amount depending on the piece and the two positions, the aligner returns exactly min(k, number of alignments) distinct complete alignments, in non-decreasing cost order, whose costs are the k smallest over all alignments; each one, read off piece by piece, consumes the first string, produces the second and carries the cost the cost function assigns to it.',
  ['inputs'], 'all pairs of strings up to a length over a small alphabet, all small k, several cost functions',
  'Tests align a few fixed pairs.',
  ['cxx/emissions/string_alignment.cc'], [('best-first search', 'cxx/emissions/string_alignment.cc topk_alignments')])
p('E04', 'Context string noise explains each pair by its best alignments',
  'The context-dependent string noise model spreads each observed pair over its cheapest alignments with weights proportional to their probabilities, conditions insertions on the preceding clean character, and so assigns a higher weight to more probable alignments; learning a pair never makes that pair less probable, removing pairs never takes away more evidence than there is, its score is the log-probability of the evidence under its initial bias, its drawn corruptions follow its insertion and substitution tables, and its votes between two strings keep every character on which they agree.',
  ['inputs', 'histories'], 'all short string pairs over a small alphabet from several trained states, and every draw outcome up to a length',
  'Tests check that a few likelihood comparisons hold.',
  ['cxx/emissions/bigram_string.cc'], [('incorporate, log_prob_distance, sample_corrupted, two_string_vote', 'cxx/emissions/bigram_string.cc')])
p('M01', 'Numeric helpers are exact on all small inputs including edge cases',
  'In the C++ library and in the Python package, log-sum-exp, log-mean-exp, log-normalisation, grids and cartesian products equal their mathematical definitions (including minus-infinity entries, singletons and empty factors), and weighted choice by weights or log-weights selects each index with probability proportional to its weight, invariant to adding a constant to log-weights, and never an index of zero weight.',
  ['inputs'], 'all short vectors over an alphabet with zeros, infinities, huge and tiny magnitudes; all choices',
  'Tests use a few benign vectors.',
  ['cxx/util_math.cc', 'src/util_math.py'], [('logsumexp, log_normalize, choice, log_choice, sample_from_logps, product, linspace', 'cxx/util_math.cc'), ('logsumexp, logmeanexp, log_choices, log_linspace', 'src/util_math.py')])
p('R01', 'A relation groups its facts exactly by the clusters of their entities',
  'After any sequence of adding, removing, overwriting and re-clustering, a relation holds exactly the facts given to it, its reverse index lists for every entity exactly the facts that mention it, and each cell (one per combination of entity clusters that has facts) holds exactly the values of the facts falling into it, with no empty cells; hence the score equals that of a relation rebuilt from scratch from the facts and the final clustering.',
  ['histories'], 'all operation sequences up to a depth over relations of arity one to three, with repeated domains and facts that repeat an entity',
  'Tests follow fixed scripts, seldom with repeated domains or facts such as (a,a).',
  ['cxx/clean_relation.hh', 'cxx/domain.hh'], [('incorporate, unincorporate, set_cluster_assignment_gibbs, update_value', 'cxx/clean_relation.hh')],
  [('data, data_r, clusters', 'facts, reverse index, cells', 'cxx/clean_relation.hh')])
p('R02', 'Candidate-move scores equal the true change in the relation score',
  'For every state, every entity and every candidate cluster (existing, current or fresh), the scores a relation reports for the candidates differ by exactly the differences between the relation scores obtained by actually moving the entity there; the fast approximate scores add, fact by fact, the predictive of each fact against the other facts of its target cell. Computing either leaves the relation unchanged.',
  ['histories', 'inputs'], 'all reachable states of small relations (including repeated domains), all entities, all candidate clusters',
  'Tests compare two candidates on one state.',
  ['cxx/clean_relation.hh', 'cxx/noisy_relation.hh'], [('logp_gibbs_exact', 'cxx/clean_relation.hh')])
p('R03', 'Predictive probability of a fact marginalises unseen entities correctly',
  'The log-probability of a new fact in a relation equals the mixture, over the cluster each unseen entity could join (existing ones in proportion to size, or a fresh one), of the matching cell predictive, using the known clusters of seen entities; over a finite value space these probabilities sum to one, and asking changes nothing.',
  ['histories', 'inputs'], 'all reachable small states, all (seen/unseen) entity tuples over distinct domains, all values',
  'Tests check one or two tuples.',
  ['cxx/clean_relation.hh', 'cxx/noisy_relation.hh'], [('logp', 'cxx/clean_relation.hh'), ('cluster_or_prior_logp', 'cxx/clean_relation.hh')])
p('N01', 'A noisy relation always pairs each observation with the current true value',
  'A noisy relation attaches each of its facts to the base fact over its leading entities: after any sequence of adding, removing, updating and re-clustering facts, its cells hold exactly the pairs (current base value, noisy value) of its facts, grouped by its own entity clusters, every base fact lists exactly its noisy facts, and its score is that of a rebuild from scratch.',
  ['histories'], 'all operation sequences up to a depth on a base relation and noisy relations of equal or larger arity',
  'Tests follow one script for each operation.',
  ['cxx/noisy_relation.hh'], [('incorporate, unincorporate, update_value, sample_and_incorporate', 'cxx/noisy_relation.hh')])
p('N02', 'Re-estimating a latent true value leaves every model consistent',
  'Re-estimating a latent value selects among the proposed clean values with probability proportional to how well each explains its noisy observations under the model, and afterwards the base fact holds the selected value, no other fact changed, and the base cells and noise cells hold exactly the values and (true, noisy) pairs of the current facts, so all scores equal a rebuild from scratch; cluster assignments are untouched.',
  ['histories'], 'all small configurations of base facts with one or more noisy relations, all latent values, every outcome of every draw, repeated transitions',
  'Tests run the transition once and look at the value.',
  ['cxx/transition_latent_value.hh', 'cxx/noisy_relation.hh', 'cxx/irm.cc', 'cxx/hirm.cc'], [('transition_latent_value', 'cxx/transition_latent_value.hh')])
p('I01', 'Re-clustering an entity draws from its exact conditional distribution',
  'In any relational model state, re-clustering one entity of a domain moves it to each candidate cluster with probability proportional to the exponentiated total model score of the resulting state (computed from scratch), considers every existing cluster and exactly one fresh one, keeps all relations of the domain and the domain itself in agreement, and touches no other entity, domain or fact.',
  ['histories', 'inputs'], 'all clusterings of small data sets over one or more relations sharing domains, every entity, every draw outcome',
  'Tests run seeded inference on toy data and check that obvious clusters are found.',
  ['cxx/irm.cc', 'cxx/clean_relation.hh', 'cxx/distributions/crp.cc'], [('transition_cluster_assignment_item', 'cxx/irm.cc')], None, ['transition_cluster_assignment_item'])
p('I02', 'Model edits and inference steps never lose, invent or corrupt data',
  'After any sequence of adding and removing relations and facts and running inference steps on a relational model, each relation holds exactly the facts given to it, every domain holds exactly the entities that occur in some fact of its relations, cells match the clustering, and the model score equals that of a model rebuilt from scratch with the same facts, clustering and hyperparameters.',
  ['histories'], 'all operation sequences up to a depth over schemas with shared domains, self relations and noisy relations, inference draws enumerated up to a deviation bound',
  'Tests run fixed sequences.',
  ['cxx/irm.cc', 'cxx/inference.cc'], [('incorporate, unincorporate, add_relation, remove_relation, single_step_irm_inference', 'cxx/irm.cc')])
p('I03', 'Joint predictive of several facts marginalises shared unseen entities once',
  'The joint log-probability of a set of new facts (with at most one unseen entity per domain) equals the sum over all placements of their unseen entities (each placed once, shared across facts and relations of its domain) of placement probability times the product of cell predictives of the facts under the current data given the placement. A hierarchical model multiplies the answers of its independent submodels, and asking changes nothing.',
  ['histories', 'inputs'], 'all small states and all sets of up to a few new facts mixing seen and unseen entities across relations',
  'Tests check that probabilities of a few exhaustive outcomes sum to one.',
  ['cxx/irm.cc', 'cxx/hirm.cc'], [('IRM::logp', 'cxx/irm.cc'), ('HIRM::logp', 'cxx/hirm.cc')])
p('H01', 'Moving relations between submodels preserves every fact and link',
  'After any sequence of adding, removing and moving relations and facts in a hierarchical model, every relation lives in exactly the submodel its relation cluster names, no submodel is empty, relation names and codes are in bijection, each relation holds exactly its facts, each submodel is internally consistent (its domains hold exactly the entities of its own facts), and every noisy relation reads the live base relation wherever either of them lives.',
  ['histories'], 'all sequences of relation and fact operations up to a depth, all draw outcomes of relation moves',
  'Tests move relations a few times with a seed and re-read a few values.',
  ['cxx/hirm.cc', 'cxx/irm.cc'], [('add_relation, remove_relation, set_cluster_assignment_gibbs, transition_cluster_assignment_relation, update_base_relation', 'cxx/hirm.cc')])
p('H02', 'Choosing a relation\'s submodel weighs size and fit of each candidate',
  'When a relation is re-assigned, every existing submodel and exactly one fresh one are candidates, each chosen with probability proportional to its relation-clustering weight times the exponentiated score the relation has under the entity clustering it gets there, and only the chosen one keeps the relation. The model score is the sum of the relation-clustering score and all submodel scores.',
  ['histories', 'inputs'], 'all small hierarchical states, all relations, every draw outcome',
  'Tests only run seeded transitions.',
  ['cxx/hirm.cc'], [('transition_cluster_assignment_relation', 'cxx/hirm.cc'), ('logp_score', 'cxx/hirm.cc')])
p('H03', 'Generated data are new facts that become part of the model',
  'Asking a model for n samples returns exactly n facts for every relation that is not the base of another, each over an entity combination not present before and with a value legal for the relation, all of which are then held by the model with the returned values, together with the base facts they need; nothing previously held changes.',
  ['histories', 'inputs'], 'all draw outcomes (up to a deviation bound) for small models and n',
  'Tests check sizes for one seed.',
  ['cxx/hirm.cc', 'cxx/clean_relation.hh', 'cxx/noisy_relation.hh'], [('sample_and_incorporate', 'cxx/hirm.cc')])
p('T01', 'Clustering sweeps leave the posterior invariant and can reach every state',
  'One sweep over the entities of a relational model, or over the relations and entities of a hierarchical one, is a transition kernel that leaves the posterior over clusterings (given the facts, at fixed parameters) exactly invariant; from every clustering of a relational model one sweep can lead to every other. Each step of a sweep moves at most its own entity or relation, and a sweep restricted to named domains or relations leaves all the others where they are.',
  ['histories', 'inputs'], 'every clustering of small models of several shapes as a starting state, every outcome of every draw of a whole sweep, compared with the posterior computed from scratch',
  'Tests run seeded sweeps and look at the score; invariance is a statement about the probabilities of all outcomes from all states.',
  ['cxx/irm.cc', 'cxx/hirm.cc'], [('transition_cluster_assignments_*', 'cxx/irm.cc'), ('transition_cluster_assignments_*', 'cxx/hirm.cc')])
p('T02', 'Each inference iteration re-estimates every unknown and nothing else',
  'Running inference for n iterations is the same as n single iterations one after the other: none change nothing, progress reports and a time limit that is not reached alter nothing, and once the limit is exceeded no further iteration starts. Within one iteration every unknown of the model is re-estimated - entity clusters, the submodel of each relation, latent values, cell parameters and concentrations, and (for entity models, after the given number of inner iterations) every reference - so each can be changed by some outcome of its draws, while observed facts stay and the model remains consistent.',
  ['histories', 'schedules'], 'several relational, hierarchical and entity models in many starting states; every single deviation from the most probable outcomes of one iteration; every point at which the clock can pass the limit',
  'Tests call the drivers once or twice and check that nothing crashes; that nothing is left out of an iteration needs all outcomes of all its draws.',
  ['cxx/inference.cc', 'cxx/irm.cc'], [('inference_irm, inference_hirm, inference_gendb, single_step_irm_inference', 'cxx/inference.cc')])
p('F01', 'Schema text is parsed to exactly the relations it declares',
  'Tokenising splits any line into its words, numbers, quoted strings and symbols regardless of spacing, ignores comments and reports malformed text; loading a schema file yields exactly the declared relations with their distribution or noise model, parameters, domains in order and base relation, independent of line order, blank lines and comments.',
  ['inputs', 'programs'], 'all short lines over a token alphabet, all schema files generated by the grammar up to a size',
  'Tests parse a handful of lines and files.',
  ['cxx/util_parse.cc', 'cxx/util_io.cc'], [('tokenize', 'cxx/util_parse.cc'), ('load_schema', 'cxx/util_io.cc')])
p('F02', 'Loading observations puts each stated fact, and only those, in the model',
  'Loading an observation file and incorporating it gives every relation exactly the facts of the file (values as written, entities under a per-domain one-to-one numbering that is consistent across relations), marks exactly the relations with data as observed, and creates for every noisy fact whose base is unobserved one base fact over its leading entities; the outcome does not depend on the order of lines, and rows with the wrong number of entities or an unknown relation are refused.',
  ['inputs', 'configurations'], 'all small observation files over schemas with clean, noisy and chained noisy relations, for both model kinds',
  'Tests load one or two files.',
  ['cxx/util_io.cc'], [('load_observations, calculate_encoding, encode_observations, incorporate_observations', 'cxx/util_io.cc')])
p('F03', 'Saved clusterings reload to the identical clustering',
  'Writing the clusters of a model and loading them with the same schema and observations reproduces the same relation clusters and the same entity clusters in every submodel, with the same data; the file lists every entity and relation exactly once.',
  ['histories', 'inputs'], 'all clusterings of small models of both kinds, round-tripped through the file',
  'Tests reload one file.',
  ['cxx/util_io.cc'], [('to_txt, load_clusters, from_txt', 'cxx/util_io.cc')])
p('V01', 'Tables survive a round trip through CSV and malformed rows are refused',
  'Reading CSV text yields exactly its columns and, row by row, its fields with trailing whitespace removed and empty fields kept (blank lines skipped, with or without given column names); a row with the wrong number of fields is refused; and writing a table and reading it back gives the same table.',
  ['inputs'], 'all small tables over a field alphabet including empty fields in every position',
  'Tests read one file.',
  ['cxx/pclean/csv.cc'], [('from_csv, to_csv', 'cxx/pclean/csv.cc')])
p('V02', 'Entity-model schema text is parsed to exactly the classes and query it states',
  'Parsing an entity-model schema yields exactly the declared classes with their attributes (distribution and parameters) and references, and the query fields with their full paths and the record class; malformed lines are rejected with failure, never misread or crashed on.',
  ['inputs', 'programs'], 'all schemas generated by the grammar up to a size and all single-token deletions of them',
  'Tests parse two or three schemas.',
  ['cxx/pclean/io.cc', 'cxx/util_parse.cc'], [('read_schema, read_class, read_query', 'cxx/pclean/io.cc')])
p('V03', 'The relational translation of an entity model matches its reference structure',
  'An entity-model schema is translated to one clean relation per attribute, over the classes its owner reaches through references with the owner last, and, per queried path, a chain of noisy relations (or a single one when asked) from the attribute to the record class, each extending its base by the next referring class; the stored reference positions always point at the slot holding the entity a reference refers to.',
  ['programs', 'configurations'], 'all class graphs up to a few classes and references, all query paths, all option settings',
  'Tests check two example schemas.',
  ['cxx/gendb.cc', 'cxx/pclean/get_joint_relations.cc'], [('make_hirm_schema, make_relations_for_queryfield, compute_domains_for, compute_reference_indices_for', 'cxx/gendb.cc')])
p('G01', 'Every incorporated row is represented by one consistent set of entities',
  'After incorporating any rows, each observed cell value is held by its query relation at the entity tuple obtained by following the row\'s references, every reference of every reachable entity has exactly one value which is registered exactly once with the referred class\'s entity clustering, every noisy value has its base value and an entity (other than the record) holding any value of its class holds all of them, and with the unique-entities option different rows share no entities.',
  ['histories', 'inputs'], 'all row sequences up to a length over small schemas with shared and diamond references, missing cells, both entity options, all draws up to a deviation bound',
  'Tests incorporate a few rows with one seed.',
  ['cxx/gendb.cc'], [('incorporate, sample_entities_relation, sample_and_incorporate_for_class', 'cxx/gendb.cc')],
  [('reference_values, entity_crps', 'links and their clustering', 'cxx/gendb.hh')])
p('G02', 'Re-linking a record keeps the database consistent with its references',
  'After re-sampling any reference of any record, with any outcome, every observed value is still held exactly once under its own row, every stored fact sits at the entity tuple obtained by following the current references, each live reference is registered exactly once with its class\'s entity clustering, references of entities that are no longer referred to are gone, and relation cells and entity domains match the stored facts.',
  ['histories'], 'all small databases, every reference, every draw outcome up to a deviation bound, repeated transitions',
  'Tests run a few seeded transitions and check sizes.',
  ['cxx/gendb.cc'], [('transition_reference, reincorporate_new_refval, unincorporate_reference, unincorporate_singleton', 'cxx/gendb.cc')])
p('G03', 'Re-linking weighs every candidate entity by the resulting total score',
  'Re-sampling one reference considers exactly the existing entities of the referred class and one fresh entity, and chooses among them with probability proportional to the exponentiated total score of the database that results from each choice; when there is only one candidate nothing is drawn.',
  ['histories'], 'all small databases, every reference, every candidate, draws up to a deviation bound',
  'Tests run seeded transitions and look at sizes; whether the weights are the resulting scores needs every outcome of the final draw from the same state.',
  ['cxx/gendb.cc'], [('transition_reference, logp_score', 'cxx/gendb.cc')])
p('G04', 'Mixed histories of a cleaning session keep the database consistent',
  'After any interleaving of adding rows, re-linking references, re-clustering entities and relations, re-estimating latent values, drawing synthetic rows and evaluating scores, the database obeys all of its structural rules at once: values at the entity tuples their references lead to, references registered exactly once with the clustering of the referred class, latent base facts under every noisy fact, cells matching the clusterings, and every submodel holding exactly the entities of its facts. Observed values of earlier rows are never lost or altered and synthetic rows are complete, with one legal value per queried field.',
  ['histories'], 'all operation sequences up to a depth over small entity models, draws at their most probable outcome with bounded deviations',
  'Tests run one fixed sequence per operation; defects appear when one operation meets the state another leaves behind.',
  ['cxx/gendb.cc', 'cxx/hirm.cc', 'cxx/irm.cc', 'cxx/pclean/pclean_lib.cc'], [('incorporate, transition_reference, transition_reference_class', 'cxx/gendb.cc'), ('make_pclean_samples', 'cxx/pclean/pclean_lib.cc'), ('inference steps', 'cxx/inference.cc')])
p('B01', 'Command-line runs are reproducible and report the whole model',
  'For any valid input, running a command-line tool twice with the same seed gives byte-identical results; the saved cluster file partitions exactly the relations and the entities of the observations, requested samples are all written with legal values, held-out likelihood is reported and finite, and invalid invocations are refused without producing results.',
  ['configurations', 'inputs'], 'all combinations of modes, seeds, iteration counts and options in the alphabet over small data sets',
  'The integration scripts only check that a few commands exit successfully.',
  ['cxx/hirm_main.cc', 'cxx/pclean/pclean.cc', 'cxx/pclean/pclean_lib.cc', 'cxx/util_io.cc', 'cxx/inference.cc'], [('main programs', 'cxx/hirm_main.cc, cxx/pclean/pclean.cc')])
p('Y01', 'The viewer reads the model files exactly as the model wrote them',
  'The Python viewer recovers from schema, observation and saved-cluster files exactly the relations, facts and clusters the C++ tools read and wrote, and its plotted matrices of numeric relations place every observed value at the row and column of its entities, listed cluster by cluster with every entity exactly once.',
  ['inputs'], 'all small schemas, observation sets and saved clusterings',
  'Tests read one sample file each.',
  ['py/hirm_io.py', 'py/visualize.py'], [('load_schema, load_observations, load_clusters', 'py/hirm_io.py'), ('matrix layout', 'py/visualize.py')])
p('P01', 'Python models: state after any history is that of a rebuild',
  'In the Python package, after any sequence of incorporating facts, re-clustering entities, re-sampling concentrations and adding or removing relations, a relational model holds exactly the facts given to it, its domains seat exactly the entities of those facts, cells and reverse indexes match the clustering, and its score equals that of a rebuild from scratch. Its seating process and its binary value model are exact on their own: predictive probabilities normalise, samples follow them, the score factors sequentially, and removal undoes addition.',
  ['histories'], 'all operation sequences up to a depth over seven relation shapes, with every outcome of every draw; all add/remove histories of the value model and all partitions of the seating process',
  'The tests run one seeded model per feature; nothing compares the state with a rebuild, and removal of relations is only checked for emptying everything.',
  ['src/hirm.py'], [('Relation, Domain, CRP, BetaBernoulli, IRM.add_relation/remove_relation', 'src/hirm.py')],
  [('data, data_r, clusters, crp', 'facts, reverse index, cells, seating', 'src/hirm.py')])
p('P02', 'Python models: inference steps draw from exact conditionals',
  'Re-clustering one entity in the Python relational model draws each existing cluster and exactly one fresh one with probability proportional to the exponentiated score of the resulting model, for any arity and with repeated domains; a sweep applies this to every entity of every domain once, in an order drawn uniformly; re-sampling a concentration draws a grid point in proportion to its score and leaves empty domains alone.',
  ['histories', 'inputs'], 'all small fact sets and clusterings over seven relation shapes, every entity, every outcome, whole sweeps compared with the composed law',
  'The tests only check that seeded inference recovers two obvious clusters.',
  ['src/hirm.py'], [('transition_cluster_assignment_item, logp_gibbs_exact, transition_alpha', 'src/hirm.py')])
p('P03', 'Python models: predictive probabilities marginalise unseen entities',
  'In the Python package the log-probability of a new fact, and the joint log-probability of several new facts, equals the sum over placements of the unseen entities (each placed once, in existing clusters in proportion to size or in a fresh one) of the placement probability times the cell predictives; values sum to one, a hierarchical model multiplies its submodels, and asking changes nothing.',
  ['histories', 'inputs'], 'all small states, all facts and pairs of facts over seen and unseen entities',
  'The tests check one trained model to one decimal.',
  ['src/hirm.py'], [('Relation.logp, logp_observations, HIRM.logp', 'src/hirm.py')])
p('P04', 'Python models: relations move between submodels by their exact odds',
  'In the Python hierarchical model every relation lives with exactly its facts in the one submodel its relation cluster names, through any sequence of adding, removing, filling and moving relations, and no submodel is empty or keeps entities of relations that left. A relation being re-assigned considers every other submodel, its own and exactly one fresh one, in proportion to relation-cluster weight times the exponentiated score of the relation in the resulting state.',
  ['histories'], 'all operation sequences up to a depth over two and three relations, every outcome of every draw, odds compared between executions that agree up to the last draw',
  'No test covers the Python hierarchical model.',
  ['src/hirm.py'], [('HIRM.transition_cluster_assignment_relation, set_cluster_assignment_gibbs, add_relation, remove_relation', 'src/hirm.py')])
p('P05', 'Python models survive dictionaries, JSON and cluster files unchanged',
  'Turning a Python model into a dictionary (also through JSON text) and back, or writing its clusters and loading them with the same schema and observations, gives a model with the same facts, clusterings, cells and scores, whatever the random seating made on the way; the file names every entity and relation exactly once, and a restored model draws only from the generator it was given.',
  ['histories', 'inputs'], 'all small models and clusterings of both kinds, with gaps in table numbers, and every outcome of the draws made while loading',
  'The tests round-trip one model of one kind.',
  ['src/util_io.py'], [('to_dict_*, from_dict_*, to_txt_*, from_txt_*', 'src/util_io.py')])
p('P06', 'Python plots place every fact at its entities, cluster by cluster',
  'The matrices drawn from a Python model list every entity exactly once, cluster by cluster with dividers exactly at the cluster ends, show each observed value at the row and column of its entities and nothing where there is no fact, also when transposed, curried at a predicate, or split by submodel.',
  ['inputs'], 'all small fact sets and clusterings of unary, binary, square and ternary relations and of two-relation hierarchical models',
  'No test draws anything with the package.',
  ['src/util_plot.py'], [('sort_*, plot_*', 'src/util_plot.py')])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for d in P: f.write(json.dumps(d) + '\n')
import re
for d in P:
    assert len(d['title']) <= 80, d['id']
    assert len([s for s in re.split(r'(?<=[.])\s+(?=[A-Z])', d['statement'])]) <= 3, d['id']
print(len(P))
