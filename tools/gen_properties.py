"""Writes /verif/properties.jsonl (one place to keep the wording of the properties)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=observe,
                               hook_needed=None)))
A, C, R, S, T = ("ruleskit/activation.py", "ruleskit/condition.py", "ruleskit/rule.py", "ruleskit/ruleset.py", "ruleskit/thresholds.py")
F, U = "ruleskit/utils/rfunctions.py", "ruleskit/utils/rule_utils.py"
p("C01", "Activation vectors survive every storage and export format unchanged",
  "Whatever form an activation vector is given in (raw array, bit array, integer with its length, compressed text or array, binary text, file) and whatever form it ends up stored in, reading it back raw gives exactly the original sequence of 0s and 1s, with its original length. Exporting it as bit array, integer, compressed text or compressed array gives a faithful encoding of that same sequence, from which an equal vector can be rebuilt.",
  ["inputs", "configurations"], "Every 0/1 vector, every input form, every combination of the storage settings (memory or file, optimised or not, integer or bit array preferred, text or array compression, raw), every outcome of the memory-size comparison that picks the stored form.",
  "The tests convert a handful of fixed vectors between a few formats; the number of vectors, settings and size-comparison outcomes is exponential and the stored format depends on the data.",
  [A], [("constructor and _init_with_*", A), ("_compress/_decompress/_integer_to_raw/_bitarray_to_raw/_raw_to_*", A), ("raw, as_* accessors", A)], ["Activation.raw", "Activation.as_bitarray", "Activation.as_integer", "Activation.as_compressed_str", "Activation.as_compressed_array", "len(Activation)"])
p("C02", "Activation statistics describe the actual vector in every format",
  "For any activation vector, however it is stored and in whatever order its statistics are asked for, its length, number of ones, list of positions of ones and coverage (ones divided by length) are those of the vector. Its entropy is the number of value changes plus two and its relative entropy is that divided by the length.",
  ["inputs", "configurations", "histories"], "Every non-empty 0/1 vector, every storage format and setting, every order of first access to the statistics and exports.",
  "Statistics are computed lazily and cached by whichever conversion runs first; tests look at one access order on one or two vectors per format.",
  [A], [("nones, ones, coverage, entropy, rel_entropy", A), ("values cached by the _init_with_* methods and conversions", A)], ["nones", "ones", "coverage", "entropy", "rel_entropy", "len"])
p("C03", "Logical operations on activation vectors are exact and format-independent",
  "AND, OR, exclusive OR, sum (a synonym of OR) and difference of two activation vectors, and the AND, OR and exclusive OR (1 where some but not all are 1) of many, give at every position the Boolean result of the operands at that position and keep the common length, whatever formats the operands are stored in and however much memory is free (when too little is, a MemoryError may be raised instead). Operating on two vectors of different lengths is refused, and no operation changes its operands.",
  ["inputs", "configurations"], "All pairs (and small lists) of 0/1 vectors of equal or different lengths, all mixes of storage formats and settings, any answer about available memory.",
  "Each pair of formats takes a different code path and the result format again depends on the data; tests cover single fixed vectors per operation.",
  [A], [("__and__, __or__, __xor__, __add__, __sub__", A), ("multi_logical_and/or/xor with their low-memory branches", A)], ["Activation.raw of result and operands"])
p("C04", "Containment and correlation between activations are exact",
  "One activation vector (or rule) contains another exactly when every point activated by the second is activated by the first. The correlation of two vectors is the fraction of positions where they agree, between 0 and 1, and the correlation of two rules is that fraction times the product of the signs of their predictions; vectors of different lengths are refused.",
  ["inputs", "configurations"], "All pairs of 0/1 vectors, any storage formats, any non-zero predictions.",
  "Tests check a couple of fixed pairs; wrong answers appear only for particular overlaps (subset versus superset, equal counts, unequal lengths).",
  [A, R], [("Activation.__contains__, get_correlation", A), ("Rule.__contains__, get_correlation", R)], ["in operator", "get_correlation"])
p("C05", "Reading, exporting, profiling and copying never alter an activation vector",
  "Asking a vector for any export, statistic, size or timing, in any order and even with forced profiling, leaves its contents, statistics and the global settings unchanged, and a copy is equal to but independent of the original. A vector kept in a file keeps its contents whatever other vectors are created, profiled, copied or deleted, even when a chosen file name is already taken.",
  ["inputs", "histories", "configurations"], "Every 0/1 vector, format and setting, every short sequence of accesses, and every outcome of the random choice of file names.",
  "The interesting cases need a name collision in a space of 10^64 names or a particular sequence of profiling calls; the tests never produce them.",
  [A], [("profiling properties that temporarily swap data and data_format", A), ("_write name search", A), ("__copy__, delete, clear", A)], ["Activation.raw", "class settings", "files in the store"])
p("C06", "A condition is met exactly on finite points inside all its closed intervals",
  "Evaluating a hyperrectangle condition marks an observation 1 if and only if, for every feature of the condition, the value is finite and lies between the lower and upper bound inclusive, and 0 otherwise; an impossible condition marks nothing. Features are found by position in arrays and by name in data frames, the two agree, and the given data is not modified.",
  ["inputs"], "All real, infinite or NaN feature values, all bounds including equal, reversed and infinite ones, any number and order of features and columns, arrays and data frames with any index.",
  "Tests use fixed arrays; boundary equality, NaN and infinite values and column order combinations are unbounded.",
  [C, R], [("HyperrectangleCondition.evaluate", C), ("Rule.evaluate_activation", R)], ["condition.evaluate(xs)", "rule.evaluate_activation(xs).raw"])
p("C07", "The conjunction of conditions selects the intersection",
  "The AND of two conditions is met exactly where both are met, on any data: shared features get the intersection of the two intervals and other features are kept with their own bounds, an empty intersection being recognised as impossible. The operands are left unchanged, inconsistent feature numbering between operands is refused, and the AND of two rules carries both that condition and the AND of their activations.",
  ["inputs"], "All pairs of conditions over any overlap of features, all real bounds, all data.",
  "The result depends on how features overlap and on the order of four bounds per shared feature; tests use a few fixed pairs.",
  [C, R], [("HyperrectangleCondition.__and__", C), ("Rule.__and__", R)], ["(c1 & c2).evaluate", "impossible", "bounds, names and indexes of the result"])
p("C08", "A condition keeps each bound attached to its feature, and equality means it",
  "However its features are listed and whichever sorting is configured, a condition pairs every feature with the bounds it was given, through creation, sorting and item access. Two conditions are equal exactly when they name the same features with the same bounds in any order, equal ones hash alike, and replacing bounds updates whether the condition is impossible.",
  ["inputs", "histories"], "All numbers and orders of features, all bounds including equal ones, both sort modes, all replacements of bounds.",
  "Mispairing appears only for particular orders and ties of bounds, hash collisions only for particular numbers, and stale flags only after particular sequences of updates.",
  [C], [("constructor and sort", C), ("__eq__, __hash__, to_hash", C), ("bmins/bmaxs setters", C)], ["features_indexes, features_names, bmins, bmaxs", "==", "hash", "impossible"])
p("C09", "Fitting a regression rule yields the statistics of its activated targets",
  "After fitting a regression rule, its coverage is the fraction of observations meeting its condition, its prediction is the mean of the known (non-NaN) targets of those observations, its deviation is their unbiased standard deviation, its sign is that of the prediction, and its z-score is the distance of the prediction to the mean of all targets divided by the population deviation of all targets over the square root of the number of activated observations per horizon. When no activated target is known the prediction is NaN.",
  ["inputs", "configurations"], "All finite or NaN targets, all feature data, arrays or series, any horizon, any activation storage.",
  "Tests compare a few fixed data sets with precomputed numbers; NaN targets, one or no activated point and sign changes are combinations they do not sample.",
  [R, F], [("RegressionRule.calc_*", R), ("conditional_mean, conditional_std, calc_zscore_external", F)], ["coverage", "prediction", "std", "sign", "zscore"])
p("C10", "Fitting a classification rule yields its activated classes' proportions",
  "After fitting a classification rule, each class present among the activated targets has as probability its share of them, and the rule predicts a most frequent class, the first in class order if tied. Its success rate on given targets is the fraction of activated targets equal to its prediction, NaN if nothing is activated.",
  ["inputs"], "All assignments of integer or text classes to observations, all activations.",
  "Ties, single-class and empty activations and class-name types multiply; tests have a few fixed targets.",
  [R, F], [("ClassificationRule.calc_prediction, prediction, calc_criterion", R), ("class_probabilities, success_rate, calc_classification_criterion", F)], ["prediction", "class probabilities", "criterion"])
p("C11", "A rule predicts its value exactly where its condition is met",
  "Predicting with a rule gives its prediction at every observation meeting its condition and NaN everywhere else, in the order and with the index of the data, for numeric and text predictions alike, on new data or on the data it was fitted on. Predicting changes neither the rule's fitted state nor the data.",
  ["inputs"], "All feature data with any index, all predictions, arrays or data frames.",
  "Depends on every activation pattern, index and prediction type; tests sample a few.",
  [R], [("Rule.predict", R), ("Rule.calc_prediction_vector", R)], ["rule.predict(xs)", "rule.predict()"])
p("C12", "Error criteria equal their definitions over predicted points",
  "The mean squared and mean absolute errors are averages over the observations that have a prediction; the normalised squared error divides by the variance of the targets around their mean, the normalised absolute error by their mean absolute distance to their mean, and the average-absolute criterion by the mean absolute distance of targets to their median. This holds for one prediction vector and for many side by side, matched by position whatever the index of the targets, and an unknown criterion or a length mismatch is refused.",
  ["inputs"], "All real targets and predictions, every pattern of missing predictions, arrays or series with any index.",
  "Tests evaluate fixed vectors; missing patterns and index misalignment combinations are unbounded.",
  [F], [("mse_function, mae_function, aae_function, *_norm, calc_regression_criterion", F)], ["rule.criterion", "ruleset.criterion", "calc_regression_criterion"])
p("C13", "Fitting all rules at once gives the same rules as fitting each alone",
  "Fitting a rule set with the stacked method gives every rule the same coverage, prediction, deviation, sign, z-score and training size as fitting that rule individually, and evaluating it gives the same criteria, for every rule with at least two activated known targets. Both methods keep the same rules.",
  ["inputs", "configurations"], "All targets (zero included) and feature data, regression and classification, arrays or series with any index.",
  "The two methods are separate implementations compared by tests on single data sets; zeros, ties and index shapes distinguish them.",
  [S, R, F], [("RuleSet.fit/eval STACKED_FIT branches, calc_*s", S), ("DataFrame branches of the statistics", F)], ["rule attributes after ruleset.fit/eval"])
p("C14", "A regression rule set predicts the weighted mean of its activated rules",
  "At every observation the prediction of a regression rule set is the average of the predictions of the rules activated there, weighted by the given weights (equal weights by default), and NaN where no rule with a usable weight is activated. Rules without weight, or with a zero or NaN weight, are ignored, the stacked and unstacked methods agree, and predicting alters nothing. Predicting may be refused (ValueError) only when no rule with a usable weight and prediction is activated at any observation.",
  ["inputs", "configurations"], "All activations, real predictions (zero and opposite ones included) and positive weights, any number of rules up to the bound, one case beyond 255 rules, any activation storage.",
  "Wrong results need cancelling or zero predictions, overlapping activations, particular storage or many rules; tests use fixed small sets.",
  [S, F], [("predict, _calc_prediction_stacked/_unstacked", S), ("calc_ruleset_prediction_*_regressor_*, init_weights_stacked", F)], ["ruleset.predict(xs, weights)"])
p("C15", "A classification rule set predicts by vote and abstains on ties",
  "At every observation, a classification rule set predicts the class with most activated rules, or, with weights, the class with the greatest total weight (individual fit) or the class most frequent among the activated rules of greatest weight (stacked fit). It predicts nothing where the first place is tied or where no rule with a usable weight is activated. Predicting may be refused (ValueError) only when no rule with a usable weight is activated at any observation.",
  ["inputs", "configurations"], "All activations, all assignments of integer (zero included) or text classes to rules, positive weights, at the stated number of rules.",
  "Ties and zero-labelled or text classes interact with which rules are active per observation; tests use a few fixed tables.",
  [S, F], [("calc_ruleset_prediction_*_classificator_*", F), ("_calc_prediction_stacked/_unstacked", S)], ["ruleset.predict(xs, weights)"])
p("C16", "A rule set's activation is the union of its rules' after any history",
  "After any sequence of building, appending, adding, fitting, evaluating, dropping, slicing and sorting, the activation of a rule set is the OR of the activations of the rules it then holds, and its coverage is that of this vector. When stacked activations are kept, they hold exactly one column per rule, in rule order, equal to that rule's activation; otherwise the rule set says that it has none.",
  ["inputs", "histories", "configurations"], "All activations, every short sequence of operations, with and without stacking, fitted individually or stacked, with and without rejected rules.",
  "The activation is updated incrementally by some operations and recomputed by others; tests check isolated operations.",
  [S, A], [("__init__, __iadd__, append, _update_activation, _update_stacked_activation", S), ("fit/eval drop logic", S), ("evaluate_self_activation, evaluate_stacked_activations", S)], ["ruleset.activation", "ruleset_coverage", "stacked_activations"])
p("C17", "Thresholds reject exactly the rules that break a limit",
  "A rule is flagged bad if and only if one of its measured attributes (its own, or those of its activation or condition) violates a configured limit (below the minimum, above the maximum, different from or equal to a given value, after any configured transformation), and the reported reason is such an attribute. Fitting or evaluating a rule set, by either method, removes exactly the bad rules, returns them, and keeps the order of the others.",
  ["inputs", "configurations"], "All data, all limits on the measured attributes, limits set for all rules or for one rule only, both fitting methods.",
  "Whether a limit is hit depends on data and limit values at equality; tests use one thresholds file.",
  [T, R, S], [("Thresholds.__call__ and constructor", T), ("Rule.check_thresholds, set_thresholds, fit, eval", R), ("RuleSet.fit/eval to_drop", S)], ["rule.good", "rule.bad_because", "ruleset rules after fit/eval", "returned dropped rules"])
p("C18", "Saving and loading a rule set preserves its rules and measures",
  "Loading a saved rule set gives the same rules in the same order: features, bounds (infinite ones included), prediction, coverage, criterion, deviation and z-score, and names. It also restores the rule set's coverage, criterion, and training and test sizes, as numbers, and the loaded rules predict on new data exactly as the saved ones.",
  ["inputs"], "All bounds and real measures, regression and classification rules, text classes that are not themselves written as numbers or Python literals.",
  "Formatting and parsing depend on the values (infinite, NaN, text with spaces); tests round-trip one or two files.",
  [S], [("to_df, rule_to_series, save", S), ("load, series_to_rule", S)], ["RuleSet.save then RuleSet().load"])
p("C19", "Rules extracted from a decision tree describe the tree's regions",
  "Every rule extracted from a decision tree describes exactly the part of the data range selected by the path of tests to its node, its bounds staying within the given feature ranges. The leaf rules activate every in-range point not lying on a split value exactly once, with the value of the leaf the tree sends it to.",
  ["inputs"], "Every tree shape up to the depth bound, all features and split values including the same feature tested again, regression and classification, all in-range points.",
  "Only one or two fitted trees are tested; repeated features along a path need deeper trees and specific split values.",
  [U, C], [("extract_rules_from_tree visitor", U), ("condition conjunction", C)], ["extract_rules_from_tree(...)"])
p("C20", "Rule set ordering, membership, equality and duplicates follow the rules",
  "Sorting a rule set only permutes it: by default by number of features, then by feature names (in reverse order on request), then by lower bounds and upper bounds, and by a named attribute otherwise, increasing or, on request, decreasing. Two rule sets are equal exactly when they hold the same conditions (and then have the same hash), membership is having a rule with the same condition and prediction, and duplicate checking refuses exactly the sets that hold such a rule twice.",
  ["inputs"], "All small rule sets, all bounds and predictions, ties included.",
  "Depends on the relative order and equality of every bound and value; tests sort one or two fixed sets.",
  [S, R, C], [("RuleSet.sort", S), ("__contains__, __eq__, check_duplicated_rules", S)], ["order of rules", "==", "in", "ValueError on duplicates"])
p("C21", "Evaluating and predicting on new data leave the fitted rule set as it was",
  "Evaluating a rule or rule set on test data, when new activations are not to be kept, and predicting, change neither the activations, predictions, deviations and coverage obtained from training nor the caller's data. The criterion obtained is the one of the fitted predictions on the given targets and features, and test sizes are recorded.",
  ["inputs", "histories", "configurations"], "All training and test data, both fitting methods, regression and classification, with and without weights.",
  "State leaks appear only for particular call sequences, flags and fitting methods; tests check results after single calls.",
  [S, R], [("Rule.eval, RuleSet.eval keep_new_activations logic", S), ("RuleSet.predict, calc_criterion", S)], ["rule and ruleset state before and after eval/predict", "criterion"])
p("C22", "A rule set reports exactly the features of the rules it holds",
  "After any sequence of building, appending, adding, slicing, sorting, replacing the rules, fitting, evaluating, dropping bad rules, saving and loading, the features names and indexes of a rule set are those of the rules it then holds, each once, and its features count gives, by decreasing number, in how many rules each feature appears. When a table of features indexes is configured, the rule set and its rules use the indexes of that table. Its rule type is that of the rules it holds. Adding something that is not a rule, or rules of another kind than those it holds, is refused (TypeError) and leaves it unchanged.",
  ["inputs", "histories", "configurations"], "All sequences of operations on rule sets of a few rules sharing features, all activations deciding which rules are dropped, both fitting methods, any table of features indexes.",
  "Stale or missing features show only after particular sequences (dropping then appending, loading then adding); tests look at a rule set just after one operation.",
  [S], [("__init__, __iadd__, __add__, append, rules setter", S), ("set_features_indexes, get_features_count, fit/eval to_drop, load", S)], ["features_names", "features_indexes", "get_features_count()", "TypeError"])
p("C23", "Deleting activation data keeps what was computed and touches nothing else",
  "Deleting the data of an activation vector removes its file or its contents and nothing else: what was asked for before (number of ones, coverage, entropy, length) remains available, a rule or rule set whose activation was deleted says it is unavailable and gives None for it while keeping its coverage and prediction, and other vectors, rules and stacked activations keep theirs. Clearing a vector gives a vector of zeros of the same length, with the statistics of zeros. Cleaning the files of vectors removes those files only.",
  ["inputs", "histories", "configurations"], "All vectors in every stored format and setting, any statistics asked for before, deleted once or twice, rules and rule sets of a few rules, any order of deletions.",
  "What survives depends on the stored format and on what was computed before; tests delete one vector.",
  [A, R, S], [("Activation.delete, clear, clean_files", A), ("Rule.del_activation, activation, activation_available, coverage", R), ("RuleSet.del_activation(s), del_stacked_activations, activation, ruleset_coverage", S)], ["activation", "activation_available", "coverage", "ruleset_coverage", "files in the temporary folder"])
p("C24", "A rule reads and writes the attributes of its condition and activation",
  "Reading from a rule an attribute it does not have itself gives that of its activation or condition (features, bounds, impossible flag, number of ones, entropy, length...), and a rule set gives those of its activation. Assigning features or bounds to a rule changes its condition, so the rule then evaluates data with the new ones, and assigning never changes another rule. An attribute that nothing has cannot be read or assigned (AttributeError); new bounds or features in a different number (IndexError), or naming a feature twice (DuplicatedFeatures), are refused and leave the rule unchanged.",
  ["inputs", "histories"], "All bounds, vectors and points, one or two assignments in any order, lists or texts.",
  "The effect of an assignment shows only when the rule is evaluated afterwards on points between the old and new bounds; tests read attributes back at most.",
  [R, C, S], [("Rule.__getattr__, __setattr__", R), ("setters of features_indexes, features_names, bmins, bmaxs", C), ("RuleSet.__getattr__", S)], ["rule.<attribute>", "rule.<attribute> = value", "rule.evaluate_activation"])
p("C25", "Ill-formed conditions, rules, vectors and unfit data are refused",
  "A condition is accepted if and only if its lists of features, names, lower and upper bounds have one length, hold integers, texts and numbers, and name no feature twice. A rule accepts only a condition and a vector, a vector only one of the documented forms (an integer only with its length). Data lacking a feature of the condition, vectors of different lengths, predicting, fitting or evaluating with neither activation nor data, stacked fitting or evaluating with another number of targets than observations, and limits that are not numbers or attributes or with an unknown transformation, are refused by an exception and leave the objects unchanged.",
  ["inputs"], "All combinations of list lengths, repetitions and types within the bounds, any number of columns and targets.",
  "Tests try a few malformed inputs; each guard must hold for every position, length and repetition, and must not refuse well-formed inputs.",
  [C, R, A, S, T], [("Condition and HyperrectangleCondition constructors, evaluate", C), ("Rule constructor, fit, eval, predict, calc_activation", R), ("Activation constructor and operators", A), ("RuleSet.fit/eval/evaluate/sort", S), ("Thresholds.__call__", T)], ["exceptions raised", "state after a refusal"])
p("C26", "The text of a condition, rule or rule set says what it is",
  "The text of a condition names each of its features once with its current bounds written exactly, joined by AND, so two conditions on the same features have the same text only if they have the same bounds. The text of a rule is that of its condition followed by its prediction, or by 'prediction unset' while it has none, whatever the kind of rule, prediction or fitting. The text of a rule set is that of its rules in order, one per line: all of them when they are fewer than twice NLINES, else the first and last NLINES around a line '...'. Texts follow any later change of bounds, features, prediction or rules.",
  ["inputs", "histories", "configurations"], "All features and orders of features, bounds, predictions and targets, rule sets of any small number of rules, each number of lines, changes made afterwards by assigning, fitting, sorting, slicing and adding.",
  "Digits lost, a rule repeated or forgotten around the ellipsis and stale texts show only for particular bounds, sizes and sequences; tests compare the text of a few fixed rules.",
  [C, R, S], [("HyperrectangleCondition.__str__, __repr__", C), ("Rule.__str__ of each kind of rule", R), ("RuleSet.__str__, NLINES", S)], ["str(condition)", "str(rule)", "str(ruleset)"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
