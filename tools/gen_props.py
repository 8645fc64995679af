#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the statements stay reviewable)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,
                   **({"state":[dict(name=n,meaning=m,where=w) for n,m,w in state]} if state else {}),hook_needed=hook)))

p("C01","A bit operation reads and changes exactly the addressed bit",
  "For every bit container of the library (the 256-bit block, bit sets, block-backed bit vectors), enabling, disabling or assigning the bit at an in-range position makes exactly that position read back the assigned value and leaves every other position unchanged. The value does not depend on whether the bits are viewed through 8-, 32- or 64-bit integers, or blocks: all views describe the same little-endian bit string. An out-of-range position is refused by a panic and never touches other memory.",
  ["inputs","histories"],"every content of the container, every position, every operation, every integer view",
  "Tests write a handful of fixed positions into fixed patterns; the claim is over all 2^256 block contents, all positions and all operation sequences.",
  ["src/bitblock.rs","src/bitset.rs","src/slice_store.rs"],
  [("BitBlock::{get_bit,set_bit,enable_bit}","src/bitblock.rs"),("BitBlocks","src/bitblock.rs"),("Bitset::{enable_bit,disable_bit,set_bit}","src/bitset.rs"),("BitVec accessors","src/slice_store.rs")],
  ["get_bit / cast views / count_ones after one or more writes"])
p("C02","Constructing bit vectors sets exactly the requested bits and pads with zeros",
  "Building a bit container of n bits as all-zeros, all-ones, from a bit/boolean iterator, or from a list of integers yields exactly the requested bit at each of the first n positions, consumes as many items as it reports, and leaves every padding bit after position n at zero. The population count of a freshly built container therefore equals the number of requested ones.",
  ["inputs"],"every length in the bound (crossing word and block boundaries), every bit content",
  "Tests use a few lengths and fixed patterns; off-by-one errors at word/block boundaries only show for particular lengths.",
  ["src/bitblock.rs","src/bitset.rs","src/slice_store.rs"],
  [("BitBlock::{zeros,ones,from_iter,from_bool_iter,set_bits}","src/bitblock.rs"),("Bitset::{falses,trues}","src/bitset.rs"),("BitBlockStore::alloc_*","src/slice_store.rs")],
  ["contents and count_ones of the constructed container"])
p("C03","Quantised gradient codes survive storage at every bit width",
  "Storing a discretised value in a bit slice of width 1, 2, 4 or 8 bits and reading it back gives the stored code, and does not disturb the code of any other example. Quantising a real value within bounds gives an in-range code, saturates outside the bounds, and is monotone; copying blocks between slices copies exactly the codes of that block and no others.",
  ["inputs","histories"],"every width, every position, every value, every prior content",
  "Tests round-trip fixed sequences at a few widths; position/width-specific shift and mask errors need particular lanes.",
  ["src/bitslice.rs","src/slice_store.rs"],
  [("BitSlice layouts, get/set_value","src/bitslice.rs"),("BitSliceMut::set_scaled_value, copy_block_from","src/slice_store.rs")],
  ["get_value after set_value / set_scaled_value / copy_block_from"])
p("C04","Gradient sums and counts over uncompressed masks equal the naive sums",
  "For a set of selected examples given as a full-length bit mask, the count equals the number of ones and the summed discretised gradient equals the sum of the per-example codes over exactly the selected examples; the variant with a second mask does so for the intersection. This holds for every bit width, in the scalar and in the vectorised kernel, and for every number of blocks.",
  ["inputs"],"all mask and gradient contents, every width 1/2/4/8, block counts including those that exercise every unrolled part of the kernel and its tail",
  "Tests compare on seeded random data of a few lengths; carry-save errors and tail errors only show for particular contents or lengths.",
  ["src/simd.rs","src/count_and_sum.rs"],
  [("Harley-Seal counting","src/simd.rs, src/count_and_sum.rs"),("sum_uu, sum_uuu, count_and_sum_*","src/simd.rs, src/count_and_sum.rs")],
  ["returned (count,sum)"])
p("C05","Gradient sums over compressed masks equal those over the expanded masks",
  "For an example set given in block-compressed form (only the non-zero words are stored, with their indices), the count and gradient sum computed against full-length or re-compressed gradient slices equal those of the same example set in uncompressed form. Words that are not listed in the index contribute nothing.",
  ["inputs"],"all mask contents, all increasing index lists, widths, lengths with and without partial tail blocks",
  "Tests check a few random samples; gather indices, padding of the last partial block and the index bookkeeping are input-specific.",
  ["src/simd.rs","src/count_and_sum.rs"],
  [("sum_cu, sum_cuu, gather loads","src/simd.rs"),("compressed loaders","src/count_and_sum.rs")],
  ["returned (count,sum)"])
p("C06","Iterating set bits visits exactly the selected examples, in order, once",
  "Iterating the ones of a bit vector, of an intersection of two, of an intersection with a complement, and of their block-compressed forms visits exactly the positions whose bit satisfies the condition, each once and in increasing order. Counting ones agrees with the number of visits.",
  ["inputs"],"all mask contents and index lists within the block bound",
  "Tests iterate a few fixed masks.",
  ["src/bitblock.rs","src/slice_store.rs"],
  [("BitBlocks::index_iter","src/slice_store.rs"),("for_each_index*","src/slice_store.rs, src/bitblock.rs")],
  ["visited positions"])
p("C07","Slice storage never lets two live slices overlap or lose their content",
  "After any history of allocations, frees and writes, every live slice of a store has the requested length and alignment, is initialised as requested, is disjoint from every other live slice, and keeps its content until it is written through its own handle, including across growth of the backing storage and reuse of freed slices. Borrowing two slices mutably gives the two distinct slices asked for, and a request that would alias is refused.",
  ["histories","inputs"],"every operation sequence within the bound, every length in the bound, every content",
  "Tests run one fixed sequence; overlap after free-and-reuse or growth depends on the order and sizes.",
  ["src/slice_store.rs"],
  [("SliceStore::{alloc,free,get,get_mut,get_two_mut}","src/slice_store.rs")],
  ["slice contents and addresses through the public handles"])
p("C08","Histograms keep per-feature bins separate and sibling subtraction is exact",
  "Each (feature, bin) cell of a node histogram is distinct from every other cell; writing one changes no other cell, in this or another live histogram. The histogram of the second child obtained by subtraction equals, in every cell, parent minus first child, and freshly allocated histograms are zero.",
  ["inputs","histories"],"every feature/bin layout within the bound, every cell content",
  "Tests use one layout.",
  ["src/slice_store.rs"],
  [("HistStore::{alloc_hists,free_hists,hist_subtract,...}","src/slice_store.rs")],
  ["cells read through the histogram handles"])
p("C09","Binning is order preserving and quantile lookup finds the right bin",
  "The binner maps every value within its limits to a bin in range, monotonically, and clamps values outside; every inserted count lands in exactly one bin so the total is preserved. The bin found for a rank is the one whose cumulative count range contains the rank, and the representative of a bin is the lower edge of that bin, up to float rounding.",
  ["inputs"],"every finite limit pair and value, every bin content, every rank",
  "Tests use a few values; boundary values and rounding matter.",
  ["src/binner.rs"],
  [("Binner::{insert,bin_with_rank,bin_representative}","src/binner.rs")],
  ["bin index, bin contents, representative"])
p("C10","Dataset bit vectors describe exactly the feature values of the bagged examples",
  "After a dataset update, for every active feature, each example in the bag has exactly one category/bin bit set for categorical features (and a nested, monotone set of bits for ordered features), and that bit agrees with the example's feature value through the reported categories, super-categories and split candidates. A numerical example is on the left side of a split candidate exactly when its value is less than the reported split value, as prediction tests it; the super-categories of a high-cardinality feature order its categories by the mean gradient of the bagged examples that have them. No bit is set for a position beyond the number of bagged examples, and nothing remains from any earlier update.",
  ["inputs","configurations","histories"],"every small dataset, every gradient content, every bag, repeated updates",
  "Tests check a toy CSV with fixed gradients and without sampling.",
  ["src/dataset.rs","src/binner.rs"],
  [("InnerDataset::update_{locard_cat,hicard_cat,num}","src/dataset.rs"),("fill_bitvecs","src/dataset.rs")],
  ["get_bitvec, get_supercats, get_split_value"])
p("C11","Bagging and feature sampling draw valid, duplicate-free subsets",
  "For every sequence of random draws, the sampled examples are distinct, sorted, in range and of exactly the configured number, and the in-bag and out-of-bag examples partition the data; the sampled features are distinct useful features (more than one value) of exactly the configured number; every such subset can come out. With fraction one everything is used. A new sample is drawn exactly at the rounds the sampling frequency names, and the previous one stays in force between them. (Fractions outside 0..1, or so small that no example would remain, are refused.)",
  ["inputs","configurations","histories"],"every outcome of the random generator, every fraction and size in the bound",
  "Tests run with one seed.",
  ["src/dataset.rs"],
  [("Dataset::sample_examples / sample_features / shuffle_first_k","src/dataset.rs")],
  ["bag, out-of-bag and active feature lists"])
p("C12","Prediction routes every example to the leaf its feature values select",
  "For every tree and example, predicting walks from the root by each node's documented test (equality for low-cardinality categories, less-than for numbers, super-category order for high-cardinality categories) and returns that leaf's value; a category above every category of the training data takes the right branch. An ensemble's prediction is its bias plus the sum of its trees' values, for every example independently of the batch.",
  ["inputs","programs"],"every tree up to the depth bound, every split, every leaf value, every feature value including unseen categories",
  "Tests predict with one trained tree on its training data.",
  ["src/tree/tree.rs"],
  [("Tree::{split_node,set_value,predict}","src/tree/tree.rs"),("AdditiveTree::predict","src/tree/tree.rs")],
  ["predictions"])
p("C13","Training assigns to each leaf exactly the examples prediction sends there",
  "The example set handed to the objective for each leaf equals the set of bagged training examples that the finished tree's prediction routes to that leaf; the leaves partition the bag, and every out-of-bag example gets the value of the leaf prediction routes it to. This holds with and without compression, sampling, and for every feature type.",
  ["inputs","configurations"],"every small dataset (feature values and gradients symbolic), tree depth, discretisation width and compression setting in the bound",
  "Tests train on toy data and look at loss, not at the routing of each example.",
  ["src/tree/learner.rs","src/tree/tree.rs","src/dataset.rs"],
  [("TreeLearner::{split_node,apply_split,compress}","src/tree/learner.rs"),("update_out_of_bag","src/tree/learner.rs")],
  ["example lists passed to the objective, Tree::predict"])
p("C14","Each split is the best admissible one and respects the configured limits",
  "The learner splits a node only if some admissible split improves the gain by at least the configured minimum, picks one whose gain on the discretised gradients is maximal, never creates a leaf with fewer examples than the configured minimum, and never exceeds the configured depth. A node is left a leaf only if there is no admissible split.",
  ["inputs","configurations"],"every small dataset and gradient content, every minimum leaf size, depth and gain threshold in the bound",
  "Tests only check that training terminates with a low loss on toy data.",
  ["src/tree/learner.rs"],
  [("build_histograms, derive_histograms, find_best_split","src/tree/learner.rs")],
  ["structure of the trained tree"])
p("C15","Objectives keep gradients, leaf values and running predictions consistent",
  "For every objective, after an update each gradient is the derivative of the loss at the current prediction, lies within the reported bounds where the objective promises it, and assigning a leaf adds exactly the returned value to the prediction of exactly the listed examples. The leaf value is the documented optimum (mean, median, clipped mean or Newton step) scaled by the learning rate.",
  ["inputs"],"every finite target, prediction and example list within the size bound",
  "Tests have one fixed-target check per objective at most.",
  ["src/objective.rs"],
  [("initialize/update/predict_leaf_value","src/objective.rs")],
  ["gradients(), bounds(), predictions(), returned leaf value"])
p("C16","Metrics compute their documented value for every input",
  "Each metric equals its definition on every pair of targets and predictions: error metrics are non-negative, zero on perfect predictions, and rates lie between zero and one; metrics do not modify their inputs, are looked up by their documented names, and an unknown name is answered with nothing rather than another metric.",
  ["inputs"],"all finite targets and predictions within the length bound",
  "There are no metric tests for boundary predictions.",
  ["src/metric.rs"],
  [("Metric::eval","src/metric.rs")],
  ["returned value"])
p("C17","Configuration parsing stores exactly the given values or reports an error",
  "Parsing a configuration record stores the given value in the named option and leaves every other option unchanged, or returns an error and changes nothing; unknown names and out-of-domain values are errors, never panics. Of several records for one option the last one wins; lists are split at commas and their items trimmed; white space around names and values does not matter.",
  ["inputs"],"all short option strings and values",
  "Tests parse a few well-formed records.",
  ["src/config.rs"],
  [("Config::{parse,set_field,...}","src/config.rs")],
  ["resulting Config fields, Err"])
p("C18","Loaded data keeps every value and derives feature limits that contain it",
  "Building a data set from CSV text or from raw feature arrays keeps every cell value and the target, and the derived per-feature limits, cardinality, type and bin count are consistent with the values: every value lies within the limits, the limits are attained, and a feature is treated as categorical only as declared. Malformed input (no records, ragged rows, non-numbers, negative, non-integral, infinite or too large categories) gives an error rather than a panic or silently altered data.",
  ["inputs","configurations"],"all small tables, category declarations and limits",
  "Tests load fixed, well-formed files.",
  ["src/data.rs"],
  [("Data::{from_csv,set_feature_data,feat_limits,...}","src/data.rs")],
  ["Data accessors, Err"])
p("C19","No failure crosses the C interface as a panic or memory error",
  "Every C entry point called in any order with valid handles returns normally: a failure inside (bad configuration, untrainable data, prediction before training) is turned into a null or error result instead of unwinding into the caller, and handles can be freed once after any such history. Predictions returned through the interface equal those of the library on the same data. (Exhaustion of memory is outside the claim.)",
  ["histories","inputs","fault_sequences"],"call sequences and arguments within the bound",
  "No test exercises the C interface.",
  ["src/c_api.rs"],
  [("extern \"C\" functions with catch_unwind","src/c_api.rs")],
  ["return values, process survival"])
p("C20","The learned tree does not depend on the parallel schedule or storage form",
  "The tree learned from given data, gradients and configuration is the same whichever order the workers process features in, and whether or not intermediate example sets are stored compressed. Nothing computed for one feature depends on the order in which another is processed.",
  ["schedules","inputs","configurations"],"every processing order of the features, all gradient contents within the bound",
  "Tests run under whatever schedule occurs and never compare two.",
  ["src/tree/learner.rs","src/slice_store.rs"],
  [("parallel histogram construction","src/tree/learner.rs"),("compression of node bit sets","src/tree/learner.rs")],
  ["trained trees under two orders / compression settings"])
p("C21","A boosted model predicts on its training data what training recorded",
  "After any number of boosting rounds, predicting the training data with the returned model gives for every example, in the bag or out of it, exactly the running prediction the objective held at the end of training. The model holds one tree per round and its bias is the objective's starting value.",
  ["inputs","configurations","histories"],"every small dataset, several rounds, sampling outcomes and objectives within the bound",
  "Tests only check that loss decreases on one data set.",
  ["src/boost.rs","src/tree/learner.rs","src/objective.rs","src/tree/tree.rs"],
  [("Booster::train","src/boost.rs")],
  ["AdditiveTree::predict versus Objective::predictions"])
p("C22","Training is reproducible: data, configuration and seed determine the model",
  "Training twice with the same data, configuration (including the random seed) and objective gives models with identical predictions for every example, whatever the random generator makes of the seed. It makes no difference whether the objective or the interface handle was used for other training before, whether and how often metrics are evaluated during training, or whether the model was used for prediction in between. All randomness comes from the configured seed: different seeds are given to the generator as configured.",
  ["inputs","configurations","histories"],"every outcome of the random draws of a seed, every small target vector, earlier uses of objective and handle, metric settings",
  "Tests train once with one seed and never compare two runs.",
  ["src/boost.rs","src/dataset.rs","src/objective.rs","src/tree/learner.rs","src/c_api.rs"],
  [("Booster::train","src/boost.rs"),("generator seeding and sampling","src/dataset.rs"),("initialize","src/objective.rs")],
  ["AdditiveTree::predict and bb_predict of two runs"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
