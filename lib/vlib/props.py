"""What each check consists of."""
PROPS = {}


def prop(id, **kw):
    kw.setdefault("driver", id.lower())
    kw.setdefault("judge", id)
    kw.setdefault("level", "model_checking")
    PROPS[id] = kw


prop("C01", mc=[("SvmLoaderMC", "SvmLoaderMC.cfg")], gen=[("SvmGen", "SvmGen.cfg")],
     rule="Every sparsity pattern of up to 3 (thorough 4) rows and features from SvmGen, and seeded random files; each is rendered, loaded through one kind of handle and judged cell by cell.")
prop("C02", chain=True, mc=[("SvmLoaderMC", "SvmLoaderMC.cfg")],
     rule="Histories of loads in one process: every kind of malformed line at several positions between good loads, and random histories.")
prop("C03", mc=[("SvmLoaderMC", "SvmLoaderMC.cfg")],
     rule="Random float32 matrices (random bit patterns, extremes, decimals) of 1 to 300 rows dumped through every kind of handle and loaded back.")
_DATA_GEN = [("DataGen", "DataGen.cfg")]
_DATA_MC = dict(mc=[("DataMC", "DataMC.cfg")], mc_thorough=[("DataMC", "DataMC_t.cfg")], gen=_DATA_GEN)
prop("C04", rule="Every layout of up to 3 (thorough 4) queries in every id order from DataGen, random layouts up to 700 queries with ids over the int32 range, and all wrong lengths up to 10.", **_DATA_MC)
prop("C05", rule="Every split of 1..11 (thorough 24) queries at ratios in tenths from DataGen, and random layouts and ratios; every split is made twice from the same seed.", **_DATA_MC)
prop("C06", mc=[("FoldMC", "FoldMC.cfg")], mc_thorough=[("FoldMC", "FoldMC_t.cfg")], gen=_DATA_GEN,
     rule="Every number of folds for 2..11 (thorough 24) queries, shuffled and not, ids-only and dataset variants, interleaved generators, and random layouts.")
prop("C07", chain=True, rule="Histories of query subsets, feature subsets and writes over a pool of datasets derived from one root, the whole pool compared after every event.", **_DATA_MC)
prop("C08", rule="Every small layout against some twenty variants of itself (one cell, one label, moved boundary, exchanged ids, shapes, memory layouts), and cached scores and ideal gains keyed by such pairs.", **_DATA_MC)
_FMT = dict(mc=[("FormatsMC", "FormatsMC.cfg")], mc_thorough=[("FormatsMC", "FormatsMC_t.cfg")], gen=[("FormatsGen", "FormatsGen.cfg")])
_FRULE = " files for every forest of up to two trees with up to 3 (thorough 4) splits each from FormatsGen, random forests (up to 70 trees, 300 features, depth 60, 255 splits), several tree limits; rows on and next to every threshold."
prop("C09", rule="QuickRank" + _FRULE, **_FMT)
prop("C10", rule="XGBoost and scikit-learn" + _FRULE, **_FMT)
prop("C11", rule="LightGBM (two dialects) and Jforests" + _FRULE, **_FMT)
prop("C12", rule="CoreML" + _FRULE + " Oblivious trees of depth 0 to 8 and mixed sizes.", **_FMT)
_SCORE = dict(mc=[("ScoringMC", "ScoringMC.cfg")], mc_thorough=[("ScoringMC", "ScoringMC_t.cfg")], gen=[("FormatsGen", "FormatsGen.cfg")])
prop("C13", rule="Every forest of up to two small trees from FormatsGen and random models of all six formats, scored on rows on, next to and far from thresholds, missing and infinite values, in several memory layouts, with every kind of base score and learning rate; sizes up to 300 trees, 511 splits, 3000 rows and 32767 features.", **_SCORE)
prop("C14", runs=[dict(env={"OMP_NUM_THREADS": n}) for n in ("1", "3", "8")],
     rule="Random models of all six formats scored in detail with one, three and eight threads, from no rows to 4000 and up to 200 trees, twice.", **_SCORE)
_FG = [("FormatsGen", "FormatsGen.cfg")]
prop("C15", chain=True, mc=[("ScoreCacheMC", "ScoreCacheMC.cfg")], mc_thorough=[("ScoreCacheMC", "ScoreCacheMC_t.cfg")],
     rule="Random histories of up to 16 scoring calls over several datasets (equal, nearly equal, equal but distinct, impossible to score), all combinations of options, with clearing, copying, truncation and writes to public weights that make old answers recognisable.")
prop("C16", chain=True, mc=[("FormatsMC", "FormatsMC.cfg")], gen=_FG,
     rule="Histories of copies, limited loads and writes over a pool of models of all six formats; arrays, parameters and scores of the whole pool are compared after every event.")
prop("C26", mc=[("TopologyMC", "TopologyMC.cfg")], mc_thorough=[("TopologyMC", "TopologyMC_t.cfg")], gen=_FG,
     rule="Every forest of up to two small trees from FormatsGen and random forests in all six formats (up to 300 trees, 62 levels, 400 splits), and their truncated copies.")
prop("C30", mc=[("DotMC", "DotMC.cfg")], mc_thorough=[("DotMC", "DotMC_t.cfg")], gen=_FG,
     rule="Every forest of up to two small trees from FormatsGen and random forests in all six formats, drawn with every option, depth limits 0 to 12 and feature namings, to a string, a path or a file; the text is parsed back into nodes and edges.")
prop("C31", mc=[("FormatsMC", "FormatsMC.cfg")], mc_thorough=[("FormatsMC", "FormatsMC_t.cfg")], gen=_FG,
     rule="Every forest of up to two small trees from FormatsGen and random forests in all six formats, truncated or not, with random float32 bit patterns as thresholds, outputs and weights, saved and loaded; unsupported formats.")
_MET = dict(mc=[("MetricsMC", "MetricsMC.cfg")], mc_thorough=[("MetricsMC", "MetricsMC_t.cfg")], gen=[("MetricsGen", "MetricsGen.cfg")])
_MRULE = " on every labelling (0..2) and ranking of up to 3 (thorough 4) documents and on random datasets (up to 150 documents a query, 70 queries), with random cutoffs, thresholds and other parameters, query by query and as a dataset; tied scores where all orders can be tried."
prop("C17", rule="Precision, recall, reciprocal rank, average precision and max-label precision" + _MRULE, **_MET)
prop("C18", rule="RBP, ERR and Pfound" + _MRULE, **_MET)
prop("C19", chain=True, mc=_MET["mc"] + [("NdcgCache", "NdcgCache.cfg")], mc_thorough=_MET["mc_thorough"], gen=_MET["gen"],
     rule="Histories of up to 8 whole-dataset, single-query and failing evaluations with one DCG or NDCG object over up to five datasets, some alike in shape and ids.")
prop("C20", rule="MSE, RMSE, Kendall and Spearman" + _MRULE, **_MET)
prop("C21", mc=_MET["mc"], mc_thorough=_MET["mc_thorough"],
     rule="Fourteen metrics and a user-defined one; the queries of each experiment are put together into several datasets (permuted, dropped, renumbered, other queries rescaled) and evaluated with the same object.")
_ANA = dict(mc=[("AnalysisMC", "AnalysisMC.cfg")], mc_thorough=[("AnalysisMC", "AnalysisMC_t.cfg")])
prop("C22", rule="One to three random models of different sizes (up to 41 trees) in all six formats, on one to three datasets with up to three metrics; every table for every step from one to beyond the size.", **_ANA)
prop("C23", rule="Random models of all six formats on one to three datasets of different sizes with up to three metrics (undefined values included); ranges and numbers of thresholds given or not; classes as names or numbers, lists or arrays, missing from some datasets.", **_ANA)
prop("C24", rule="Random models of all six formats on one to three datasets; labels contiguous or not, negative, large; tied and distinct scores; with and without pairs of the same label.", **_ANA)
prop("C25", mc=[("ImportanceMC", "ImportanceMC.cfg")], mc_thorough=[("ImportanceMC", "ImportanceMC_t.cfg")], gen=_FG,
     rule="Every forest of up to two small trees from FormatsGen and random forests in all six formats, with one-sided splits, single leaves, missing values and several memory layouts, with the squared errors (native code) and three user-written metrics (general code), normalised or not.")
_STAT = dict(mc=[("StatisticsMC", "StatisticsMC.cfg")], mc_thorough=[("StatisticsMC", "StatisticsMC_t.cfg")])
prop("C27", rule="Pairs of unrelated, nearly equal and equal models on one or two datasets of up to nine queries with one or two metrics, 1 to 4000 (thorough 16000) permutations, in both orders; judged against the exact p-values of all sign patterns.", **_STAT)
prop("C28", rule="Training functions that record what they are given, on one or two datasets of two to nine queries, with one or two metrics, 2 to 5 iterations and 2 to 10 folds.", **_STAT)
prop("C29", chain=True, mc=[("FetcherMC", "FetcherMC.cfg")], mc_thorough=[("FetcherMC", "FetcherMC_t.cfg")], gen=[("FetcherGen", "FetcherGen.cfg")],
     rule="Sequences of two fetches with all options and failing downloads from FetcherGen, a death, interruption or failure at every operation on the disk of a first and of a forced download, full disks, and random histories of up to 8 fetches over up to three datasets.")
prop("C32", chain=True, mc=[("PlotsMC", "PlotsMC.cfg")], mc_thorough=[("PlotsMC", "PlotsMC_t.cfg")],
     rule="Every kind of plot of tables computed by the analyses and of made-up tables (undefined, negative, zero and tied values, single and many entries), with every option; histories of up to four plots that share nothing; figures are read back from the drawn artists.")
prop("C33", chain=True, mc=[("ScorerMC", "ScorerMC.cfg"), ("ScoringMC", "ScoringMC.cfg")],
     rule="Random histories of up to 8 questions (plain and detailed scoring, scores, contributions, leaves) to one Scorer over random models of all six formats, with writes to the model that make old answers recognisable.")
prop("C34", mc=[("ExportMC", "ExportMC.cfg")], mc_thorough=[("ExportMC", "ExportMC_t.cfg")],
     rule="Gradient boosting ensembles fitted with every loss, kind of initial estimator, tree growth (depth-first and best-first numbering), learning rate and scale of data, exported, loaded and scored on training rows and rows on and next to every threshold; a dozen models that cannot be exported.")
prop("C35", mc=[("DamageMC", "DamageMC.cfg")], mc_thorough=[("DamageMC", "DamageMC_t.cfg")], gen=_FG,
     rule="Files of all six formats for every forest of up to two small trees from FormatsGen and random ones: whole, cut after every line (anywhere in structured files), with lines dropped, repeated, exchanged, words missing and wrong child numbers, and offered as each other format.")
prop("C36", chain=True, mc=[("SvmStrictMC", "SvmStrictMC.cfg")], mc_thorough=[("SvmStrictMC", "SvmStrictMC_t.cfg")],
     rule="Every file of up to two lines with up to two features numbered 0..2, and histories that mix good files with files whose numbering is out of order, repeated, negative or in doubt, whose query ids are missing or too large, archives cut or with a flipped bit, streams that fail, give text or are closed, and what is no file.")
prop("C37", mc=[("SvmTogetherMC", "SvmTogetherMC.cfg")], mc_thorough=[("SvmTogetherMC", "SvmTogetherMC_t.cfg")],
     rule="Lists of one to seven files of different widths through every kind of handle and iterable, some with a malformed file.")
prop("C38", mc=[("NamesMC", "NamesMC.cfg")],
     rule="Every metric with and without own name, five cutoffs and six thresholds; datasets with and without name, their splits, subsets and feature selections; models with and without name, their copies.")
prop("C39", chain=True, mc=[("ReadOnlyMC", "ReadOnlyMC.cfg")],
     rule="Random histories of up to 12 questions of 21 kinds (every analysis, plain and detailed scores, evaluations, saving, drawing, plotting, splitting, selecting, copying) about pools of up to two models, four datasets (some alike) and three metrics; tables handed out are overwritten by the caller.")
prop("C40", mc=[("FetchRaceMC", "FetchRaceMC.cfg"), ("FetchRaceMC", "FetchRaceMC_n.cfg")], mc_thorough=[("FetchRaceMC", "FetchRaceMC_t.cfg")],
     rule="Two fetches of one dataset with the second overtaking, or the first dying, before every operation of the first on the disk; sampled (thorough: all) pairs of preemption points; random schedules of two and three fetches with forced and offline ones; each followed by an offline and a downloading fetch.")
prop("C41", chain=True, mc=[("CatalogueMC", "CatalogueMC.cfg"), ("FetcherMC", "FetcherMC.cfg")],
     rule="The catalogue written by the repository's script, served with archives laid out like the public ones: every dataset and fold (also missing ones), every ordered pair of datasets with new versions published in between, and random histories of up to 7 fetches.")
prop("C42", runs=[dict(env={"OMP_NUM_THREADS": n}) for n in ("1", "2", "8", "40")], mc=[("CompanyMC", "CompanyMC.cfg")],
     rule="Documents of random models of all six formats scored alone and then shuffled, repeated, selected, reversed, in several memory layouts, by 1, 2, 8 and 40 workers, and by up to five threads at the same time; up to 1000 trees and 20000 rows.")
prop("C43", mc=[("WritingMC", "WritingMC.cfg")],
     rule="Datasets, saved models and drawings written to plain, gzip and bzip2 paths, descriptors, open files and streams, with room for any number of bytes (every number for small ones), and once more with enough room.")
prop("C44", mc=[("NeedsMC", "NeedsMC.cfg")],
     rule="Files of random forests in LightGBM (two dialects), XGBoost, scikit-learn text and CoreML form in which one place of one tree (first, last, any) or the header asks for something the library lacks, harmless variations of the same files, and every format name for saving and loading.")
prop("C45", chain=True, mc=[("MemoryMC", "MemoryMC.cfg")],
     rule="Random histories of up to 27 steps (loads of good, bad and missing files, views, scoring with and without cache, analyses, splits, copies, failing dumps, drops), many steps repeated up to 60 times, with freed memory overwritten; everything held is read and the memory in use measured after every step.")
prop("C46", chain=True, mc=[("InterruptMC", "InterruptMC.cfg")],
     rule="Random histories of up to 15 questions of 24 kinds about pools of models, datasets, metrics and scorers, half of them cut by an interruption or a lack of memory before a random line or instruction of the library's code (every place as likely as another).")
prop("C47", chain=True, mc=[("ThreadsMC", "ThreadsMC.cfg")],
     rule="Rounds of two or three questions of 22 kinds asked at the same time about the same models, datasets, metrics and scorers, with the turn changing before one to five random lines or instructions of the library's code, before many, or before every one.")
prop("C48", chain=True, mc=[("CallsMC", "CallsMC.cfg")], gen=[("CallsGen", "CallsGen.cfg")],
     rule="Up to 200 (pictures 12; thorough four times as many) of the ways CallsGen writes each of 53 calls: any number of arguments by position, the rest by name in two orders, documented values left out or given; some with numpy scalars for numbers.")
prop("C49", chain=True, mc=[("SurroundMC", "SurroundMC.cfg")],
     rule="Random histories of 60 questions of 29 kinds, each run in eight processes (a notebook, locales with decimal commas or other encodings, hash seeds, numbers of threads, without asserts, other backends), with locale, working directory, print options, random states, decimal precision, masks, styles, error handling and environment changing on the way.")
prop("C50", mc=[("AnnotateMC", "AnnotateMC.cfg")], mc_thorough=[("AnnotateMC", "AnnotateMC_t.cfg")],
     rule="Random forests in all six formats drawn with every combination of the options that add something (identifiers, counts, percentages, colours, parallel leaves), with the leaves of none, some or all instances of a dataset, of every depth; the text is parsed back.")
prop("C51", chain=True, mc=[("CopiesMC", "CopiesMC.cfg")],
     rule="Random histories of up to 26 events about up to six pools of models, datasets, metrics and scorers: 24 kinds of questions, copies (deepcopy, copy, pickle of all protocols, of a whole pool or of each thing, RTEnsemble.copy, another process with another hash seed and back), changes in place, ends, and pools made anew.")
