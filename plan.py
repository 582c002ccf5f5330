"""What every check is made of: sources of the check, whether the interface layer of the library is linked, which of
its checks are searched coverage-guided in the thorough tier, and how its cases are made and counted."""


def _p(tus, interfaces, fuzz, rule, assumptions=(), sanitizer="address"):
    return dict(sanitizer=sanitizer, tus=tus, interfaces=interfaces, fuzz=fuzz, rule=rule, assumptions=list(assumptions))


DICT, STAT, BUILD, MODEL = ["p_dict.cc"], ["p_stat.cc"], ["p_builder.cc"], ["p_model.cc"]
BOTH = BUILD + MODEL
LARGE, WIDE, SYSTEM = ["p_large.cc"], ["p_wide.cc"], ["p_system.cc"]
IO, STR, MISC, LEARN, EFFECT = ["p_io.cc"], ["p_string.cc"], ["p_misc.cc"], ["p_learn.cc"], ["p_effect.cc"]
_SEQ = "A case is a sequence of bounded random choices (seeded by VERIF_SEED, the check and the case number) decoded into "
_ENTRIES = "dictionaries are made of distinct non-empty sequences, as every caller in the library makes them"
_START = "a builder's start dictionary has all symbols of its entries and is not larger than its size, as every caller makes it"

PLAN = {
    "C01": _p(DICT + LARGE, True, ["dictionary", "long_sequences"], _SEQ + "a dictionary (nested, shuffled, copied, empty, extreme "
              "symbols) and 1-9 segmentations of known and unknown text. Non-trivial: a segment of several symbols was used or a symbol registered, or the text has more than 65,536 symbols.", [_ENTRIES]),
    "C02": _p(DICT, False, ["search", "order"], _SEQ + "a dictionary and up to 11 lookups with and without exclusions, registrations and copies "
              "against a linear-scan model. Non-trivial: a multi-symbol entry was found (search), more than 2 entries (order).", [_ENTRIES]),
    "C03": _p(DICT, False, ["optimal"], _SEQ + "a dictionary with all its symbols, frequencies and texts; the oracle is a dynamic program over all "
              "entries at all positions. Non-trivial: the greedy segmentation of a text is not the best one (optimal, long), or a symbol registered "
              "after the dictionary was made is part of one (registered).",
              [_ENTRIES, "log probabilities are compared with a tolerance of 1e-7 relative: any of several equally probable segmentations is accepted"]),
    "C04": _p(STAT + LARGE, True, ["accounting"], _SEQ + "a statistics dictionary and up to 21 segmentations, manual updates and lookups against counters. "
              "Non-trivial: a multi-symbol entry was used and counts were updated or at least 3 operations made, or the text has more than 65,536 symbols.", [_ENTRIES]),
    "C05": _p(STAT + LEARN, False, ["initial_frequencies", "learned"], _SEQ + "entries with initial frequencies in two shuffled orders and texts to segment. "
              "Non-trivial: the segmentation would be less probable if all frequencies were equal.", [_ENTRIES]),
    "C06": _p(BOTH + LARGE + WIDE, True, ["builder", "model"], _SEQ + "a start, a size and training data of several phases; every entry of every new dictionary is looked for "
              "in the data. Non-trivial: v-grams were learned or changed.", [_START]),
    "C07": _p(BOTH + WIDE, True, ["builder", "probability", "model"], _SEQ + "a start, a size and training data; the dictionary is measured after every sequence. "
              "Non-trivial: v-grams or the minimal probability changed.", [_START]),
    "C08": _p(MODEL + WIDE, True, ["stream", "fitted"], _SEQ + "a model, a history of accepting, updating, fitting and parsing, and texts of v-grams, data and unknown symbols. "
              "Non-trivial: a parse used a v-gram of several symbols."),
    "C09": _p(BOTH + LARGE + WIDE, True, ["builder", "model"], _SEQ + "a builder or model and a history; frequencies are read between its steps. "
              "Non-trivial: frequencies of a dictionary with v-grams were positive.", [_START]),
    "C10": _p(MODEL + LARGE + WIDE, True, ["fit", "counts", "passes"], _SEQ + "data, a size, a number of iterations (0-301) and a seed of rand(). "
              "Non-trivial: v-grams were learned (fit, passes), more than one symbol (counts) or sequence in at least 40 passes (share), always (everywhere)."),
    "C11": _p(IO + LARGE + WIDE, True, ["stream", "fitted", "string_stream", "string"], _SEQ + "a model of one of four kinds and its history, saved over nothing, a shorter or a longer file, loaded and "
              "saved again (twice for streams). Non-trivial: the model has v-grams of several symbols.",
              ["texts are ASCII for models of words, because the file is UTF-8; the frequencies of a model are read as its interface reports them"]),
    "C12": _p(IO + WIDE, True, ["stream", "fitted", "strings"], _SEQ + "a model and its history; the file is read by an independent JSON reader. "
              "Non-trivial: the file has v-grams of several symbols.", ["texts are ASCII for models of words"]),
    "C13": _p(IO + WIDE, True, ["stream", "twins"], _SEQ + "a history, a file, and a history of the loaded model. Non-trivial: data were accepted and the model "
              "had frequencies or learned anew (stream), v-grams were learned (twins)."),
    "C14": _p(STR + WIDE, True, ["stream", "fitted"], _SEQ + "texts, a tokenizer and a history; the oracle is the same model over numbers given by a reference tokenizer. "
              "Non-trivial: a part of several tokens was used.", ["the integer models are checked by the other properties"]),
    "C15": _p(STR + LARGE, True, ["model", "bytes"], _SEQ + "a tokenizer, new or restored with any numbering, and up to 11 calls, or texts of any bytes. "
              "Non-trivial: at least 2 tokens numbered or restored (model), more than 3 tokens (bytes).", ["the C locale, as in the tests"]),
    "C16": _p(STR + LARGE, True, ["coder"], _SEQ + "up to 21 encodings, decodings and lookups against a map. Non-trivial: more than one symbol."),
    "C17": _p(BOTH + WIDE, True, ["builder", "model", "fit"], _SEQ + "two histories, alone and interleaved with each other and with reading operations. Non-trivial: v-grams were learned.", [_START]),
    "C18": _p(MODEL + WIDE, True, ["strings"], _SEQ + "a fitted model and texts with empty ones and unknown symbols. Non-trivial: a sequence of several indices was written."),
    "C19": _p(MODEL + WIDE, True, ["stream"], _SEQ + "a history and a one-to-one renaming of its symbols. Non-trivial: v-grams were learned."),
    "C20": _p(EFFECT, True, [], _SEQ + "a source of text, a size and a way of training on 8,000-36,000 symbols; (patient: up to 6,000,000); 60 fresh sequences are coded. Non-trivial: v-grams were learned.",
              ["the thresholds are statistical: the worst ratios of thousands of cases are well inside them (DESIGN.md)"]),
    "C21": _p(MODEL, True, ["interrupted"], _SEQ + "data, a size, iterations and the poll at which fitting is interrupted. Non-trivial: it was interrupted."),
    "C22": _p(MISC, True, ["silent", "same"], _SEQ + "a model and a history run with both output descriptors captured; the same history with and without printing. "
              "Non-trivial: v-grams were learned (silent), something was printed (same)."),
    "C23": _p(STR, True, ["rendering"], _SEQ + "a sequence. Non-trivial: more than one number."),
    "C24": _p(MISC, True, ["simplex"], _SEQ + "a vector of 1-40, sometimes thousands of parameters. Non-trivial: more than one parameter."),
    "C25": _p(MISC + LARGE, True, ["encoder"], _SEQ + "up to 13 inputs of integers, strings or numbers with a fraction. Non-trivial: more than one element."),
    "C26": _p(IO, True, ["truncated", "foreign"], _SEQ + "a saved model of one of four kinds, cut at every byte (short files) or 80 positions, with a field lost or mistyped, or loaded as another kind. "
              "Non-trivial: more than 20 cuts (truncated), a damaged or foreign file (foreign).",
              ["needed fields are those documented in docs/source/save.rst; the text of an entry is needed for models of texts only"]),
    "C27": _p(LEARN, False, ["first_expansion", "from_vgrams"], _SEQ + "symbols or a dictionary with v-grams, a size and data up to the first learned dictionary; the scores of all pairs are computed from counts kept by the check. "
              "Non-trivial: pairs were added (first_expansion), pairs with v-grams were (from_vgrams).", ["the score uses the library's own smoothed estimate (checked by C24)"]),
    "C28": _p(LEARN, False, ["first_reduction"], _SEQ + "a start, a size and data up to the first reduction; the cost of removing each v-gram is computed from the counts just before. "
              "Non-trivial: v-grams had to be kept or dropped.", ["of two ways to count a part that occurs twice in a v-gram either is accepted; scores are compared with a tolerance"]),
    "C29": _p(IO, True, ["full_disk"], _SEQ + "a model of one of four kinds and a limit of the size of files at any byte of what is saved (a full disk), or a place "
              "where nothing can be saved. Non-trivial: saving failed.", ["texts are ASCII for models of words; failures are injected by RLIMIT_FSIZE and /dev/full"]),
    "C30": _p(SYSTEM, True, ["released"], _SEQ + "a program which makes, trains, saves and loads models of one of five kinds, also from damaged files (released), or a stream of "
              "150,000 symbols (bounded). Non-trivial: more than a few symbols were learned from (released), every case (bounded).",
              ["memory is what the allocator of the address sanitizer says is in use"]),
    "C31": _p(SYSTEM, True, [], _SEQ + "2-4 programs with models of their own, run alone and then in threads at the same time; built with the thread sanitizer. Non-trivial: at least two programs had "
              "something to say.", ["fitting is left out, as it draws from rand(), which a process has only one of"], "thread"),
    "C32": _p(SYSTEM, True, ["builder", "model"], _SEQ + "a history of a builder or a model in which dictionaries are handed out and kept. Non-trivial: learning changed the v-grams after a dictionary was handed out.", [_START]),
    "C33": _p(LEARN, False, ["first_changes", "histories"], _SEQ + "a builder and a history; the uses counted are read after every sequence. Non-trivial: the times of several changes were judged, or 20 million uses counted.", [_START]),
    "C34": _p(MISC, True, ["growth"], _SEQ + "a builder or fitted model that prints, and a history; what was printed is compared with what is counted at that moment. "
              "Non-trivial: the rate of several dictionaries was known exactly (growth), several iterations (fit).", [_START]),
    "C35": _p(["p_binding.cc"], True, ["int_stream", "fitted"], _SEQ + "an object of one of the four classes of the Python module, made, trained, saved, loaded, interrupted and asked by the names "
              "Python uses, and the same with the library. Non-trivial: v-grams were learned, or the object was loaded.", ["pybind11 is not installed: a stand-in of ours (harness/stub) calls what the module defines"]),
}
