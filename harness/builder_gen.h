// Histories of a v-gram builder.
#pragma once
#include "gen.h"
#include "int_dict_p.h"
#include "int_vgram_builder_p.h"

// IntVGramBuilder has no virtual destructor: shared_ptr remembers the type, like the callers in the library
struct BuilderPlan {
    int ctor = 0;            // 0 size, 1 start dictionary, 2 start symbols, 3 restored
    int size = 10;
    Seqs start;              // what the builder starts with
    IntSeq start_freqs;      // for 3
    double min_prob = 0.002; // for 3
    bool zero_freqs = true;
    Seqs history;

    std::shared_ptr<IntVGramBuilder> make(int verbose = 0) const {
        switch (ctor) {
            case 0: return std::shared_ptr<IntVGramBuilder>(new IntVGramBuilderImpl(size, verbose));
            case 1: {
                IntDictImpl a(start);
                return std::shared_ptr<IntVGramBuilder>(new IntVGramBuilderImpl(a, size, verbose));
            }
            case 2: {
                IntSeq s;
                for (auto& e : start) s.push_back(e[0]);
                return std::shared_ptr<IntVGramBuilder>(new IntVGramBuilderImpl(s, size, verbose));
            }
            default: {
                IntDictImpl a(start);
                return std::shared_ptr<IntVGramBuilder>(new IntVGramBuilderImpl(a, start_freqs, start, min_prob, verbose, size));
            }
        }
    }
};

// training data: phases with sources of their own, so that new symbols and new regularities turn up later
inline void gen_history(D& d, const IntSeq& syms, int budget, Seqs& out) {
    int phases = 1 + d.weighted({4, 2, 1});
    for (int ph = 0; ph < phases; ph++) {
        IntSeq some;
        int from = d.chance(1, 2) ? 0 : (int) d.below((uint32_t) syms.size());
        int k = 1 + (int) d.below((uint32_t) (syms.size() - from));
        some.assign(syms.begin() + from, syms.begin() + from + k);
        if (d.chance(1, 3)) std::reverse(some.begin(), some.end());
        TextSource t = gen_source(d, some);
        NOTE(show(t));
        int maxlen = d.weighted({3, 4, 1}) == 0 ? 8 : d.chance(1, 6) ? 400 : 60;
        int left = 1 + (d.chance(3, 5) ? d.range(budget / phases / 3, budget / phases) : d.size(budget / phases));
        while (left > 0) {
            int len = d.chance(1, 20) ? 0 : 1 + (int) t.next((uint32_t) std::min(maxlen, left));
            left -= std::max(1, len);
            out.push_back(t.seq(len));
        }
    }
}

inline BuilderPlan gen_builder(D& d, int budget, bool allow_restored = true) {
    BuilderPlan p;
    int k = 1 + d.size(d.chance(1, 12) ? 120 : 20);
    IntSeq syms = gen_symbols(d, k);
    p.ctor = d.weighted({3, 1, 1, allow_restored ? 8 : 0});
    int known = p.ctor == 0 ? 0 : d.chance(2, 3) ? k : d.range(1, k);
    IntSeq base(syms.begin(), syms.begin() + known);
    for (int s : base) p.start.push_back(IntSeq(1, s));
    if ((p.ctor == 1 || p.ctor == 3) && d.chance(1, 2)) {
        p.start = gen_entries(d, base, 12, 4);
        complete(p.start, base);
        if (p.ctor == 1) shuffle(d, p.start);
        d.label("starts with v-grams");
    }
    if (p.ctor == 3) std::sort(p.start.begin(), p.start.end());
    int spread = d.weighted({2, 2, 3, 2});
    p.size = spread == 0 ? d.range(1, k) : spread == 1 ? k + d.range(0, 6) : spread == 2 ? k + d.size(60) : k + d.size(1000);
    // a start which is larger than the size is not what a caller makes
    if (p.ctor != 0) p.size = std::max(p.size, (int) p.start.size());
    if (p.size < k) d.label("size below the number of symbols");
    if (p.ctor == 3) {
        static const std::vector<double> probs = {0.5, 0.2, 0.1, 0.05, 0.03, 0.01, 0.002};
        p.min_prob = probs[d.below((uint32_t) probs.size())];
        p.zero_freqs = d.chance(2, 3);
        for (size_t i = 0; i < p.start.size(); i++) p.start_freqs.push_back(p.zero_freqs ? 0 : d.size(100));
        d.label("restored");
    }
    NOTE("builder kind " << p.ctor << " size " << p.size << " start " << show(p.start, 30) << " min probability " << p.min_prob);
    gen_history(d, syms, budget, p.history);
    if (p.history.size() > 3) {
        NOTE(p.history.size() << " sequences: " << show(Seqs(p.history.begin(), p.history.begin() + 3)));
    } else {
        NOTE("sequences " << show(p.history));
    }
    return p;
}

inline std::set<IntSeq> vgrams_of(const IntDict& dict) {
    std::set<IntSeq> r;
    for (int i = 0; i < dict.size(); i++) if (dict.get(i).size() != 1) r.insert(dict.get(i));
    return r;
}
