// Integer models: what a user of the library holds.
#pragma once
#include "gen.h"
#include "vgram_builders/int_stream_vgram.h"
#include "vgram_builders/int_vgram.h"
#include <cstdlib>

using vgram_core::IntStreamVGram;
using vgram_core::IntVGram;
using vgram_core::SeqCoder;

// A model which starts with a dictionary learns its next dictionaries after few symbols when its minimal probability is
// large: this is how long learning histories are reached with little data.
struct ModelPlan {
    bool fitable = false;
    bool restored = false;
    int size = 10, iters = 1;
    double min_prob = 0.002;
    IntSeq syms, known;      // all symbols; the ones a restored model starts with
    Seqs start;              // sorted, in codes 0..known.size()-1
    IntSeq start_freqs;

    std::shared_ptr<SeqCoder> coder() const {
        auto c = std::make_shared<SeqCoder>();
        c->encode(known);
        return c;
    }
    std::shared_ptr<IntStreamVGram> stream() const {
        if (restored) return std::make_shared<IntStreamVGram>(coder(), start_freqs, start, size, min_prob);
        return std::make_shared<IntStreamVGram>(size, 0);
    }
    std::shared_ptr<IntVGram> fit_model() const {
        if (restored) return std::make_shared<IntVGram>(coder(), start_freqs, start, size, min_prob, true, true);
        return std::make_shared<IntVGram>(size, iters, 0);
    }
};

inline ModelPlan gen_model(D& d, int restored_weight = 2) {
    ModelPlan p;
    int k = 1 + d.size(d.chance(1, 12) ? 80 : 16);
    p.syms = gen_symbols(d, k);
    p.restored = restored_weight && d.weighted({1, restored_weight}) == 1;
    int spread = d.weighted({2, 2, 3, 2});
    p.size = spread == 0 ? d.range(1, k) : spread == 1 ? k + d.range(0, 6) : spread == 2 ? k + d.size(60) : k + d.size(1000);
    if (p.restored) {
        int n = d.range(0, k);
        p.known.assign(p.syms.begin(), p.syms.begin() + n);
        IntSeq codes;
        for (int i = 0; i < n; i++) codes.push_back(i);
        bool big = n > 1 && d.chance(1, 60);
        if (big) {
            p.start = gen_big_entries(d, codes, 700, 60);
            d.label("model: big dictionary");
        } else if (n && d.chance(1, 2)) p.start = gen_entries(d, codes, 10, 4);
        complete(p.start, codes);
        std::sort(p.start.begin(), p.start.end());
        int most = d.chance(1, 8) ? 2000000000 : 200;
        for (size_t i = 0; i < p.start.size(); i++) p.start_freqs.push_back(d.chance(1, 2) ? 0 : d.size(big ? 200 : most));
        static const std::vector<double> probs = {0.5, 0.2, 0.1, 0.05, 0.03, 0.01, 0.002, -1, 1e-5};
        p.min_prob = probs[d.below((uint32_t) probs.size())];
        p.size = std::max(p.size, (int) p.start.size());
        d.label("model: restored");
    }
    NOTE("model size " << p.size << (p.restored ? " restored with " : "") << (p.restored ? show(p.start) : "") << " min probability " << p.min_prob);
    return p;
}

inline Seqs gen_batch(D& d, const IntSeq& syms, int budget) {
    IntSeq some(syms.begin(), syms.begin() + 1 + d.below((uint32_t) syms.size()));
    TextSource t = gen_source(d, some);
    int left = d.size(budget), maxlen = d.chance(1, 3) ? 6 : d.chance(1, 8) ? d.chance(1, 3) ? budget : 300 : 50;
    NOTE("batch of " << left << " symbols from " << show(t));
    Seqs out;
    while (left > 0) {
        int len = d.chance(1, 16) ? 0 : 1 + (int) t.next((uint32_t) std::min(left, maxlen));
        left -= std::max(1, len);
        out.push_back(t.seq(len));
    }
    return out;
}

inline IntSeq only(const IntSeq& s, const std::set<int>& known) {
    IntSeq r;
    for (int x : s) if (known.count(x)) r.push_back(x);
    return r;
}

// a sequence to segment: pieces of entries, of data, and symbols never seen
inline IntSeq gen_text(D& d, const Seqs& alphabet, const IntSeq& syms, const Seqs& data, int maxparts = 12) {
    IntSeq s;
    int parts = d.size(maxparts), times = 1;
    if (d.chance(1, 80)) {
        times = d.range(2, 60);
        d.label("long text");
    }
    for (int i = 0; i < parts; i++) {
        int kind = d.weighted({3, 3, 2, 1});
        if (kind == 0 && !alphabet.empty()) {
            const IntSeq& e = d.pick(alphabet);
            s.insert(s.end(), e.begin(), e.end());
        } else if (kind == 1 && !data.empty()) {
            const IntSeq& e = d.pick(data);
            s.insert(s.end(), e.begin(), e.begin() + std::min<size_t>(e.size(), 40));
        } else if (kind == 2) {
            s.push_back(d.pick(syms));
        } else {
            s.push_back(1000000000 + (int) d.below(3));  // never seen by any model
        }
    }
    IntSeq once = s;
    for (; times > 1 && s.size() < 4000; times--) {
        s.insert(s.end(), once.begin(), once.end());
        s.push_back(d.pick(syms));
    }
    return s;
}

// Sum of frequency times length
inline double covered(const IntSeq& freqs, const Seqs& alphabet) {
    double r = 0;
    for (size_t i = 0; i < freqs.size() && i < alphabet.size(); i++) r += freqs[i] * (double) alphabet[i].size();
    return r;
}

inline std::set<IntSeq> vgrams(const Seqs& alphabet) {
    std::set<IntSeq> r;
    for (auto& e : alphabet) if (e.size() > 1) r.insert(e);
    return r;
}
