// C20: learning is worth it.  What was learned codes fresh sequences of the same source; how many bits it takes is
// compared with the code of single symbols.  The thresholds are far from what is observed (see DESIGN.md).
#include "model_gen.h"

namespace {

struct Gain {
    double ratio = 1, length = 1;   // bits against bits of single symbols; symbols per v-gram
    size_t vgrams = 0;
};

struct Setup {
    TextSource source;
    int k = 2, size = 10, iters = 1, symbols = 0;
    double min_prob = 0.002;
    int way = 0;                    // 0 stream, 1 fit, 2 stream of a model restored with nothing but symbols
};

Gain run(D& d, Setup& p) {
    std::vector<double> uni(p.k, 1);
    double un = p.k;
    std::set<int> met;
    Seqs data;
    for (int left = p.symbols; left > 0;) {
        IntSeq q = p.source.seq(20 + (int) p.source.next(61));
        left -= (int) q.size();
        for (int x : q) uni[x]++, un++, met.insert(x);
        data.push_back(q);
    }
    std::shared_ptr<IntStreamVGram> m;
    if (p.way == 1) {
        auto f = std::make_shared<IntVGram>(p.size, p.iters, 0);
        srand(d.below(1u << 30));
        f->fit(data);
        m = f;
    } else {
        if (p.way == 0) m = std::make_shared<IntStreamVGram>(p.size, 0);
        else {
            auto c = std::make_shared<SeqCoder>();
            Seqs start;
            for (int i = 0; i < p.k; i++) { c->encode(IntSeq(1, i)); start.push_back(IntSeq(1, i)); }
            m = std::make_shared<IntStreamVGram>(c, IntSeq(p.k, 0), start, p.size, p.min_prob);
        }
        for (auto& s : data) m->accept(s);
        m->update_dict();
    }
    Gain g;
    Seqs alpha = m->alphabet();
    g.vgrams = vgrams(alpha).size();
    IntSeq f = m->freqs();
    double total = 0, bits = 0, ubits = 0, chars = 0, parts = 0;
    for (int x : f) total += x + 1;
    for (int i = 0; i < 60; i++) {
        IntSeq q = p.source.seq(30 + (int) p.source.next(51));
        q = only(q, met);
        IntSeq out = m->parse(q);
        alpha = m->alphabet();        // symbols which came after the last learned dictionary are registered now
        f.resize(alpha.size(), 0);
        REQUIRE(concat(alpha, out) == q, "a fresh sequence " << show(q) << " is segmented to " << show(concat(alpha, out)));
        chars += q.size();
        parts += out.size();
        for (int id : out) bits -= std::log((f[id] + 1) / total);
        for (int x : q) ubits -= std::log(uni[x] / un);
    }
    g.ratio = ubits > 0 ? bits / ubits : 1;
    g.length = chars / parts;
    NOTE("code of fresh sequences against the code of single symbols " << g.ratio << ", v-grams of " << g.length << " symbols");
    return g;
}

Setup gen_setup(D& d, int style) {
    Setup p;
    p.k = d.range(3, 20);
    for (int i = 0; i < p.k; i++) p.source.syms.push_back(i);
    p.source.style = style;
    p.source.state = d.below(1u << 30) * 2 + 1;
    p.way = d.weighted({2, 2, 2});
    p.iters = p.way == 1 ? d.range(3, 8) : 1;
    p.symbols = p.way == 1 ? d.range(8000, 10000) : d.range(30000, 36000);
    p.size = p.k + d.range(12, 70);
    return p;
}

}  // namespace

static void buckets(D& d, const char* ratio[], const char* length[], const Gain& g) {
    // upper ends of the classes
    static const double r[] = {0.2, 0.4, 0.6, 0.7, 0.8, 0.9, 1, 1.1, 1.2, 1e9};
    static const double l[] = {1.2, 1.4, 1.6, 1.8, 2, 2.5, 3, 4, 1e9};
    for (int i = 0; i < 10; i++) if (g.ratio < r[i]) { d.label(ratio[i]); break; }
    for (int i = 0; i < 9; i++) if (g.length < l[i]) { d.label(length[i]); break; }
}
static const char* kRatios[] = {"bits: below 20%", "bits: 20-40%", "bits: 40-60%", "bits: 60-70%", "bits: 70-80%", "bits: 80-90%", "bits: 90-100%", "bits: 100-110%", "bits: 110-120%", "bits: above 120%"};
static const char* kLengths[] = {"length: below 1.2", "length: 1.2-1.4", "length: 1.4-1.6", "length: 1.6-1.8", "length: 1.8-2", "length: 2-2.5", "length: 2.5-3", "length: 3-4", "length: above 4"};

// words which have no symbol in common: there is one good way to segment
PROPERTY(C20, words, 250, 5000) {
    Setup p = gen_setup(d, 2);
    int m = d.range(2, 6), k = 0;
    for (int i = 0; i < m; i++) {
        IntSeq e;
        for (int n = d.range(3, 7); n > 0; n--) e.push_back(k++);
        p.source.motifs.push_back(e);
    }
    p.k = k;
    p.source.syms.clear();
    for (int i = 0; i < k; i++) p.source.syms.push_back(i);
    p.size = k + d.range(2 * m + 12, 80);
    NOTE(show(p.source) << " size " << p.size << " way " << p.way << " iterations " << p.iters << " symbols " << p.symbols);
    Gain g = run(d, p);
    REQUIRE(g.vgrams > 0, "nothing was learned from words repeated over and over");
    REQUIRE(g.ratio < 0.7, "text of repeated words takes " << g.ratio << " of the bits of single symbols");
    REQUIRE(g.length > 2, "text of repeated words of " << k / (double) m << " symbols is segmented into v-grams of " << g.length << " symbols");
    static const char* ways[] = {"stream", "fit", "restored"};
    d.label(ways[p.way]);
    buckets(d, kRatios, kLengths, g);
    d.nontrivial();
}

// words of any symbols, which can look like parts of each other
PROPERTY(C20, motifs, 250, 5000) {
    Setup p = gen_setup(d, 2);
    int m = d.range(2, 6);
    for (int i = 0; i < m; i++) {
        IntSeq e;
        int n = d.range(3, 7);
        for (int j = 0; j < n; j++) e.push_back((int) d.below((uint32_t) p.k));
        p.source.motifs.push_back(e);
    }
    NOTE(show(p.source) << " size " << p.size << " way " << p.way << " iterations " << p.iters << " symbols " << p.symbols);
    std::set<int> used;
    for (auto& e : p.source.motifs) used.insert(e.begin(), e.end());
    if (used.size() < 3) return;
    Gain g = run(d, p);
    REQUIRE(g.vgrams > 0, "nothing was learned from words repeated over and over");
    REQUIRE(g.ratio < 1.3, "text of repeated words takes " << g.ratio << " of the bits of single symbols");
    REQUIRE(g.length > 1.3, "text of repeated words is segmented into v-grams of " << g.length << " symbols");
    buckets(d, kRatios, kLengths, g);
    d.nontrivial();
}

// periods, runs and Markov chains, with or without noise.  (Sequences without any regularity are left out: what is
// learned from noise by chance can make their code longer, by design.)
PROPERTY(C20, regular, 250, 5000) {
    static const int styles[] = {3, 4, 5};
    Setup p = gen_setup(d, styles[d.below(3)]);
    p.source.noise = d.chance(1, 3) ? d.range(1, 15) : 0;
    NOTE(show(p.source) << " size " << p.size << " way " << p.way << " iterations " << p.iters << " symbols " << p.symbols);
    Gain g = run(d, p);
    REQUIRE(g.ratio < (p.source.noise ? 1.2 : 0.95), "the code of regular data takes " << g.ratio << " of the bits of single symbols");
    d.label(p.source.noise ? g.ratio > 0.9 ? "regular: with noise, above 90%" : "regular: with noise" : g.ratio > 0.85 ? "regular: above 85%" : g.ratio > 0.7 ? "regular: 70-85%" : "regular: below 70%");
    buckets(d, kRatios, kLengths, g);
    if (g.vgrams) d.nontrivial();
}

// a model which counts for long before it changes anything: pairs of symbols are met more than 65536 times
PROPERTY(C20, patient, 16, 320) {
    Setup p = gen_setup(d, 2);
    int m = d.range(1, 3), k = 0;
    for (int i = 0; i < m; i++) {
        IntSeq e;
        for (int n = d.range(3, 5); n > 0; n--) e.push_back(k++);
        p.source.motifs.push_back(e);
    }
    p.k = k;
    p.source.syms.clear();
    for (int i = 0; i < k; i++) p.source.syms.push_back(i);
    p.size = k + d.range(2 * m + 12, 60);
    p.way = 2;
    double wait = d.range(50000, 80000) * (double) k;
    p.min_prob = -std::log(0.1) / wait;
    p.symbols = (int) (wait * 5);
    NOTE(show(p.source) << " size " << p.size << " enough after " << wait << " uses, symbols " << p.symbols);
    Gain g = run(d, p);
    REQUIRE(g.vgrams > 0, "nothing was learned from words repeated over and over");
    REQUIRE(g.ratio < 0.9, "text of repeated words takes " << g.ratio << " of the bits of single symbols");
    REQUIRE(g.length > 1.4, "text of repeated words of " << k / (double) m << " symbols is segmented into v-grams of " << g.length << " symbols");
    buckets(d, kRatios, kLengths, g);
    d.nontrivial();
}
