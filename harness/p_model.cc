// Properties of the integer models (streaming and fit-transform).
#include "model_gen.h"
#include "loader.h"
#include "saver.h"

namespace {

void check_parse(D& d, const IntStreamVGram& m, const std::set<int>& known, const IntSeq& s, const char* what, bool* multi = nullptr) {
    Seqs before = m.alphabet();
    NOTE(what << " parse " << show(s));
    IntSeq out = m.parse(s);
    Seqs after = m.alphabet();
    REQUIRE(after.size() >= before.size() && std::equal(before.begin(), before.end(), after.begin()), what << ": parsing changed the alphabet from " << show(before) << " to " << show(after));
    for (int id : out) REQUIRE(id >= 0 && id < (int) after.size(), what << ": index " << id << " of " << after.size() << " v-grams");
    IntSeq want = only(s, known), got = concat(after, out);
    REQUIRE(got == want, what << ": parse of " << show(s) << " spells " << show(got) << " instead of " << show(want));
    for (int id : out) if (multi && after[id].size() > 1) *multi = true;
    if (want.size() < s.size()) d.label("unknown symbols skipped");
}

int sum_len(const Seqs& v) {
    int n = 0;
    for (auto& s : v) n += (int) s.size();
    return n;
}

// stops after a number of polls, like the signal check of the Python binding
struct StoppableVGram : public IntVGram {
    StoppableVGram(int size, int iters) : IntVGram(size, iters, 0) {}
    mutable long left = -1;
    mutable long polls = 0;
    bool isTerminated() const override {
        polls++;
        if (left < 0) return false;
        if (left == 0) {
            hit = true;
            if (once) left = -1;        // like a signal, which is reported one time
            return true;
        }
        left--;
        return false;
    }
    mutable bool hit = false, once = false;
};

}  // namespace

PROPERTY(C08, stream, 15000, 300000) {
    ModelPlan p = gen_model(d);
    auto m = p.stream();
    std::set<int> known(p.known.begin(), p.known.end());
    Seqs data;
    bool multi = false;
    int ops = 1 + d.size(10);
    check_parse(d, *m, known, gen_text(d, Seqs(), p.syms, data), "new model");
    for (int op = 0; op < ops; op++) {
        int kind = d.weighted({4, 3, 3});
        if (kind == 0) {
            for (auto& s : gen_batch(d, p.syms, 1500)) {
                m->accept(s);
                known.insert(s.begin(), s.end());
                data.push_back(s);
            }
        } else if (kind == 1) {
            NOTE("update");
            m->update_dict();
        } else {
            check_parse(d, *m, known, gen_text(d, m->alphabet(), p.syms, data), "before update", &multi);
        }
    }
    m->update_dict();
    NOTE("update");
    for (int i = 0; i < 3; i++) check_parse(d, *m, known, gen_text(d, m->alphabet(), p.syms, data), "after update", &multi);
    if (!data.empty()) check_parse(d, *m, known, data.back(), "training data", &multi);
    if (multi) d.nontrivial();
}

PROPERTY(C08, fitted, 6000, 120000) {
    ModelPlan p = gen_model(d, 0);
    p.iters = 1 + d.size(40);
    auto m = p.fit_model();
    Seqs data = gen_batch(d, p.syms, 6000 / p.iters + 20);
    std::set<int> known;
    for (auto& s : data) known.insert(s.begin(), s.end());
    srand(d.below(1u << 30));
    NOTE("fit " << p.iters << " iterations on " << data.size() << " sequences");
    m->fit(data);
    bool multi = false;
    for (int i = 0; i < 3; i++) check_parse(d, *m, known, gen_text(d, m->alphabet(), p.syms, data), "after fit", &multi);
    Seqs res = m->transform(data);
    REQUIRE(res.size() == data.size(), "transform of " << data.size() << " sequences gives " << res.size());
    Seqs alpha = m->alphabet();
    for (size_t i = 0; i < data.size(); i++) {
        for (int id : res[i]) REQUIRE(id >= 0 && id < (int) alpha.size(), "index " << id << " of " << alpha.size());
        REQUIRE(concat(alpha, res[i]) == data[i], "transform of " << show(data[i]) << " spells " << show(concat(alpha, res[i])));
    }
    for (auto& s : gen_batch(d, p.syms, 2000)) { m->accept(s); known.insert(s.begin(), s.end()); data.push_back(s); }
    check_parse(d, *m, known, gen_text(d, m->alphabet(), p.syms, data), "after more data", &multi);
    m->update_dict();
    for (int i = 0; i < 3; i++) check_parse(d, *m, known, gen_text(d, m->alphabet(), p.syms, data), "after update", &multi);
    if (multi) d.nontrivial();
}

PROPERTY(C08, regression, 1, 1) {
    std::set<int> none;
    IntStreamVGram m(10, 0);
    check_parse(d, m, none, IntSeq{1, 2, 3}, "new model");     // parsed with no dictionary
    REQUIRE(m.alphabet().empty() && m.freqs().empty(), "a new model has entries");
    IntVGram v(10, 0, 0);                                      // no iterations
    v.fit(Seqs{{1, 2}, {2}});
    check_parse(d, v, std::set<int>{1, 2}, IntSeq{2, 1, 1, 3}, "fitted");
}

// -------------------------------------------------------------------------------- C06, C07: what models learn, how much

PROPERTY(C06, model, 3000, 60000) {
    ModelPlan p = gen_model(d);
    auto m = p.stream();
    Seqs data;
    IntSeq decoded;
    std::set<IntSeq> verified;
    for (auto& e : m->alphabet()) verified.insert(e);
    std::set<int> seen(p.known.begin(), p.known.end());
    std::set<IntSeq> last = vgrams(m->alphabet());
    int batches = 1 + d.size(5);
    for (int b = 0; b < batches; b++) {
        std::set<int> upto = seen;
        for (auto& s : gen_batch(d, p.syms, 2500)) { m->accept(s); data.push_back(s); seen.insert(s.begin(), s.end()); }
        m->update_dict();
        Seqs alpha = m->alphabet();
        std::set<IntSeq> entries;
        for (auto& e : alpha) {
            REQUIRE(!e.empty(), "an empty v-gram");
            REQUIRE(entries.insert(e).second, "v-gram " << show(e) << " is there twice");
            if (verified.count(e)) continue;
            bool found = false;
            for (size_t i = data.size(); i-- > 0 && !found;) found = contains(data[i], e);
            REQUIRE(found, "v-gram " << show(e) << " is in none of the " << data.size() << " sequences");
            verified.insert(e);
        }
        // what was known before this batch is known to every dictionary learned during it
        if (vgrams(alpha) != last)
            for (int s : upto) REQUIRE(entries.count(IntSeq(1, s)), "symbol " << s << " is not in the alphabet " << show(alpha));
        last = vgrams(alpha);
    }
    if (!last.empty()) d.nontrivial();
}

PROPERTY(C07, model, 3000, 60000) {
    ModelPlan p = gen_model(d);
    bool fit = !p.restored && d.chance(1, 2);
    if (fit) {
        p.iters = 1 + d.size(20);
        auto m = p.fit_model();
        Seqs data = gen_batch(d, p.syms, 8000 / p.iters + 20);
        std::set<int> seen;
        for (auto& s : data) seen.insert(s.begin(), s.end());
        srand(d.below(1u << 30));
        m->fit(data);
        Seqs alpha = m->alphabet();
        std::set<int> used;   // symbols which were surely known when the v-grams were learned
        for (auto& e : vgrams(alpha)) used.insert(e.begin(), e.end());
        size_t n = vgrams(alpha).size(), room = std::max(0, p.size - (int) used.size());
        REQUIRE(n <= room, "the dictionary of size " << p.size << " has " << n << " v-grams of " << used.size() << " symbols");
        REQUIRE(alpha.size() - n <= seen.size(), alpha.size() - n << " one-symbol entries for " << seen.size() << " symbols");
        if (n) d.nontrivial();
        return;
    }
    auto m = p.stream();
    std::set<int> seen(p.known.begin(), p.known.end());
    std::set<IntSeq> last = vgrams(m->alphabet());
    size_t start = last.size();
    bool first = true;
    for (int b = 1 + d.size(5); b > 0; b--) {
        std::set<int> upto = seen;
        for (auto& s : gen_batch(d, p.syms, 2500)) { m->accept(s); seen.insert(s.begin(), s.end()); }
        m->update_dict();
        Seqs alpha = m->alphabet();
        std::set<IntSeq> now = vgrams(alpha);
        REQUIRE(alpha.size() - now.size() <= seen.size(), alpha.size() - now.size() << " one-symbol entries for " << seen.size() << " symbols");
        if (now != last) {
            size_t room = std::max(0, p.size - (int) upto.size());
            REQUIRE(now.size() <= std::max(room, first ? start : 0), "the dictionary of size " << p.size << " has " << now.size() << " v-grams beside at least " << upto.size() << " symbols");
            first = false;
        }
        last = now;
    }
    if (!last.empty()) d.nontrivial();
}

// ------------------------------------------------------------------------------------------------- C09: frequencies

PROPERTY(C09, model, 6250, 125000) {
    ModelPlan p = gen_model(d);
    auto m = p.stream();
    Seqs data;
    double accepted = 0, since = 0, fresh = 0;
    std::set<IntSeq> last = vgrams(m->alphabet());
    bool relearned = false;
    double start = covered(p.start_freqs, p.start);
    REQUIRE(m->freqs() == p.start_freqs, "a model restored with frequencies " << show(p.start_freqs) << " has " << show(m->freqs()));
    auto aligned = [&](const char* what) {
        Seqs alpha = m->alphabet();
        IntSeq f = m->freqs();
        REQUIRE(f.size() == alpha.size(), what << ": " << f.size() << " frequencies of " << alpha.size() << " v-grams");
        for (size_t i = 0; i < f.size(); i++) REQUIRE(f[i] >= 0, what << ": frequency of " << show(alpha[i]) << " is " << f[i]);
    };
    auto table = [&] {
        std::map<IntSeq, int> t;
        Seqs alpha = m->alphabet();
        IntSeq f = m->freqs();
        for (size_t i = 0; i < alpha.size(); i++) if (f[i]) t[alpha[i]] = f[i];
        return t;
    };
    aligned("new model");
    if (d.chance(1, 2)) {
        auto before = table();
        m->update_dict();
        REQUIRE(table() == before, "updating a new model changed its frequencies");
    }
    int ops = 1 + d.size(8);
    for (int op = 0; op < ops; op++) {
        int kind = d.weighted({4, 4, 2});
        if (kind == 0) {
            for (auto& s : gen_batch(d, p.syms, p.min_prob == 1e-5 ? 12000 : 1200)) { m->accept(s); data.push_back(s); accepted += s.size(); fresh += s.size(); }
            aligned("after accept");
        } else if (kind == 1) {
            NOTE("update");
            m->update_dict();
            aligned("after update");
            Seqs alpha = m->alphabet();
            IntSeq f = m->freqs();
            std::set<IntSeq> now = vgrams(alpha);
            if (now != last) {       // learned since the last update, from some of what came since then
                relearned = true;
                since = fresh;
            } else since += fresh;
            fresh = 0;
            last = now;
            double c = covered(f, alpha), limit = since + (relearned ? 0 : start);
            REQUIRE(c <= limit + 0.5, "the frequencies are of " << c << " symbols, " << limit << " were accepted");
            // nothing can have been learned yet: every accepted symbol is counted, once
            if (accepted * (p.min_prob > 0 ? p.min_prob : 0.002) < 1) {
                REQUIRE(c == limit, "the frequencies are of " << c << " symbols, not of the " << limit << " which were accepted");
                if (accepted > 0) d.label("exact count");
            }
            auto t = table();
            m->update_dict();
            REQUIRE(table() == t && m->alphabet() == alpha, "a second update changed alphabet or frequencies");
            if (c > 0 && !now.empty()) d.nontrivial();
        } else {
            IntSeq s = gen_text(d, m->alphabet(), p.syms, data);
            auto t = table();
            m->parse(s);
            aligned("after parse");
            REQUIRE(table() == t, "parsing changed the frequencies");
        }
    }
}

PROPERTY(C09, regression, 1, 1) {
    IntStreamVGram m(100, 0);
    for (int i = 0; i < 3; i++) {
        m.accept(IntSeq{1, 2, 3});
        m.update_dict();
        m.update_dict();
        REQUIRE(m.freqs() == IntSeq(3, i + 1), "frequencies after " << i + 1 << " updates: " << show(m.freqs()));
    }
}

// ------------------------------------------------------------------------------------------------------- C10: fitting

PROPERTY(C10, fit, 2400, 48000) {
    ModelPlan p = gen_model(d, 0);
    p.iters = d.chance(1, 12) ? 0 : 1 + d.size(d.chance(1, 4) ? 300 : 30);
    auto m = p.fit_model();
    Seqs data = gen_batch(d, p.syms, 9000 / (p.iters + 1) + 30);
    srand(d.below(1u << 30));
    NOTE("fit " << p.iters << " iterations on " << show(data, 5));
    IntVGram* r = m->fit(data);
    REQUIRE(r == m.get(), "fit does not return its model");
    Seqs alpha = m->alphabet();
    IntSeq f = m->freqs();
    REQUIRE(f.size() == alpha.size(), f.size() << " frequencies of " << alpha.size() << " v-grams");
    for (size_t i = 0; i < f.size(); i++) REQUIRE(f[i] >= 0, "frequency of " << show(alpha[i]) << " is " << f[i]);
    REQUIRE(covered(f, alpha) == sum_len(data), "the frequencies are of " << covered(f, alpha) << " symbols, the data have " << sum_len(data));
    std::set<IntSeq> entries;
    for (auto& e : alpha) {
        REQUIRE(!e.empty() && entries.insert(e).second, "v-gram " << show(e) << " is empty or there twice");
        bool found = false;
        for (size_t i = 0; i < data.size() && !found; i++) found = contains(data[i], e);
        REQUIRE(found, "v-gram " << show(e) << " is not in the data");
    }
    for (auto& s : data) for (int x : s) REQUIRE(entries.count(IntSeq(1, x)), "symbol " << x << " of the data is not in the alphabet");
    Seqs t1 = m->transform(data);
    // fitted only once
    Seqs other = gen_batch(d, p.syms, 500);
    REQUIRE(m->fit(other) == m.get(), "second fit does not return its model");
    REQUIRE(m->alphabet() == alpha && m->freqs() == f, "a second fit changed the dictionary");
    REQUIRE(m->transform(data) == t1, "a second fit changed what transform gives");
    if (!vgrams(alpha).empty()) d.nontrivial();
    if (vgrams(alpha).size() > 5) d.label("more than 5 v-grams");
}

// the frequencies of a fitted dictionary are exact when every symbol can only be itself
PROPERTY(C10, counts, 1800, 36000) {
    ModelPlan p = gen_model(d, 0);
    p.iters = d.size(3);
    auto m = p.fit_model();
    Seqs data = gen_batch(d, p.syms, 300);
    srand(d.below(1u << 30));
    m->fit(data);
    if (!vgrams(m->alphabet()).empty()) return;
    std::map<int, int> want, got;
    for (auto& s : data) for (int x : s) want[x]++;
    Seqs alpha = m->alphabet();
    IntSeq f = m->freqs();
    REQUIRE(f.size() == alpha.size(), f.size() << " frequencies of " << alpha.size() << " v-grams");
    for (size_t i = 0; i < f.size(); i++) if (f[i]) got[alpha[i][0]] = f[i];
    REQUIRE(got == want, "the frequencies " << show(f) << " of " << show(alpha) << " are not the counts of the data");
    if (want.size() > 1) d.nontrivial();
}

// when all sequences are alike, it does not matter which ones are drawn: fitting is that many passes of streaming
PROPERTY(C10, passes, 1500, 30000) {
    ModelPlan p = gen_model(d, 0);
    p.iters = d.chance(1, 12) ? 0 : 1 + d.size(d.chance(1, 4) ? 200 : 20);
    TextSource t = gen_source(d, p.syms);
    IntSeq s = t.seq(d.size(d.chance(1, 4) ? 400 : 60));
    int n = 1 + d.size(std::min<int>(200, 12000 / (p.iters + 1) / ((int) s.size() + 1) + 1));
    NOTE("fit " << p.iters << " iterations on " << n << " times " << show(s));
    auto m = p.fit_model();
    auto w = p.stream();
    srand(d.below(1u << 30));
    m->fit(Seqs(n, s));
    for (int i = 0; i < p.iters; i++) {
        for (int k = 0; k < n; k++) w->accept(s);
        w->update_dict();
    }
    Seqs a = m->alphabet();
    std::map<IntSeq, int> want, got;
    Seqs wa = w->alphabet();
    for (int x : w->parse(s)) want[wa[x]] += n;
    if (p.iters == 0) for (int x : s) want[IntSeq(1, x)] += n;
    IntSeq f = m->freqs();
    REQUIRE(f.size() == a.size(), f.size() << " frequencies of " << a.size() << " v-grams");
    for (size_t i = 0; i < f.size(); i++) if (f[i]) got[a[i]] = f[i];
    if (p.iters) REQUIRE(a == wa, "fitting learned " << show(a) << ", as many passes of streaming " << show(wa));
    for (auto& x : want) REQUIRE(got[x.first] == x.second, "v-gram " << show(x.first) << " is counted " << got[x.first] << " times, not " << x.second);
    REQUIRE(got.size() == want.size(), got.size() << " v-grams are counted, not " << want.size());
    if (!vgrams(a).empty() && p.iters > 1) d.nontrivial();
}

// What learning was given shows when counting is interrupted: the frequencies are still those of the passes.  With one
// symbol in each sequence and too little to learn from they tell which sequences were drawn, and how often.
PROPERTY(C10, share, 800, 16000) {
    int n = d.range(1, 8), iters = 1 + (int) d.below((uint32_t) (480 / n));
    IntSeq syms = gen_symbols(d, n);
    Seqs data;
    for (int x : syms) data.push_back(IntSeq(1, x));
    int size = n + d.size(100);
    unsigned seed = d.below(1u << 30);
    NOTE("fit " << iters << " iterations with size " << size << " on " << show(data));
    StoppableVGram whole(size, iters), m(size, iters);
    srand(seed);
    whole.left = 1L << 40;
    whole.fit(data);
    m.left = (1L << 40) - whole.left - 1;   // the last time it asked
    m.once = false;
    srand(seed);
    m.fit(data);
    Seqs a = m.alphabet();
    IntSeq f = m.freqs();
    long total = 0;
    REQUIRE(f.size() == a.size(), f.size() << " frequencies of " << a.size() << " v-grams");
    std::map<int, int> drawn;
    for (size_t i = 0; i < f.size(); i++) total += f[i], drawn[a[i].at(0)] += f[i];
    if (f == IntSeq(n, 1) && iters > 1) {   // it had counted the data already
        d.label("counted");
        return;
    }
    REQUIRE(total == (long) n * iters, iters << " passes over " << n << " sequences accepted " << total);
    if (iters >= 40) {
        for (int x : syms)
            REQUIRE(drawn[x] > iters / 6 && drawn[x] < iters * 3, "sequence (" << x << ") was accepted " << drawn[x] << " times in " << iters << " passes");
        if (n > 1) d.nontrivial();
    }
}

// Of many sequences those which were drawn are known by their symbols, and they are from everywhere: in n draws of n sequences
// about 63 % are drawn, in every part of the data. (The dictionary may be as old as its last reduction, hence the looser bound.)
PROPERTY(C10, everywhere, 40, 800) {
    bool huge = d.chance(1, 12);
    int n = huge ? d.range(5000, 70000) : d.range(300, 5000), iters = huge ? 4 : d.range(4, 8), parts = d.range(1, n / 150);
    Seqs data;
    for (int i = 0; i < n; i++) data.push_back(IntSeq(1, i * 7 - n));
    NOTE("fit " << iters << " iterations on " << n << " sequences of one symbol, judged in " << parts << " parts");
    unsigned seed = d.below(1u << 30);
    StoppableVGram m(n + 10, iters);
    srand(seed);
    m.left = (long) n * iters;      // the draws are over, it has not counted the data
    m.once = false;
    m.fit(data);
    REQUIRE(m.hit, "it did not ask whether to stop " << m.left << " times more");
    std::set<IntSeq> drawn;
    for (auto& e : m.alphabet()) drawn.insert(e);
    for (int part = 0; part < parts; part++) {
        int from = (int) ((long) n * part / parts), to = (int) ((long) n * (part + 1) / parts), met = 0;
        for (int i = from; i < to; i++) met += (int) drawn.count(data[i]);
        REQUIRE(met * 3 >= to - from, "of the sequences " << from << " to " << to << " of " << n << " in " << iters << " passes " << met << " were learned from");
    }
    if (n > 1000) d.label("more than 1000 sequences");
    d.nontrivial();
}

PROPERTY(C10, regression, 1, 1) {
    // sequences which no iteration had sampled brought symbols that the frequencies had no room for
    for (int seed = 0; seed < 8; seed++) {
        IntVGram m(300, 1, 0);
        Seqs data;
        for (int i = 0; i < 200; i++) data.push_back(IntSeq{1000 + i, 2000 + i, 3000 + i});
        for (int i = 0; i < 200; i++) data.push_back(IntSeq(20, 1 + i % 3));
        srand(seed);
        m.fit(data);
        Seqs alpha = m.alphabet();
        IntSeq f = m.freqs();
        REQUIRE(f.size() == alpha.size() && covered(f, alpha) == sum_len(data), "frequencies of " << covered(f, alpha) << " symbols");
    }
}

// --------------------------------------------------------------------------------------------- C17: nothing but history

PROPERTY(C17, model, 2400, 48000) {
    ModelPlan p = gen_model(d), q = gen_model(d);
    auto quiet = p.stream(), busy = p.stream(), other = q.stream();
    Seqs data;
    int batches = 1 + d.size(4);
    for (int b = 0; b < batches; b++) {
        Seqs batch = gen_batch(d, p.syms, 1800), foreign = gen_batch(d, q.syms, 600);
        for (auto& s : batch) quiet->accept(s);
        size_t at = 0;
        for (auto& s : batch) {
            if (at < foreign.size()) other->accept(foreign[at++]);
            busy->accept(s);
            data.push_back(s);
            if (at % 5 == 1) {
                if (at % 2) busy->update_dict();
                other->update_dict();
                IntSeq text(s.begin(), s.begin() + std::min<size_t>(s.size(), 20));
                IntSeq a = busy->parse(text), c = busy->parse(text);
                Seqs alpha = busy->alphabet();
                REQUIRE(concat(alpha, a) == concat(alpha, c), "parsing again spells something else");
                busy->freqs();
                other->parse(text);
            }
        }
    }
    // looking at a model, and other models, do not change what it learns
    quiet->update_dict();
    busy->update_dict();
    Seqs a = quiet->alphabet(), b = busy->alphabet();
    IntSeq fa = quiet->freqs(), fb = busy->freqs();
    REQUIRE(vgrams(a) == vgrams(b), "v-grams " << show(a) << " and " << show(b));
    std::map<IntSeq, int> ta, tb;
    for (size_t i = 0; i < a.size(); i++) if (fa[i]) ta[a[i]] = fa[i];
    for (size_t i = 0; i < b.size(); i++) if (fb[i]) tb[b[i]] = fb[i];
    REQUIRE(ta == tb, "frequencies differ");
    // parsing known text again gives the same
    for (int i = 0; i < 3; i++) {
        IntSeq s = gen_text(d, a, p.syms, data);
        IntSeq x = quiet->parse(s);
        IntSeq y = quiet->parse(s), z = quiet->parse(s);
        REQUIRE(y == z, "parsing " << show(s) << " again gives another segmentation");
        if (quiet->alphabet() == a) REQUIRE(x == y, "parsing " << show(s) << " again gives another segmentation");
        a = quiet->alphabet();
    }
    if (!vgrams(a).empty()) d.nontrivial();
}

PROPERTY(C17, fit, 1200, 24000) {
    ModelPlan p = gen_model(d, 0);
    p.iters = 1 + d.size(10);
    Seqs data = gen_batch(d, p.syms, 6000 / p.iters + 30);
    unsigned seed = d.below(1u << 30);
    auto a = p.fit_model(), b = p.fit_model();
    srand(seed);
    a->fit(data);
    // another model in between
    ModelPlan q = gen_model(d, 0);
    auto other = q.fit_model();
    other->fit(gen_batch(d, q.syms, 500));
    srand(seed);
    b->fit(data);
    REQUIRE(a->alphabet() == b->alphabet(), "the same data and random numbers learn " << show(a->alphabet()) << " and " << show(b->alphabet()));
    REQUIRE(a->freqs() == b->freqs(), "the same data and random numbers give frequencies " << show(a->freqs()) << " and " << show(b->freqs()));
    REQUIRE(a->transform(data) == b->transform(data), "the same models transform differently");
    if (!vgrams(a->alphabet()).empty()) d.nontrivial();
}

// ------------------------------------------------------------------------------------------------- C18: transforming

PROPERTY(C18, strings, 20000, 400000) {
    ModelPlan p = gen_model(d, 0);
    p.iters = 1 + d.size(20);
    auto m = p.fit_model();
    Seqs data = gen_batch(d, p.syms, 6000 / p.iters + 30);
    srand(d.below(1u << 30));
    m->fit(data);
    Seqs texts;
    for (int i = d.size(12); i > 0; i--) texts.push_back(gen_text(d, m->alphabet(), p.syms, data));
    if (!texts.empty() && d.chance(1, 60)) {
        for (int i = d.range(50, 1500); i > 0; i--) {
            const Seqs& from = i % 2 && !data.empty() ? data : texts;
            IntSeq s = from[(size_t) i % from.size()];
            if (s.size() > 30) s.resize(30);
            s.insert(s.begin(), p.syms[(size_t) i % p.syms.size()]);
            texts.push_back(s);
        }
        d.label("many sequences");
    }
    NOTE("transform " << show(texts));
    Seqs one;
    for (auto& s : texts) one.push_back(m->parse(s));
    Seqs ids = m->transform(texts);
    std::vector<std::string> strs = m->transform_to_string(texts);
    REQUIRE(ids == one, "transform gives " << show(ids) << ", parsing one by one " << show(one));
    REQUIRE(strs.size() == texts.size(), texts.size() << " sequences become " << strs.size() << " strings");
    bool multi = false, empty = false;
    for (size_t i = 0; i < texts.size(); i++) {
        std::istringstream in(strs[i]);
        IntSeq back;
        for (int x; in >> x;) back.push_back(x);
        std::string rest;
        in.clear();
        in >> rest;
        REQUIRE(rest.empty(), "string \"" << strs[i] << "\" is not made of numbers");
        for (char c : strs[i]) REQUIRE(c == ' ' || c == '-' || (c >= '0' && c <= '9'), "string \"" << strs[i] << "\" is not made of numbers");
        if (ids[i].empty()) {
            REQUIRE(back == IntSeq(1, -1), "an empty segmentation is written as \"" << strs[i] << "\"");
            empty = true;
        } else {
            REQUIRE(back == ids[i], "segmentation " << show(ids[i]) << " is written as \"" << strs[i] << "\"");
            multi |= ids[i].size() > 1;
        }
    }
    if (empty) d.label("empty segmentation");
    if (multi) d.nontrivial();
}

// -------------------------------------------------------------------------------------------------- C19: relabelling

PROPERTY(C19, stream, 12000, 240000) {
    ModelPlan p = gen_model(d, 0);
    IntSeq other = gen_symbols(d, (int) p.syms.size());
    for (size_t i = other.size(); i > 1; i--) std::swap(other[i - 1], other[d.below((uint32_t) i)]);
    std::map<int, int> to;
    for (size_t i = 0; i < p.syms.size(); i++) to[p.syms[i]] = other[i];
    auto image = [&](const IntSeq& s) { IntSeq r; for (int x : s) r.push_back(to[x]); return r; };
    auto all = [&](const Seqs& v) { Seqs r; for (auto& s : v) r.push_back(image(s)); return r; };
    NOTE("symbols " << show(p.syms) << " become " << show(other));
    auto same = [&](IntStreamVGram& a, IntStreamVGram& b, const Seqs& data) {
        REQUIRE(all(a.alphabet()) == b.alphabet(), "alphabets " << show(a.alphabet()) << " and " << show(b.alphabet()));
        REQUIRE(a.freqs() == b.freqs(), "frequencies " << show(a.freqs()) << " and " << show(b.freqs()));
        for (int i = 0; i < 3; i++) {
            IntSeq s;
            for (int x : gen_text(d, a.alphabet(), p.syms, data)) if (to.count(x)) s.push_back(x);
            IntSeq x = a.parse(s), y = b.parse(image(s));
            REQUIRE(x == y, "segmentations of " << show(s) << " and of its image are " << show(x) << " and " << show(y));
        }
    };
    if (d.chance(1, 2)) {
        auto a = p.stream(), b = p.stream();
        Seqs data;
        for (int n = 1 + d.size(4); n > 0; n--) {
            for (auto& s : gen_batch(d, p.syms, 3000)) { a->accept(s); b->accept(image(s)); data.push_back(s); }
            a->update_dict();
            b->update_dict();
            same(*a, *b, data);
        }
        if (!vgrams(a->alphabet()).empty()) d.nontrivial();
    } else {
        p.iters = 1 + d.size(20);
        auto a = p.fit_model(), b = p.fit_model();
        Seqs data = gen_batch(d, p.syms, 6000 / p.iters + 30);
        unsigned seed = d.below(1u << 30);
        srand(seed);
        a->fit(data);
        srand(seed);
        b->fit(all(data));
        same(*a, *b, data);
        if (!vgrams(a->alphabet()).empty()) d.nontrivial();
        d.label("fitted");
    }
}

// --------------------------------------------------------------------------------------------- C21: interrupted fitting

PROPERTY(C21, interrupted, 15000, 300000) {
    ModelPlan p = gen_model(d, 0);
    int iters = 1 + d.size(8);
    Seqs data = gen_batch(d, p.syms, 4000 / iters + 30);
    unsigned seed = d.below(1u << 30);
    long total = (long) data.size() * (iters + 1);
    size_t longest = 0;
    for (auto& q : data) longest = std::max(longest, q.size());
    StoppableVGram m(p.size, iters);
    m.left = d.chance(1, 10) ? 0 : d.chance(1, 4) ? (long) d.size((int) total) : (long) d.below((uint32_t) total + 1);
    long stop_at = m.left;
    m.once = d.chance(1, 2);
    NOTE("fit " << iters << " iterations on " << data.size() << " sequences, stopped at poll " << stop_at << ": " << show(data, 6));
    srand(seed);
    IntVGram* r = m.fit(data);
    bool stopped = m.hit;
    m.left = -1;
    REQUIRE(stopped || r == &m, "an uninterrupted fit does not return its model");
    // the model can be used: every symbol it accepted (a prefix of the data it was given) is known
    int rounds = 1;
    auto usable = [&](const char* what) {
        Seqs alpha = m.alphabet();
        IntSeq f = m.freqs();
        REQUIRE(f.size() == alpha.size(), what << ": " << f.size() << " frequencies of " << alpha.size() << " v-grams");
        // sequences are drawn with repetition
        REQUIRE(covered(f, alpha) <= (double) longest * data.size() * iters * rounds + sum_len(data), what << ": frequencies of " << covered(f, alpha) << " symbols");
        std::set<int> known, possible;
        for (auto& c : m.get_coder()->code_map()) known.insert(c.first);
        for (auto& s : data) possible.insert(s.begin(), s.end());
        for (int x : known) REQUIRE(possible.count(x), what << ": symbol " << x << " is known and not in the data");
        for (int i = 0; i < 2; i++) check_parse(d, m, known, gen_text(d, alpha, p.syms, data), what);
        for (size_t i = 0; i < data.size() && i < 4; i++) check_parse(d, m, known, data[i], what);
    };
    usable("after the interruption");
    if (stopped) d.label("interrupted");
    // the first poll comes while learning, as soon as there is anything to learn from
    if (stop_at == 0 && !data.empty()) {
        REQUIRE(stopped, "fitting never looks whether it is interrupted");
        REQUIRE(r == nullptr, "a fit which was interrupted at the start claims to be finished");
        d.label("interrupted at the start");
    }
    if (stopped) {
        d.label(r == nullptr ? "interrupted while learning" : "interrupted while counting");
        // the work can be taken up again, also when that is interrupted
        if (d.chance(1, 3)) {
            m.left = (long) d.below((uint32_t) total + 1);
            srand(seed + 2);
            NOTE("fitting again, interrupted at poll " << m.left);
            m.fit(data);
            m.left = -1;
            rounds++;
            usable("after the second interruption");
            d.label("interrupted twice");
        }
        srand(seed + 1);
        rounds++;
        r = m.fit(data);
        REQUIRE(r == &m, "fitting again does not finish");
        usable("after fitting again");
    }
    REQUIRE(covered(m.freqs(), m.alphabet()) == sum_len(data), (stopped ? "after fitting again" : "after fitting") << " the frequencies are of " << covered(m.freqs(), m.alphabet()) << " symbols, the data have " << sum_len(data));
    if (stopped) {
        // and is done then
        IntSeq f = m.freqs();
        Seqs alpha = m.alphabet();
        REQUIRE(m.fit(data) == &m && m.freqs() == f && m.alphabet() == alpha, "fitting once more changes the model");
    }
    // transforming can be interrupted too: what is returned is right
    Seqs full = m.transform(data);
    if (!data.empty()) {
        m.left = (long) d.below((uint32_t) data.size());
        Seqs part = m.transform(data);
        m.left = -1;
        REQUIRE(part.size() <= full.size() && std::equal(part.begin(), part.end(), full.begin()), "an interrupted transform is not a beginning of the whole one");
        REQUIRE(!part.empty(), "an interrupted transform lost its first result");
        std::vector<std::string> strings = m.transform_to_string(data);
        long at = (long) d.below((uint32_t) data.size());
        m.once = false;
        m.left = at;
        part = m.transform(data);
        REQUIRE((long) part.size() <= at + 2, "a transform told to stop after " << at << " sequences went on for " << part.size());
        REQUIRE(part.size() <= full.size() && std::equal(part.begin(), part.end(), full.begin()), "an interrupted transform is not a beginning of the whole one");
        m.left = at;
        std::vector<std::string> some = m.transform_to_string(data);
        m.left = -1;
        REQUIRE((long) some.size() <= at + 2, "a transform to strings told to stop after " << at << " sequences went on for " << some.size());
        REQUIRE(some.size() <= strings.size() && std::equal(some.begin(), some.end(), strings.begin()), "an interrupted transform to strings is not a beginning of the whole one");
    }
    if (stopped && !data.empty()) d.nontrivial();
}

// an interrupted fit through a file: the loaded model can be fitted to the end
PROPERTY(C21, saved, 4000, 80000) {
    ModelPlan p = gen_model(d, 0);
    int iters = 1 + d.size(6);
    Seqs data = gen_batch(d, p.syms, 3000 / iters + 30);
    long total = (long) data.size() * (iters + 1);
    StoppableVGram m(p.size, iters);
    m.left = d.chance(1, 3) ? (long) data.size() * iters + (long) d.below((uint32_t) data.size() + 1) : (long) d.below((uint32_t) total + 1);
    NOTE("fit " << iters << " iterations on " << data.size() << " sequences, stopped at poll " << m.left << ": " << show(data, 6));
    srand(d.below(1u << 30));
    m.fit(data);
    m.left = -1;
    if (m.hit && d.chance(1, 4)) m.update_dict();
    std::string a = d.tmpfile("a.json");
    m.save(a);
    std::unique_ptr<IntVGram> l(vgram_core::Loader::load_int_vgram(a));
    REQUIRE(l->alphabet() == m.alphabet() && l->freqs() == m.freqs(), "the loaded model has " << show(l->alphabet()) << " with " << show(l->freqs()) << ", the saved one " << show(m.alphabet()) << " with " << show(m.freqs()));
    for (int i = 0; i < 2; i++) {
        IntSeq s = gen_text(d, m.alphabet(), p.syms, data);
        IntSeq x = m.parse(s), y = l->parse(s);
        REQUIRE(x == y, "segmentation of " << show(s) << " was " << show(x) << " and is " << show(y));
    }
    std::set<IntSeq> learned = vgrams(m.alphabet());
    srand(d.below(1u << 30));
    REQUIRE(l->fit(data) == l.get(), "fitting the loaded model does not finish");
    Seqs alpha = l->alphabet();
    IntSeq f = l->freqs();
    REQUIRE(f.size() == alpha.size(), f.size() << " frequencies of " << alpha.size() << " v-grams");
    REQUIRE(covered(f, alpha) == sum_len(data), "after fitting the loaded model the frequencies are of " << covered(f, alpha) << " symbols, the data have " << sum_len(data));
    std::set<IntSeq> entries(alpha.begin(), alpha.end());
    REQUIRE(entries.size() == alpha.size(), "a v-gram is there twice: " << show(alpha));
    for (auto& e : alpha) {
        bool found = false;
        for (size_t i = 0; i < data.size() && !found; i++) found = contains(data[i], e);
        REQUIRE(found, "v-gram " << show(e) << " is not in the data");
    }
    for (auto& s : data) for (int x : s) REQUIRE(entries.count(IntSeq(1, x)), "symbol " << x << " of the data is not in the alphabet");
    std::set<int> known;
    for (auto& s : data) known.insert(s.begin(), s.end());
    for (size_t i = 0; i < data.size() && i < 4; i++) check_parse(d, *l, known, data[i], "after fitting the loaded model");
    REQUIRE(l->fit(gen_batch(d, p.syms, 200)) == l.get() && l->alphabet() == alpha && l->freqs() == f, "fitting once more changes the model");
    if (m.hit) { d.label("interrupted"); if (!data.empty()) d.nontrivial(); }
}
