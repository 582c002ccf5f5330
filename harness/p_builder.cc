// C06 what is learned, C07 how much is learned, C09 (builder) statistics of the result, C17 (builder) determinism.
#include "builder_gen.h"

static void mark(D& d, int changes) {
    if (changes >= 1) d.label("learned: at least 1 dictionary");
    if (changes >= 3) d.label("learned: at least 3 dictionaries");
    if (changes >= 8) d.label("learned: at least 8 dictionaries");
}

PROPERTY(C06, builder, 8000, 160000) {
    BuilderPlan p = gen_builder(d, d.chance(1, 10) ? 12000 : 2500);
    auto b = p.make();
    std::set<IntSeq> verified(p.start.begin(), p.start.end());
    std::set<int> seen;
    for (auto& e : p.start) if (e.size() == 1) seen.insert(e[0]);
    Seqs last;
    int changes = 0;
    std::set<IntSeq> last_vgrams;
    for (size_t n = 0; n < p.history.size(); n++) {
        b->accept(p.history[n]);
        for (int s : p.history[n]) seen.insert(s);
        const Seqs& now = b->result()->alphabet();
        if (now == last) continue;
        last = now;
        std::set<IntSeq> entries;
        std::set<IntSeq> vgrams;
        for (auto& e : now) {
            REQUIRE(!e.empty(), "after " << n + 1 << " sequences there is an empty entry");
            REQUIRE(entries.insert(e).second, "after " << n + 1 << " sequences entry " << show(e) << " is there twice");
            if (e.size() > 1) vgrams.insert(e);
            if (verified.count(e)) continue;
            bool found = false;
            for (size_t i = n + 1; i-- > 0 && !found;) found = contains(p.history[i], e);
            REQUIRE(found, "after " << n + 1 << " sequences entry " << show(e) << " is in none of them");
            verified.insert(e);
        }
        for (int s : seen)
            REQUIRE(entries.count(IntSeq(1, s)), "after " << n + 1 << " sequences symbol " << s << " is not an entry of the dictionary " << show(now));
        if (vgrams != last_vgrams) changes++;
        last_vgrams = vgrams;
    }
    mark(d, changes);
    if (changes) d.nontrivial();
}

PROPERTY(C06, regression, 1, 1) {
    // symbols which came first in a later sequence were dropped by the next reduction
    auto s = [](std::initializer_list<int> x) { return IntSeq(x); };
    IntDictImpl start(Seqs{{0}, {1}});
    IntVGramBuilderImpl b(start, IntSeq{0, 0}, Seqs{{0}, {1}}, 0.1, 0);
    for (int i = 0; i < 40; i++) {
        b.accept(s({0, 1, 0, 1, 0, 1, 0, 1}));
        b.accept(s({2, 3, 2, 3}));
    }
    std::set<IntSeq> e(b.result()->alphabet().begin(), b.result()->alphabet().end());
    for (int x = 0; x < 4; x++) REQUIRE(e.count(IntSeq(1, x)), "symbol " << x << " was dropped");
}

PROPERTY(C07, builder, 8000, 160000) {
    BuilderPlan p = gen_builder(d, d.chance(1, 10) ? 12000 : 2500);
    auto b = p.make();
    std::set<int> seen;
    size_t start_vgrams = 0;
    for (auto& e : p.start) if (e.size() == 1) seen.insert(e[0]); else start_vgrams++;
    std::set<IntSeq> last = vgrams_of(*b->result());
    int changes = 0;
    bool full = false;
    for (size_t n = 0; n < p.history.size(); n++) {
        b->accept(p.history[n]);
        for (int s : p.history[n]) seen.insert(s);
        std::set<IntSeq> now = vgrams_of(*b->result());
        REQUIRE(b->result()->size() - now.size() <= seen.size(), "after " << n + 1 << " sequences the dictionary has " << b->result()->size() - now.size() << " one-symbol entries for " << seen.size() << " symbols");
        if (now == last) continue;
        changes++;
        last = now;
        // the symbols are always there; v-grams share what they leave of the size
        size_t room = std::max(0, p.size - (int) seen.size());
        REQUIRE(now.size() <= std::max(room, changes == 1 ? start_vgrams : 0), "after " << n + 1 << " sequences the dictionary of size " << p.size << " has " << now.size() << " v-grams beside " << seen.size() << " symbols");
        full |= now.size() == room && room > 0;
    }
    mark(d, changes);
    if (full) d.label("dictionary full");
    if (changes) d.nontrivial();
}

// the least probability which learning aims at: nothing learned, or positive and never rising
PROPERTY(C07, probability, 3000, 60000) {
    BuilderPlan p = gen_builder(d, 2500);
    auto b = p.make();
    double last = b->get_min_probability();
    REQUIRE(p.ctor == 3 || last == -1, "minimal probability of a new builder is " << last);
    REQUIRE(p.ctor != 3 || last == p.min_prob, "minimal probability " << p.min_prob << " is restored as " << last);
    int changes = 0;
    for (size_t n = 0; n < p.history.size(); n++) {
        b->accept(p.history[n]);
        double now = b->get_min_probability();
        if (now == last) continue;
        changes++;
        REQUIRE(now > 0 && now <= 1, "minimal probability became " << now);
        REQUIRE(last < 0 || now < last, "minimal probability rose from " << last << " to " << now);
        last = now;
    }
    if (changes) d.nontrivial();
}

PROPERTY(C09, builder, 7500, 150000) {
    BuilderPlan p = gen_builder(d, d.chance(1, 10) ? 8000 : 2500);
    auto b = p.make();
    double since = 0, all = 0;
    bool relearned = false;
    std::set<IntSeq> last = vgrams_of(*b->result());
    int changes = 0;
    double start_chars = 0;
    for (size_t i = 0; i < p.start_freqs.size(); i++) start_chars += p.start_freqs[i] * (double) p.start[i].size();
    int every = 1 + (int) d.below(4);
    for (size_t n = 0; n < p.history.size(); n++) {
        b->accept(p.history[n]);
        since += p.history[n].size();
        all += p.history[n].size();
        std::set<IntSeq> now = vgrams_of(*b->result());
        bool change = now != last;
        if (n % every && !change && n + 1 < p.history.size()) continue;
        IntSeq f, again(1, 42);
        int ret = b->result_freqs(&f);
        int ret2 = b->result_freqs(&again);
        auto dict = b->result();
        REQUIRE(ret == (int) f.size() && (int) f.size() == dict->size(), "after " << n + 1 << " sequences there are " << f.size() << " frequencies of " << dict->size() << " entries (returned " << ret << ")");
        REQUIRE(ret2 == ret + 1 && again[0] == 42 && std::equal(f.begin(), f.end(), again.begin() + 1), "asking for the frequencies again gives others: " << show(f) << " and then " << show(again));
        if (change) { since = 0; changes++; relearned = true; }
        last = now;
        double chars = 0;
        std::vector<double> uses;
        for (int i = 0; i < dict->size(); i++) {
            REQUIRE(f[i] >= 0, "frequency of " << show(dict->get(i)) << " is " << f[i]);
            chars += f[i] * (double) dict->get(i).size();
            uses.push_back(f[i]);
        }
        double limit = since + (relearned ? 0 : start_chars);
        REQUIRE(chars <= limit + 0.5, "after " << n + 1 << " sequences the frequencies are of " << chars << " symbols, but only " << limit << " were accepted since the dictionary was learned");
        if (p.ctor != 3 && all <= 500) REQUIRE(chars == all, "the frequencies are of " << chars << " symbols of the " << all << " accepted before anything is learned");
        if (p.ctor == 3 && p.zero_freqs && all * p.min_prob < 2) REQUIRE(chars == all, "the frequencies are of " << chars << " symbols of the " << all << " accepted");
        if (p.zero_freqs || relearned) {
            double want = ref_code_length(uses, chars), got = b->code_length();
            REQUIRE(near(want, got, 1e-7), "code length is " << got << " per symbol, the frequencies " << show(f) << " give " << want);
        }
        if (chars > 0 && !now.empty()) d.nontrivial();
    }
    mark(d, changes);
}

// the same history gives the same dictionary, whatever other builders do in between
PROPERTY(C17, builder, 3000, 60000) {
    BuilderPlan p = gen_builder(d, 2500), q = gen_builder(d, 1500);
    auto alone = p.make(), mixed = p.make(), other = q.make();
    uint32_t rate = 1 + d.below(3);
    size_t at = 0;
    int reads = 0;
    std::vector<Seqs> trace;
    for (auto& s : p.history) {
        alone->accept(s);
        trace.push_back(alone->result()->alphabet());
    }
    for (size_t n = 0; n < p.history.size(); n++) {
        for (uint32_t i = 0; i < rate && at < q.history.size(); i++) other->accept(q.history[at++]);
        mixed->accept(p.history[n]);
        if (n % 3 == 0) {   // looking does not change what is learned
            IntSeq f;
            mixed->result_freqs(&f);
            mixed->code_length();
            mixed->alpha();
            mixed->get_min_probability();
            reads++;
        }
        REQUIRE(mixed->result()->alphabet() == trace[n], "after " << n + 1 << " sequences the dictionary is " << show(mixed->result()->alphabet()) << ", a builder alone learned " << show(trace[n]));
    }
    IntSeq f, g;
    alone->result_freqs(&f);
    mixed->result_freqs(&g);
    REQUIRE(f == g, "frequencies differ: " << show(f) << " and " << show(g));
    REQUIRE(alone->code_length() == mixed->code_length() && alone->get_min_probability() == mixed->get_min_probability(), "statistics differ");
    auto a = alone->alpha();
    Seqs x = a->alphabet(), y = alone->result()->alphabet();
    std::sort(x.begin(), x.end());
    std::sort(y.begin(), y.end());
    REQUIRE(x == y, "alpha() is not the result: " << show(x) << " and " << show(y));
    if (!vgrams_of(*alone->result()).empty()) d.nontrivial();
}
