// C27 what an expansion adds, C28 what a reduction keeps, C20 that learning is worth it.
#include "builder_gen.h"
#include "fast_random.h"

namespace {

// Training data which no dictionary change happens within: the last sequences have one symbol, so that it is known how
// they are segmented, and the change comes with one of them.
struct Stage {
    IntSeq syms;
    Seqs data;
};

Seqs dense_data(D& d, const IntSeq& syms, int symbols, TextSource* same = nullptr, bool reuse = false) {
    TextSource t;
    if (reuse) t = *same;
    else t = gen_source(d, syms);
    if (same) *same = t;
    NOTE(show(t) << " about " << symbols << " symbols");
    Seqs out;
    int maxlen = d.chance(1, 3) ? 6 : 60;
    while (symbols > 0) {
        int len = 1 + (int) t.next((uint32_t) std::min(symbols, maxlen));
        symbols -= len;
        out.push_back(t.seq(len));
    }
    return out;
}

double pair_score(double f, double starts, double ends, double total) {
    double ay = starts - f, xb = ends - f, xy = total - ay - xb - f;
    std::vector<double> params = {f + 1, ay + 1, xb + 1, xy + 1}, p(4);
    next_dirichlet(params, &p);
    double given = p[0] / (p[0] + p[1]);          // of the second after the first
    return f * given * std::log(given / (p[0] + p[2]));
}

// all the best segmentations of e into entries (but e itself and unused ones); false: too many of them
bool best_parts(const Seqs& entries, const std::vector<double>& count, double power, size_t self,
                std::vector<std::vector<int>>& out) {
    const IntSeq& e = entries[self];
    std::vector<std::vector<int>> at(e.size());
    for (size_t i = 0; i < entries.size(); i++) {
        if (i == self || (entries[i].size() > 1 && count[i] == 0)) continue;
        for (size_t pos = 0; pos + entries[i].size() <= e.size(); pos++) if (is_prefix(entries[i], e, pos)) at[pos].push_back((int) i);
    }
    auto worth = [&](int i) { return std::log(count[i] + 1) - std::log(power + entries.size()); };
    std::vector<double> rest(e.size() + 1, -std::numeric_limits<double>::infinity());     // of the best segmentation of what follows
    rest[e.size()] = 0;
    for (size_t pos = e.size(); pos-- > 0;) for (int i : at[pos]) rest[pos] = std::max(rest[pos], worth(i) + rest[pos + entries[i].size()]);
    const double eps = 1e-7 * (1 + std::fabs(rest[0]));
    bool all = true;
    std::vector<int> ids;
    std::function<void(size_t, double)> walk = [&](size_t pos, double score) {
        if (!all) return;
        if (pos == e.size()) { out.push_back(ids); all = out.size() < 3000; return; }
        for (int i : at[pos]) {
            double s = score + worth(i);
            if (s + rest[pos + entries[i].size()] < rest[0] - eps) continue;
            ids.push_back(i);
            walk(pos + entries[i].size(), s);
            ids.pop_back();
        }
    };
    walk(0, 0);
    return all;
}

double xlogx(double x) { return x > 0 ? x * std::log(x) : 0; }

// how much longer the code of all uses is without entry id; once: every part is one more use of what it was before,
// otherwise: parts which come twice are counted twice
double removal_cost(const std::vector<double>& count, double power, size_t id, const std::vector<int>& parts, bool once) {
    double c = count[id];
    double cost = xlogx(c) - xlogx(power) + xlogx(power + ((double) parts.size() - 1) * c);
    if (once) {
        for (int p : parts) cost -= xlogx(count[p] + c) - xlogx(count[p]);
    } else {
        std::map<int, int> times;
        for (int p : parts) times[p]++;
        for (auto& t : times) cost -= xlogx(count[t.first] + t.second * c) - xlogx(count[t.first]);
    }
    return cost;
}

}  // namespace

PROPERTY(C27, first_expansion, 7500, 150000) {
    int k = d.chance(1, 12) ? d.range(26, 200) : 1 + d.size(25);
    IntSeq syms = gen_symbols(d, k);
    int spread = d.weighted({1, 2, 4, 2});
    int size = spread == 0 ? d.range(1, k) : spread == 1 ? k + d.range(0, 6) : spread == 2 ? k + d.size(60) : k + (k > 25 ? 20000 : 1000);
    bool known = d.chance(1, 2);
    std::shared_ptr<IntVGramBuilder> b;
    if (known) b.reset(new IntVGramBuilderImpl(syms, size, 0)); else b.reset(new IntVGramBuilderImpl(size, 0));
    NOTE("size " << size << " symbols " << show(syms) << (known ? " known from the start" : ""));
    std::map<std::pair<int, int>, double> pairs;
    std::map<int, double> starts, ends;
    std::set<int> seen;
    if (known) seen.insert(syms.begin(), syms.end());
    double total = 0;
    Seqs data = dense_data(d, syms, d.range(0, 1100));
    uint32_t state = d.below(1u << 30);
    size_t n = 0;
    std::set<IntSeq> now;
    size_t padded = 0;
    for (;; n++) {
        if (n >= data.size()) {   // one symbol at a time until it is learned
            if (padded++ > 6000) break;
            state = state * 1664525u + 1013904223u;
            data.push_back(IntSeq(1, syms[(state >> 8) % k]));
        }
        const IntSeq& s = data[n];
        seen.insert(s.begin(), s.end());
        for (size_t i = 0; i + 1 < s.size(); i++) {
            pairs[{s[i], s[i + 1]}]++;
            starts[s[i]]++;
            ends[s[i + 1]]++;
            total++;
        }
        b->accept(s);
        now = vgrams_of(*b->result());
        if (!now.empty()) break;
    }
    struct Cand { IntSeq text; double score; };
    std::vector<Cand> cands;
    for (auto& p : pairs)
        cands.push_back({IntSeq{p.first.first, p.first.second}, pair_score(p.second, starts[p.first.first], ends[p.first.second], total)});
    size_t room = (size_t) std::max(0, size - (int) seen.size());
    size_t eligible = 0;
    double best_left = -1;
    IntSeq best_text;
    for (auto& c : cands) {
        if (c.score > 1e-6) {
            eligible++;
            if (!now.count(c.text) && c.score > best_left) { best_left = c.score; best_text = c.text; }
        }
    }
    if (now.empty()) {
        REQUIRE(eligible == 0 || room == 0, "nothing was learned from " << total << " pairs, " << show(best_text) << " is worth " << best_left << " and there is room for " << room);
        return;
    }
    REQUIRE(now.size() <= room, now.size() << " v-grams were added where there was room for " << room);
    double worst = std::numeric_limits<double>::infinity();
    IntSeq worst_text;
    for (auto& e : now) {
        REQUIRE(e.size() == 2 && pairs.count({e[0], e[1]}), "v-gram " << show(e) << " is not a pair of the data");
        double s = pair_score(pairs[{e[0], e[1]}], starts[e[0]], ends[e[1]], total);
        REQUIRE(s >= -1e-6, "pair " << show(e) << " with score " << s << " was added");
        if (s < worst) { worst = s; worst_text = e; }
    }
    REQUIRE(best_left <= worst + 1e-6 * (1 + std::fabs(worst)), "pair " << show(worst_text) << " with score " << worst << " was added, " << show(best_text) << " with score " << best_left << " was not");
    if (now.size() < std::min(eligible, room)) REQUIRE(now.size() >= seen.size(), "only " << now.size() << " pairs were added; " << eligible << " are worth it and there is room for " << room);
    if (best_left > 0) d.label("a choice was made");
    d.nontrivial();
}

// a dictionary which has v-grams to begin with: pairs of all its entries
PROPERTY(C27, from_vgrams, 5000, 100000) {
    bool many = d.chance(1, 6);
    int k = many ? d.range(10, 120) : d.range(2, 9);
    IntSeq syms = gen_symbols(d, k);
    Seqs start = gen_entries(d, syms, many ? 120 : 12, 4);
    if (d.chance(1, 8)) {       // long ones
        for (auto& e : start) if (e.size() > 2) while (e.size() < 300 && !d.chance(1, 60)) e.push_back(d.pick(syms));
        std::sort(start.begin(), start.end());
        start.erase(std::unique(start.begin(), start.end()), start.end());
    }
    complete(start, syms);
    shuffle(d, start);
    int spread = d.weighted({3, 4, 2}), entries = (int) start.size();
    int size = entries + (spread == 0 ? d.range(0, 6) : spread == 1 ? d.size(60) : 2000);
    NOTE("size " << size << " start " << show(start));
    IntDictImpl own(start);
    std::shared_ptr<IntVGramBuilder> b(new IntVGramBuilderImpl(own, size, 0));
    const Seqs& before = own.alphabet();
    std::set<IntSeq> known(before.begin(), before.end()), now;
    TextSource source;
    Seqs data = dense_data(d, syms, d.range(0, 900), &source);
    uint32_t state = d.below(1u << 30);
    auto next = [&](uint32_t n) { return ((state = state * 1664525u + 1013904223u) >> 8) % n; };
    if (d.chance(2, 3)) {
        // texts of the entries
        for (int left = d.range(10, 900); left > 0;) {
            IntSeq s;
            for (int n = 1 + (int) next(12); n > 0; n--, left--) { const IntSeq& e = start[next(next(3) ? std::min<uint32_t>(entries, 6) : (uint32_t) entries)]; s.insert(s.end(), e.begin(), e.end()); }
            data.insert(data.begin() + next((uint32_t) data.size() + 1), s);
        }
    }
    std::map<std::pair<int, int>, double> pairs;
    std::map<int, double> starts, ends;
    double total = 0, uses = 0;
    for (size_t n = 0; ; n++) {
        if (n >= data.size()) data.push_back(IntSeq(1, syms[next((uint32_t) k)]));
        const IntSeq& s = data[n];
        IntSeq f, out;
        b->result_freqs(&f);
        own.parse(s, f, uses, &out);
        REQUIRE(own.size() == entries, "segmenting symbols of the dictionary changed it");
        for (size_t i = 0; i + 1 < out.size(); i++) {
            pairs[{out[i], out[i + 1]}]++;
            starts[out[i]]++;
            ends[out[i + 1]]++;
            total++;
        }
        b->accept(s);
        uses = 0;
        f.clear();
        b->result_freqs(&f);
        for (int x : f) uses += x;
        if (uses == 0 && !out.empty()) break;
        REQUIRE(uses <= 1153, "after " << uses << " uses nothing has been learned");
    }
    for (auto& e : b->result()->alphabet()) if (!known.count(e)) now.insert(e);
    for (auto& e : before) REQUIRE(std::count(b->result()->alphabet().begin(), b->result()->alphabet().end(), e) == 1, "entry " << show(e) << " was lost while the dictionary grew");
    struct Cand { double lo = 1e300, hi = -1e300; };
    std::map<IntSeq, Cand> cands;
    for (auto& p : pairs) {
        IntSeq text = before[p.first.first];
        const IntSeq& second = before[p.first.second];
        text.insert(text.end(), second.begin(), second.end());
        if (known.count(text)) continue;
        double s = pair_score(p.second, starts[p.first.first], ends[p.first.second], total);
        Cand& c = cands[text];       // one text can be several pairs
        c.lo = std::min(c.lo, s);
        c.hi = std::max(c.hi, s);
    }
    size_t room = (size_t) (size - entries), eligible = 0;
    double best_left = -1, worst = 1e300;
    IntSeq best_text, worst_text;
    for (auto& c : cands) if (c.second.lo > 1e-6) {
        eligible++;
        if (!now.count(c.first) && c.second.lo > best_left) { best_left = c.second.lo; best_text = c.first; }
    }
    REQUIRE(now.size() <= room, now.size() << " v-grams were added where there was room for " << room);
    for (auto& e : now) {
        REQUIRE(cands.count(e), "v-gram " << show(e) << " is not a pair of what was counted");
        double s = cands[e].hi;
        REQUIRE(s >= -1e-6, "pair " << show(e) << " with score " << s << " was added");
        if (s < worst) { worst = s; worst_text = e; }
    }
    if (!now.empty()) REQUIRE(best_left <= worst + 1e-6 * (1 + std::fabs(worst)), "pair " << show(worst_text) << " with score " << worst << " was added, " << show(best_text) << " with score " << best_left << " was not");
    if (now.size() < std::min(eligible, room)) REQUIRE((int) now.size() >= entries, "only " << now.size() << " pairs were added; " << eligible << " are worth it, " << show(best_text) << " is worth " << best_left << " and there is room for " << room);
    if (best_left > 0 && !now.empty()) d.label("a choice was made");
    bool longer = false;
    for (auto& e : now) longer |= e.size() > 2;
    if (longer) d.label("longer v-grams made of v-grams");
    if (longer) d.nontrivial();
}

PROPERTY(C28, first_reduction, 6000, 120000) {
    bool many = d.chance(1, 15);
    int k = many ? d.range(15, 300) : d.range(2, 14);
    IntSeq syms = gen_symbols(d, k);
    int spread = many ? 2 + (int) d.below(2) : d.weighted({1, 5, 3, 2});
    int size = spread == 0 ? d.range(1, k) : spread == 1 ? k + d.range(1, 6) : spread == 2 ? k + d.size(60) : k + 1000;
    std::shared_ptr<IntVGramBuilder> b;
    Seqs start;
    int ctor = d.weighted({2, 2, 3});
    // symbols which come later take the room of v-grams
    IntSeq first = syms;
    if (ctor < 2 && d.chance(2, 3)) first.resize(1 + d.below((uint32_t) k));
    if (ctor == 0) {
        b.reset(new IntVGramBuilderImpl(first, size, 0));
    } else if (ctor == 1) {
        b.reset(new IntVGramBuilderImpl(size, 0));
    } else {
        start = d.chance(1, 4) ? gen_entries(d, syms, 12, 25) : gen_entries(d, syms, 10, 3);
        complete(start, syms);
        size = std::max(size, (int) start.size());
        IntDictImpl dict(start);
        b.reset(new IntVGramBuilderImpl(dict, size, 0));
    }
    NOTE("size " << size << " symbols " << show(syms) << " start " << show(start));
    uint32_t state = d.below(1u << 30);
    std::set<int> seen;
    if (ctor != 1) seen.insert(first.begin(), first.end());
    // the first change is an expansion
    TextSource source;
    Seqs data = dense_data(d, first, d.range(0, 1100), &source);
    Seqs entries;                 // the expanded dictionary
    std::vector<double> count;
    size_t n = 0, padded = 0;
    int stage = 0;
    std::set<IntSeq> before = vgrams_of(*b->result()), kept;
    bool clean = false, parts = !start.empty() && d.chance(1, 2);
    for (;; n++) {
        if (n >= data.size()) {
            if (padded++ > 12000) { d.label("needs more data"); return; }
            state = state * 1664525u + 1013904223u;
            data.push_back(IntSeq(1, stage ? syms[(state >> 8) % k] : first[(state >> 8) % first.size()]));
        }
        // the counts just before
        if (stage == 1) {
            IntSeq f;
            b->result_freqs(&f);
            entries = b->result()->alphabet();
            count.assign(entries.size(), 0);
            for (size_t i = 0; i < f.size(); i++) count[i] = f[i];
        }
        b->accept(data[n]);
        seen.insert(data[n].begin(), data[n].end());
        if (stage == 0) {
            std::set<IntSeq> now = vgrams_of(*b->result());
            if (now != before || b->get_min_probability() > 0) {
                if (b->get_min_probability() > 0) { d.label("nothing to add"); return; }      // reduced without anything to see before
                stage = 1;
                data.resize(n + 1);
                Seqs more = dense_data(d, syms, d.range(100, 1500), &source, d.chance(3, 4));
                for (size_t i = 0; parts && i < more.size(); i++) {
                    state = state * 1664525u + 1013904223u;
                    if ((state >> 8) % 2) more[i] = start[(state >> 12) % start.size()];
                }
                data.insert(data.end(), more.begin(), more.end());
            }
        } else if (b->get_min_probability() > 0) {
            clean = data[n].size() == 1;
            kept = vgrams_of(*b->result());
            break;
        }
    }
    if (!clean) { d.label("reduced within a sequence"); return; }
    // the last sequence was one symbol
    for (size_t i = 0; i < entries.size(); i++) if (entries[i] == data[n]) count[i]++;
    double power = 0;
    for (double c : count) power += c;
    size_t room = (size_t) std::max(0, size - (int) seen.size());
    std::set<IntSeq> symbols;
    for (auto& e : b->result()->alphabet()) if (e.size() == 1) symbols.insert(e);
    for (int s : seen) REQUIRE(symbols.count(IntSeq(1, s)), "symbol " << s << " was dropped");
    REQUIRE(kept.size() <= room, kept.size() << " v-grams were kept where there was room for " << room);
    struct Item { IntSeq text; double lo1, hi1, lo2, hi2; bool kept; };
    std::vector<Item> items;
    size_t worth = 0;
    for (size_t i = 0; i < entries.size(); i++) {
        if (entries[i].size() < 2) continue;
        bool k = kept.count(entries[i]) > 0;
        if (count[i] == 0) {
            REQUIRE(!k, "v-gram " << show(entries[i]) << " which was never used was kept");
            continue;
        }
        std::vector<std::vector<int>> parts;
        bool all = best_parts(entries, count, power, i, parts);
        Item it{entries[i], 1e300, -1e300, 1e300, -1e300, k};
        if (entries[i].size() > 8) d.label("a v-gram of more than 8 symbols");
        for (auto& p : parts) {
            double a = removal_cost(count, power, i, p, true), c = removal_cost(count, power, i, p, false);
            it.lo1 = std::min(it.lo1, a); it.hi1 = std::max(it.hi1, a);
            it.lo2 = std::min(it.lo2, c); it.hi2 = std::max(it.hi2, c);
        }
        if (!all) it = Item{entries[i], -1e300, 1e300, -1e300, 1e300, k};
        items.push_back(it);
        double eps = 1e-6 * (1 + power);
        if (it.lo1 > eps && it.lo2 > eps) worth++;
        if (k) REQUIRE(it.hi1 > -eps || it.hi2 > -eps, "v-gram " << show(it.text) << " was kept though the code is shorter without it by " << -it.hi2);
    }
    for (auto& e : kept) {
        bool was = false;
        for (auto& x : entries) was |= x == e;
        REQUIRE(was, "a reduction added " << show(e));
    }
    REQUIRE(kept.size() >= std::min(worth, room), "only " << kept.size() << " v-grams were kept; " << worth << " are worth it and there is room for " << room);
    bool choice = false;
    double eps = 1e-6 * (1 + power);
    for (auto& x : items) {
        if (!x.kept) continue;
        for (auto& y : items) {
            if (y.kept) continue;
            choice = true;
            REQUIRE(!(y.lo1 > x.hi1 + eps && y.lo2 > x.hi2 + eps), "v-gram " << show(x.text) << " was kept and saves " << x.hi2 << ", " << show(y.text) << " would save " << y.lo2 << " and was not");
        }
    }
    if (choice) d.label("a choice was made");
    if (choice && kept.size() == room && worth > room) d.label("more v-grams than room");
    if (!items.empty()) d.nontrivial();
}

// A dictionary begins with the frequencies it was restored with, or with those of its entries while it was learned, and
// what a builder counts next are the uses of the most probable segmentation by them.
PROPERTY(C05, learned, 6000, 120000) {
    bool many = d.chance(1, 10);
    int k = many ? d.range(10, 60) : d.range(2, 10), way = d.weighted({2, 3, 4});
    IntSeq syms = gen_symbols(d, k);
    TextSource source;
    std::map<IntSeq, double> weight;
    std::shared_ptr<IntVGramBuilder> b;
    static const char* ways[] = {"restored", "grown", "reduced"};
    d.label(ways[way]);
    Seqs texts;
    if (way == 0) {
        Seqs start = gen_entries(d, syms, many ? 100 : 14, 5);
        complete(start, syms);
        std::sort(start.begin(), start.end());
        IntSeq f;
        for (auto& e : start) {
            f.push_back(d.chance(1, 4) ? 0 : d.size(d.chance(1, 3) ? 1000000 : 80));
            weight[e] = f.back();
        }
        static const std::vector<double> probs = {0.02, 0.002, 0.0005};
        double prob = d.pick(probs);
        IntDictImpl dict(start);
        b.reset(new IntVGramBuilderImpl(dict, f, start, prob, 0, (int) start.size() + d.size(30)));
        NOTE("restored with " << show(start) << " and frequencies " << show(f));
        texts = dense_data(d, syms, 20 + d.size(200), &source);
        for (int i = d.size(8); i > 0; i--) {
            IntSeq s;
            for (int j = 1 + d.size(4); j > 0; j--) { const IntSeq& e = d.pick(start); s.insert(s.end(), e.begin(), e.end()); }
            texts.insert(texts.begin(), s);
        }
    } else {
        int size = k + d.range(1, many ? 100 : way == 1 ? 12 : 20);
        b.reset(new IntVGramBuilderImpl(syms, size, 0));
        NOTE("size " << size << " symbols " << show(syms));
        Seqs data = dense_data(d, syms, 1300, &source);
        int after = d.range(100, 1500);
        uint32_t state = d.below(1u << 30);
        size_t n = 0;
        // a stage ends when the dictionary is another one
        bool reduced = false, grown = false;
        Seqs entries = b->result()->alphabet();
        for (; n < 8000; n++) {
            if (n >= data.size()) {       // one symbol at a time
                state = state * 1664525u + 1013904223u;
                data.push_back(IntSeq(1, syms[(state >> 8) % k]));
            }
            const IntSeq s = data[n];
            std::map<IntSeq, double> counts;
            if (grown) {
                IntSeq f;
                b->result_freqs(&f);
                for (size_t i = 0; i < f.size(); i++) counts[entries[i]] = f[i];
            }
            if (!grown) for (size_t i = 0; i + 1 < s.size(); i++) weight[IntSeq{s[i], s[i + 1]}]++;
            if (!grown) for (int x : s) weight[IntSeq(1, x)]++;
            bool single = s.size() == 1;
            b->accept(s);
            if (b->result()->size() != (int) entries.size() || b->get_min_probability() > 0) entries = b->result()->alphabet();
            if (!grown && !vgrams_of(*b->result()).empty()) {
                grown = true;
                if (way == 1) break;
                data.resize(n + 1);
                Seqs more = dense_data(d, syms, after, &source, true);
                data.insert(data.end(), more.begin(), more.end());
            } else if (b->get_min_probability() > 0) {
                if (!grown) { d.label("nothing to add"); return; }
                reduced = true;
                // of the sequence that came last the uses are known when it is one symbol
                if (!single) { d.label("reduced within a sequence"); return; }
                weight = counts;
                weight[s]++;
                break;
            }
        }
        if (way == 1 ? !grown : !reduced) { d.label("nothing learned"); return; }
        texts = dense_data(d, syms, 20 + d.size(200), &source, true);
    }
    // overlapping v-grams: texts of the entries themselves
    Seqs parts = b->result()->alphabet();
    uint32_t state = d.below(1u << 30);
    for (int i = 10 + d.size(20); i > 0; i--) {
        IntSeq s;
        for (int j = 0; j < 6; j++) {
            state = state * 1664525u + 1013904223u;
            const IntSeq& e = parts[(state >> 8) % parts.size()];
            s.insert(s.end(), e.begin() + ((state >> 4) % 3 == 0 && e.size() > 1), e.end());
        }
        texts.push_back(s);
    }
    std::reverse(texts.begin(), texts.end());
    bool matters = false;
    for (auto& s : texts) {
        double prob = b->get_min_probability();
        IntSeq f, g;
        b->result_freqs(&f);
        Seqs entries = b->result()->alphabet();
        auto dict = b->result();
        b->accept(s);
        if (b->result() != dict || b->get_min_probability() != prob) break;   // the next dictionary
        b->result_freqs(&g);
        Seqs now = b->result()->alphabet();
        if (now != entries) break;
        IntSeq begin, used;
        double total = 0;
        for (auto& e : entries) { begin.push_back((int) weight[e]); total += weight[e]; }
        size_t length = 0;
        for (size_t i = 0; i < entries.size(); i++) {
            REQUIRE(g[i] >= f[i], "frequency of " << show(entries[i]) << " went from " << f[i] << " to " << g[i]);
            for (int j = f[i]; j < g[i]; j++) used.push_back((int) i);
            length += (size_t) (g[i] - f[i]) * entries[i].size();
        }
        if (length == 0 && way == 0) break;    // it grew, and what it counts now does not show
        REQUIRE(length == s.size(), "of " << s.size() << " symbols " << length << " were counted");
        double denom = total + entries.size();
        double best = ref_best_score(entries, s, begin, denom), got = ref_score(used, begin, denom);
        REQUIRE(got >= best - 1e-7 * (1 + std::fabs(best)), "by the frequencies " << show(begin) << " of " << show(entries) << " the best segmentation of " << show(s) <<
                " has log probability " << best << ", the one that was counted has " << got << ": " << show(used));
        IntSeq none;
        if (ref_score(used, none, denom) < ref_best_score(entries, s, none, denom) - 1e-6) matters = true;
        for (int id : used) weight[entries[id]]++;
    }
    if (matters) d.nontrivial();
}

// How long is counted before the dictionary is changed: until a part of the minimal probability would have been met with
// a probability of 90 %, and, when learning has not made the code shorter for a while, longer and longer.
namespace {

struct Waits {
    IntVGramBuilder& b;
    double p;               // minimal probability of the dictionary which is counted in; 0: not known
    bool result;            // there is a result: what is seen has been reduced or restored
    bool grown = false;     // the first grown dictionary is counted in and seen
    bool hidden = false;    // a grown dictionary is counted in, the result is seen
    int updates = 0, longer = 0, judged = 0;
    double base = 0, sum = 0, before = 0;      // uses: restored, now, before the last sequence that was counted

    Waits(IntVGramBuilder& b, double p, bool restored) : b(b), p(p), result(restored) { before = sum = base = total(); }
    double total() {
        IntSeq f;
        b.result_freqs(&f);
        double s = 0;
        for (int x : f) s += x;
        return s;
    }
    static double enough(double p, int longer) { return -(std::log(0.1) + longer * std::log(0.8)) / p; }
    int most() const { return std::max(0, updates - 3); }
    void unchanged(double uses) {
        if (p <= 0) return;
        while (longer < most() && enough(p, longer) < uses * (1 - 1e-9)) longer++;
        REQUIRE(uses <= enough(p, longer) * (1 + 1e-9), "after " << uses << " uses a dictionary of minimal probability " << p << " was not changed; " << enough(p, most()) << " are enough");
    }
    // the dictionary was changed at the latest after `uses`, and not before the last sequence
    void changed(double last, double uses) {
        unchanged(last);
        if (p > 0) {
            judged++;
            REQUIRE(uses >= enough(p, longer) * (1 - 1e-9), "after " << uses << " uses a dictionary of minimal probability " << p << " was changed; " << enough(p, longer) << " are needed");
        }
        updates++;
    }
    void reduced(double was) {
        double now = b.get_min_probability();
        REQUIRE(now > 0 && (was <= 0 || now <= was), "the minimal probability went from " << was << " to " << now);
        REQUIRE(now <= 1.0 / b.result()->size() * (1 + 1e-9), "the minimal probability " << now << " is more than that of one of " << b.result()->size() << " entries");
        result = true;
        grown = hidden = false;
        p = now;
        base = before = sum = 0;
    }
    // what happened: 0 nothing, 1 grown, 2 reduced, 3 grown one sequence ago, 4 grown one sequence ago and reduced
    int accept(const IntSeq& s) {
        double old = sum, was = b.get_min_probability();
        b.accept(s);
        double now = total();
        if (s.empty()) {
            REQUIRE(now == old || (now == 0 && hidden), "nothing was accepted and the uses went from " << old << " to " << now);
            return 0;
        }
        sum = now;
        if (!result) {
            if (now > old) { before = old; unchanged(now); return 0; }
            REQUIRE(now == 0, "the uses went from " << old << " to " << now);
            changed(old, old + s.size());
            before = 0;
            if (!grown) {
                grown = true;
                p = 0;
                return 1;
            }
            reduced(was);
            return 2;
        }
        if (now > old) {
            REQUIRE(!hidden, "of a dictionary which is not counted in " << now - old << " uses were counted");
            unchanged(old - base);
            before = old;
            return 0;
        }
        bool first = !hidden;
        if (first) changed(before - base, old - base);
        hidden = true;
        if (now == old) return first ? 3 : 0;
        REQUIRE(now == 0, "the uses went from " << old << " to " << now);
        updates++;
        reduced(was);
        return first ? 4 : 2;
    }
};

}  // namespace

// the first changes, where all that decides is known
PROPERTY(C33, first_changes, 3000, 60000) {
    int k = d.range(1, 20);
    IntSeq syms = gen_symbols(d, k);
    int spread = d.weighted({1, 3, 3, 2});
    int size = spread == 0 ? d.range(1, k) : spread == 1 ? k + d.range(0, 6) : spread == 2 ? k + d.size(60) : k + 1000;
    bool known = d.chance(1, 2);
    std::shared_ptr<IntVGramBuilder> b;
    if (known) b.reset(new IntVGramBuilderImpl(syms, size, 0)); else b.reset(new IntVGramBuilderImpl(size, 0));
    NOTE("size " << size << " symbols " << show(syms) << (known ? " known from the start" : ""));
    Waits w(*b, 0.002, false);
    REQUIRE(b->get_min_probability() < 0, "nothing was learned and the minimal probability is " << b->get_min_probability());
    TextSource source;
    uint32_t state = d.below(1u << 30);
    Seqs data = dense_data(d, syms, d.range(0, 1300), &source);
    std::map<IntSeq, double> pairs;
    double total = 0;
    size_t n = 0;
    auto next = [&] {
        if (n >= data.size()) {       // one symbol at a time
            state = state * 1664525u + 1013904223u;
            data.push_back(IntSeq(1, syms[(state >> 8) % k]));
        }
        return data[n];
    };
    for (;; n++) {
        IntSeq s = next();
        for (size_t i = 0; i + 1 < s.size(); i++) { pairs[IntSeq{s[i], s[i + 1]}]++; total++; }
        int what = w.accept(s);
        if (what == 0) {
            REQUIRE(w.sum <= 1153, "after " << w.sum << " symbols nothing has been learned");
            continue;
        }
        break;
    }
    // the minimal probability of the grown dictionary is that of the rarest pair which it got
    double p = 0.002;
    for (auto& e : vgrams_of(*b->result())) {
        REQUIRE(pairs.count(e), "v-gram " << show(e) << " is not a pair of the data");
        p = std::min(p, pairs[e] / total);
    }
    w.p = p;
    if (p < 0.002) d.label("grown with a smaller probability");
    n++;
    data.resize(n);
    // up to the next change there are about as many uses as are enough, most of them singly or all
    Seqs more = dense_data(d, syms, (int) std::min(2.3 / p * (d.chance(1, 3) ? 1.5 : 0.9), 12000.), &source, d.chance(3, 4));
    data.insert(data.end(), more.begin(), more.end());
    std::map<IntSeq, double> count;
    int entries = 0;
    IntSeq last;
    for (;; n++) {
        last = next();
        IntSeq f;
        b->result_freqs(&f);
        Seqs a = b->result()->alphabet();
        entries = (int) a.size();
        for (size_t i = 0; i < f.size(); i++) count[a[i]] = f[i];
        if (w.accept(last)) break;
        if (w.sum > 30000) { d.label("rare pairs"); return; }
    }
    if (last.size() == 1) {
        if (!count.count(last)) entries++;
        count[last]++;
        double power = 0, expected = std::min(p, 1.0 / entries);
        for (auto& e : b->result()->alphabet()) power += count[e];
        for (auto& e : vgrams_of(*b->result())) expected = std::min(expected, (count[e] + 1) / (power + entries));
        REQUIRE(near(b->get_min_probability(), expected, 1e-9), "a reduction to " << b->result()->size() << " entries of " << entries << " used " << power <<
                " times has the minimal probability " << b->get_min_probability() << ", that of the rarest is " << expected);
        d.label("reduced with known counts");
        if (expected < std::min(p, 1.0 / entries) * (1 - 1e-9)) d.label("reduced with a rare v-gram");
    }
    // and the next one
    for (n++; ; n++) {
        int what = w.accept(next());
        if (what >= 3) break;
        REQUIRE(what == 0, "reduced twice");
        if (w.sum > 8000) { d.label("rare v-grams"); return; }
    }
    d.nontrivial();
}

// However small the minimal probability is, after 20 million uses a dictionary is changed
PROPERTY(C33, slow_limit, 1, 8) {
    int k = d.range(1, 3), len = d.range(8, 20);
    IntSeq syms = gen_symbols(d, k), had;
    Seqs start;
    for (int x : syms) start.push_back(IntSeq(1, x)), had.push_back(d.size(100));
    std::sort(start.begin(), start.end());
    IntDictImpl dict(start);
    double prob = std::pow(10., -d.range(8, 15));
    NOTE("symbols " << show(syms) << " with frequencies " << show(had) << ", minimal probability " << prob << ", sequences of about " << len);
    IntVGramBuilderImpl b(dict, had, start, prob, 0, k + d.range(0, 20));
    double base = std::accumulate(had.begin(), had.end(), 0.0), uses = 0;
    const double enough = 20000000;
    uint32_t state = d.below(1u << 30);
    auto total = [&] {
        IntSeq f;
        b.result_freqs(&f);
        return std::accumulate(f.begin(), f.end(), 0.0) - base;
    };
    std::vector<IntSeq> parts(64);      // drawn before, because drawing would take longer than counting
    for (auto& s : parts)
        for (int i = 0; i < len; i++) {
            state = state * 1664525u + 1013904223u;
            s.push_back(syms[(state >> 8) % k]);
        }
    long n = 0;
    for (; uses + len <= enough; n++) {
        b.accept(parts[n % parts.size()]);
        uses += len;
        if (n % 1024 == 0 || uses + 4 * len > enough)
            REQUIRE(total() == uses, uses << " uses were made and " << total() << " are counted");
    }
    while (uses < enough) {
        b.accept(IntSeq(1, syms[0]));
        REQUIRE(total() == ++uses, uses << " uses were made and " << total() << " are counted");
    }
    REQUIRE(b.get_min_probability() == prob, "the minimal probability has become " << b.get_min_probability());
    b.accept(IntSeq(1, syms[0]));       // the one which makes it too many
    REQUIRE(total() == uses + 1, "of " << uses + 1 << " uses " << total() << " are counted");
    b.accept(IntSeq(1, syms[0]));
    REQUIRE(total() == uses + 1, "after more than 20 million uses the dictionary has not been changed: " << total() << " are counted");
    d.nontrivial();
}

PROPERTY(C33, histories, 8000, 160000) {
    BuilderPlan plan = gen_builder(d, 6000);
    std::shared_ptr<IntVGramBuilder> b = plan.make();
    Waits w(*b, plan.ctor == 3 ? plan.min_prob : 0.002, plan.ctor == 3);
    for (auto& s : plan.history) w.accept(s);
    if (w.judged > 1) d.nontrivial();
    if (w.judged > 4) d.label("more than 4 changes");
    if (w.longer > 0) d.label("waits longer");
    if (w.longer > 3) d.label("waits much longer");
}

// On data which stay alike the code does not become shorter for ever, so the waits become longer.  When they do is a
// matter of chance: of 2,000 builders three in a hundred had not begun after 40 changes, so most of eight builders must have.
PROPERTY(C33, settles, 60, 1200) {
    int settled = 0, judged = 0;
    for (int i = 0; i < 8; i++) {
        int k = d.range(1, 6);
        IntSeq syms = gen_symbols(d, k);
        int size = k + d.size(20);
        Seqs start;
        for (int x : syms) start.push_back(IntSeq(1, x));
        std::sort(start.begin(), start.end());
        IntDictImpl dict(start);
        static const std::vector<double> probs = {0.3, 0.2, 0.1};
        double prob = d.pick(probs);
        IntVGramBuilderImpl b(dict, IntSeq(start.size(), 0), start, prob, 0, size);
        NOTE("size " << size << " symbols " << show(syms) << " minimal probability " << prob);
        Waits w(b, prob, true);
        TextSource t = gen_source(d, syms);
        NOTE(show(t));
        int len = 1 + d.size(60);
        for (long symbols = 0; w.updates < 40 && w.longer == 0 && symbols < 60000; symbols += len) w.accept(t.seq(len));
        if (w.longer > 0) settled++;
        if (w.longer > 0 || w.updates >= 40) judged++;
    }
    REQUIRE(judged < 5 || settled * 2 >= judged, "of " << judged << " builders which changed their dictionaries 40 times on data which stay alike " << settled << " have begun to wait longer");
    if (judged >= 5) d.nontrivial();
}

// One long word, over and over: with almost every change of the dictionary the code becomes shorter, and as long as it does
// the waits do not become longer.  Of 500 builders one in four had begun to wait longer after six changes.
PROPERTY(C33, improves, 30, 600) {
    int stayed = 0, judged = 0;
    for (int i = 0; i < 12; i++) {
        int k = d.range(10, 40);
        IntSeq syms = gen_symbols(d, k);
        Seqs start;
        for (int x : syms) start.push_back(IntSeq(1, x));
        std::sort(start.begin(), start.end());
        IntDictImpl dict(start);
        static const std::vector<double> probs = {0.3, 0.2, 0.1};
        double prob = d.pick(probs);
        IntVGramBuilderImpl b(dict, IntSeq(start.size(), 0), start, prob, 0, k + 500);
        Waits w(b, prob, true);
        uint32_t state = d.below(1u << 30);
        int len = 1 + d.size(60);
        NOTE("a word of " << show(syms) << " minimal probability " << prob << " in pieces of " << len);
        for (long symbols = 0; w.updates < 6 && w.longer == 0 && symbols < 30000; symbols += len) {
            IntSeq s;
            state = state * 1664525u + 1013904223u;
            int at = (state >> 8) % k;
            for (int j = 0; j < len; j++) s.push_back(syms[(at + j) % k]);
            w.accept(s);
        }
        if (w.updates >= 6 && w.longer == 0) stayed++;
        if (w.updates >= 6 || w.longer > 0) judged++;
    }
    REQUIRE(judged < 10 || stayed > 0, "of " << judged << " builders which learn a long word not one goes on without waiting longer after six changes");
    if (judged >= 10) d.nontrivial();
}
