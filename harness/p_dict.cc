// C01 lossless segmentation, C02 search structure, C03 best weighted segmentation: dictionaries of sequences.
#include "gen.h"
#include "int_dict_p.h"
#include <sstream>

namespace {

struct DictCase {
    IntSeq syms;          // symbols of the entries
    IntSeq strange;       // symbols which no entry has
    Seqs entries;
    std::unique_ptr<IntDictImpl> dict;
};

DictCase gen_dict(D& d, bool complete_base) {
    DictCase c;
    int k = 1 + d.size(12);
    int extra = d.size(4);
    IntSeq all = gen_symbols(d, k + extra);
    if (!all.empty() && d.chance(1, 3)) std::reverse(all.begin(), all.end());  // unknown symbols below the known ones
    c.syms.assign(all.begin(), all.begin() + k);
    c.strange.assign(all.begin() + k, all.end());
    int how = d.weighted({7, 1, 1, 1});
    if (how == 0) {
        c.entries = gen_entries(d, c.syms, 40, 6);
        if (complete_base) complete(c.entries, c.syms);
        else if (d.chance(1, 2)) complete(c.entries);
        shuffle(d, c.entries);
        c.dict.reset(new IntDictImpl(c.entries));
    } else if (how == 1) {
        for (int s : c.syms) c.entries.push_back(IntSeq(1, s));
        c.dict.reset(new IntDictImpl(c.syms));
        d.label("built from symbols");
    } else if (how == 2) {
        c.entries = gen_entries(d, c.syms, 20, 6);
        if (complete_base) complete(c.entries, c.syms);
        IntDictImpl first(c.entries);
        c.dict.reset(new IntDictImpl(first));
        d.label("built as a copy");
    } else if (complete_base) {
        for (int s : c.syms) c.entries.push_back(IntSeq(1, s));
        c.dict.reset(new IntDictImpl(c.entries));
    } else {
        c.dict.reset(new IntDictImpl());
        d.label("built empty");
    }
    std::sort(c.entries.begin(), c.entries.end());
    NOTE("entries " << show(c.entries));
    return c;
}

Seqs snapshot(const IntDict& dict) {
    Seqs v;
    for (int i = 0; i < dict.size(); i++) v.push_back(dict.get(i));
    return v;
}

IntSeq gen_query(D& d, const DictCase& c, int maxlen) {
    IntSeq pool = c.syms;
    pool.insert(pool.end(), c.strange.begin(), c.strange.end());
    IntSeq s;
    int parts = d.size(8);
    while (parts-- > 0 && (int) s.size() < maxlen) {
        int kind = d.weighted({5, 3, 1});
        if (kind == 0 && !c.entries.empty()) {
            const IntSeq& e = d.pick(c.entries);
            s.insert(s.end(), e.begin(), e.end());
        } else if (kind == 1) {
            IntSeq t = gen_seq(d, c.syms, 12);
            s.insert(s.end(), t.begin(), t.end());
        } else {
            s.push_back(d.pick(pool));
        }
    }
    if ((int) s.size() > maxlen) s.resize(maxlen);
    return s;
}

IntSeq gen_freqs(D& d, int n) {
    IntSeq f;
    int style = d.weighted({8, 12, 8, 4, 1});
    int len = d.chance(1, 4) ? d.range(0, n + 3) : n;
    for (int i = 0; i < len; i++)
        f.push_back(style == 0 ? 0 : style == 1 ? d.range(0, 5) : style == 2 ? d.size(1000000) : style == 3 ? d.range(0, 20000000) : INT_MAX - d.size(1000000000));
    if (style == 4) d.label("frequencies up to the largest");
    if (len < n) d.label("fewer frequencies than entries");
    if (len > n) d.label("more frequencies than entries");
    return f;
}

// what must be true of every dictionary after every operation
void check_growth(const Seqs& before, const Seqs& after, const IntSeq& seq) {
    REQUIRE(after.size() >= before.size(), "the dictionary shrank from " << before.size() << " to " << after.size());
    std::set<IntSeq> known;
    for (size_t i = 0; i < before.size(); i++) {
        REQUIRE(after[i] == before[i], "entry " << i << " changed from " << show(before[i]) << " to " << show(after[i]));
        known.insert(before[i]);
    }
    for (size_t i = before.size(); i < after.size(); i++) {
        REQUIRE(after[i].size() == 1, "new entry " << show(after[i]) << " is not one symbol");
        REQUIRE(std::find(seq.begin(), seq.end(), after[i][0]) != seq.end(), "new entry " << show(after[i]) << " is not from the sequence");
        REQUIRE(known.insert(after[i]).second, "entry " << show(after[i]) << " is there twice");
    }
}

}  // namespace

PROPERTY(C01, dictionary, 240000, 4800000) {
    DictCase c = gen_dict(d, false);
    IntDict& dict = *c.dict;
    int ops = 1 + d.size(8);
    bool multi = false, grown = false;
    for (int op = 0; op < ops; op++) {
        IntSeq s = gen_query(d, c, 60);
        Seqs before = snapshot(dict);
        IntSeq out;
        bool keep = d.chance(1, 6);
        if (keep) { out.push_back(7); out.push_back(-3); d.label("output not empty"); }
        size_t from = out.size();
        int kind = d.weighted({3, 4, 1});
        int ret;
        if (kind == 0) {
            NOTE("greedy " << show(s));
            ret = dict.parse(s, &out, nullptr);
        } else if (kind == 1) {
            IntSeq f = gen_freqs(d, dict.size());
            double total = std::accumulate(f.begin(), f.end(), 0.0);
            if (d.chance(1, 5)) total += d.range(0, 1000);
            NOTE("weighted " << show(s) << " freqs " << show(f) << " total " << total);
            ret = dict.parse(s, f, total, &out);
        } else {
            // with some entries left out nothing is registered: what no other entry starts is skipped
            std::unordered_set<int> ex;
            for (int i = 0; i < dict.size(); i++) if (d.chance(1, 3)) ex.insert(i);
            NOTE("greedy with exclusions " << show(s));
            ret = dict.parse(s, &out, &ex);
            IntSeq want(out.begin(), out.begin() + from);
            for (size_t at = 0; at < s.size();) {
                int i = ref_search(before, s, at, &ex);
                if (i >= 0) { want.push_back(i); at += before[i].size(); } else at++;
            }
            REQUIRE(out == want, "greedy parse with exclusions of " << show(s) << " is " << show(out) << ", not " << show(want));
            REQUIRE(snapshot(dict) == before, "a parse with exclusions changed the dictionary");
            d.label("parse with exclusions");
            continue;
        }
        Seqs after = snapshot(dict);
        check_growth(before, after, s);
        REQUIRE(ret == (int) out.size(), "parse returned " << ret << " for " << out.size() << " indexes");
        REQUIRE(!keep || (out.size() >= 2 && out[0] == 7 && out[1] == -3), "parse changed what the output held");
        for (size_t i = from; i < out.size(); i++)
            REQUIRE(out[i] >= 0 && out[i] < (int) after.size(), "index " << out[i] << " of " << after.size() << " entries");
        IntSeq back = concat(after, out, from);
        REQUIRE(back == s, (kind == 0 ? "greedy" : "weighted") << " parse of " << show(s) << " spells " << show(back));
        if (kind == 0) {  // greedy: always the longest entry
            size_t at = 0;
            for (size_t i = from; i < out.size(); i++) {
                int best = ref_search(after, s, at);
                REQUIRE(after[best].size() == after[out[i]].size(), "greedy parse of " << show(s) << " takes " << show(after[out[i]]) << " at " << at << " though " << show(after[best]) << " is longer");
                at += after[out[i]].size();
            }
        }
        for (size_t i = from; i < out.size(); i++) multi |= after[out[i]].size() > 1;
        if (after.size() > before.size()) { grown = true; d.label("symbols registered"); }
    }
    if (multi) d.label("segments of several symbols");
    if (multi || grown) d.nontrivial();
}

// long sequences: the offsets of a segmentation are not limited to small numbers
PROPERTY(C01, long_sequences, 640, 12800) {
    DictCase c;
    if (d.chance(1, 2)) {
        c = gen_dict(d, false);
    } else {
        c.syms = gen_symbols(d, d.range(1, 300));
        IntSeq first(c.syms.begin(), c.syms.begin() + d.range(1, (int) c.syms.size()));
        c.entries = gen_big_entries(d, first, 600, 300);
        if (d.chance(1, 2)) complete(c.entries);
        c.dict.reset(new IntDictImpl(c.entries));
        NOTE("entries " << show(c.entries));
        d.label("many or long entries");
    }
    TextSource t = gen_source(d, c.syms);
    IntSeq s;
    for (int len = d.range(200, 3000); (int) s.size() < len;) {
        IntSeq part = t.seq(d.chance(1, 2) ? 20 : 200);
        if (!c.entries.empty() && d.chance(1, 2)) part = d.pick(c.entries);
        s.insert(s.end(), part.begin(), part.end());
    }
    Seqs before = snapshot(*c.dict);
    IntSeq out;
    bool weighted = d.chance(1, 2);
    NOTE((weighted ? "weighted " : "greedy ") << show(s));
    if (weighted) {
        IntSeq f = gen_freqs(d, c.dict->size());
        c.dict->parse(s, f, std::accumulate(f.begin(), f.end(), 0.0), &out);
    } else {
        c.dict->parse(s, &out, nullptr);
    }
    Seqs after = snapshot(*c.dict);
    check_growth(before, after, s);
    for (int id : out) REQUIRE(id >= 0 && id < (int) after.size(), "index " << id << " of " << after.size() << " entries");
    REQUIRE(concat(after, out) == s, "parse of " << s.size() << " symbols does not spell them");
    d.nontrivial();
}

PROPERTY(C02, search, 360000, 7200000) {
    DictCase c = gen_dict(d, false);
    Seqs entries = c.entries;
    IntDict* dict = c.dict.get();
    REQUIRE(dict->size() == (int) entries.size(), "size is " << dict->size() << " for " << entries.size() << " entries");
    REQUIRE(snapshot(*dict) == entries, "the entries are not the given ones in order: " << show(snapshot(*dict)) << " for " << show(entries));
    std::unique_ptr<IntDictImpl> copy;
    Seqs copy_entries;
    std::unordered_set<int> nothing;
    int ops = 1 + d.size(10);
    bool found = false;
    for (int op = 0; op < ops; op++) {
        IntSeq q;
        int kind = entries.empty() ? 2 : d.weighted({3, 3, 2});
        if (kind == 0) {
            q = d.pick(entries);
            int k = d.size(4);
            IntSeq t = gen_seq(d, c.syms, k);
            q.insert(q.end(), t.begin(), t.end());
        } else if (kind == 1) {
            q = d.pick(entries);
            q.resize(1 + d.below((uint32_t) q.size()));
            if (d.chance(1, 2)) q.back() = d.pick(c.syms);
        } else {
            q = gen_query(d, c, 10);
        }
        if (q.empty()) {
            NOTE("search nothing");
            REQUIRE(dict->search(q, d.chance(1, 2) ? &nothing : nullptr) == -1, "an entry starts the empty sequence");
            REQUIRE(dict->size() == (int) entries.size(), "looking up the empty sequence changed the dictionary");
            d.label("empty sequence");
            continue;
        }
        if (!c.strange.empty() && d.chance(1, 4)) q[d.below((uint32_t) q.size())] = d.pick(c.strange);
        std::unordered_set<int> ex;
        bool use_ex = d.chance(1, 3);
        if (use_ex) for (size_t i = 0; i < entries.size(); i++) if (d.chance(1, 3)) ex.insert((int) i);
        NOTE("search " << show(q) << (use_ex ? " with exclusions" : ""));
        int want = ref_search(entries, q, 0, use_ex ? &ex : nullptr);
        int got = dict->search(q, use_ex ? &ex : nullptr);
        if (want < 0 && !use_ex) {
            want = (int) entries.size();
            entries.push_back(IntSeq(1, q[0]));
            d.label("symbol registered");
        }
        if (want >= 0 && entries[want].size() > 1) found = true;
        if (use_ex) d.label("search with exclusions");
        REQUIRE(got == want, "search of " << show(q) << " finds " << got << ", the longest entry which starts it is " << want << " in " << show(entries));
        if (d.chance(1, 8)) {
            copy.reset(new IntDictImpl(*static_cast<IntDictImpl*>(dict)));
            copy_entries = entries;
        }
        REQUIRE(snapshot(*dict) == entries && dict->alphabet() == entries && dict->size() == (int) entries.size(),
                "the dictionary is " << show(dict->alphabet()) << ", not " << show(entries));
        for (int i = 0; i < dict->size(); i++) {
            int best = -1;
            for (int j = 0; j < dict->size(); j++)
                if (entries[j].size() < entries[i].size() && is_prefix(entries[j], entries[i]) &&
                    (best < 0 || entries[j].size() > entries[best].size()))
                    best = j;
            REQUIRE(dict->parent(i) == best, "parent of " << show(entries[i]) << " is " << dict->parent(i) << ", its longest proper prefix is entry " << best << " of " << show(entries));
        }
    }
    if (copy) {
        REQUIRE(copy->alphabet() == copy_entries, "a copy changed with its original");
        for (size_t i = 0; i < copy_entries.size(); i++)
            REQUIRE(copy->search(copy_entries[i], nullptr) == (int) i, "a copy does not find its entry " << show(copy_entries[i]));
        int before = dict->size();
        copy->search(IntSeq(1, 123456789), nullptr);
        REQUIRE(dict->size() == before, "an original changed with its copy");
        d.label("copied");
    }
    if (found) d.nontrivial();
}

// a dictionary of many entries, and many symbols which are registered one after another
PROPERTY(C02, many, 3000, 60000) {
    IntSeq syms = gen_symbols(d, d.range(30, 500));
    if (d.chance(1, 2)) std::reverse(syms.begin(), syms.end());
    int known = d.range(1, (int) syms.size());
    Seqs entries;
    if (d.chance(3, 4)) entries = gen_big_entries(d, IntSeq(syms.begin(), syms.begin() + known), d.range(4, 600), 200);
    if (d.chance(1, 2)) complete(entries);
    IntDictImpl dict(entries);
    std::sort(entries.begin(), entries.end());
    NOTE("entries " << show(entries));
    REQUIRE(dict.alphabet() == entries, "the entries are not the given ones in order");
    std::map<IntSeq, int> at;
    size_t longest = 1, start = entries.size();
    for (size_t i = 0; i < entries.size(); i++) { at[entries[i]] = (int) i; longest = std::max(longest, entries[i].size()); }
    uint32_t state = d.below(1u << 30);
    auto next = [&](uint32_t k) {
        state = state * 1664525u + 1013904223u;
        return (uint32_t) (((uint64_t) (state >> 8) * k) >> 24);
    };
    for (int op = d.range(50, 1500); op > 0; op--) {
        IntSeq q;
        if (start && next(3)) {
            q = entries[next((uint32_t) entries.size())];
            if (!next(3)) q.resize(1 + next((uint32_t) q.size()));
            q.push_back(syms[next((uint32_t) syms.size())]);
        } else {
            q.push_back(syms[next((uint32_t) syms.size())]);
            if (next(2)) q.push_back(syms[next((uint32_t) syms.size())]);
        }
        int want = -1;
        for (size_t n = std::min(longest, q.size()); n > 0 && want < 0; n--) {
            auto found = at.find(IntSeq(q.begin(), q.begin() + n));
            if (found != at.end()) want = found->second;
        }
        if (want < 0) {
            want = (int) entries.size();
            entries.push_back(IntSeq(1, q[0]));
            at[entries.back()] = want;
        }
        int got = dict.search(q, nullptr);
        REQUIRE(got == want, "search of " << show(q) << " finds " << got << ", the longest entry which starts it is " << want << " of " << entries.size());
        REQUIRE(dict.size() == (int) entries.size(), "the dictionary has " << dict.size() << " entries instead of " << entries.size());
    }
    REQUIRE(dict.alphabet() == entries, "the entries of the dictionary changed");
    for (size_t i = 0; i < entries.size(); i++) {
        int best = -1;
        for (size_t n = entries[i].size() - 1; n > 0 && best < 0; n--) {
            auto found = at.find(IntSeq(entries[i].begin(), entries[i].begin() + n));
            if (found != at.end()) best = found->second;
        }
        REQUIRE(dict.parent((int) i) == best, "parent of " << show(entries[i]) << " is " << dict.parent((int) i) << ", its longest proper prefix is entry " << best);
    }
    IntDictImpl copy(dict);
    for (size_t i = 0; i < entries.size(); i++) REQUIRE(copy.search(entries[i], nullptr) == (int) i, "a copy does not find its entry " << show(entries[i]));
    if (entries.size() > start + 10) d.label("more than 10 symbols registered");
    if (longest > 1) d.nontrivial();
}

// the order in which entries are given means nothing
PROPERTY(C02, order, 60000, 1200000) {
    DictCase c = gen_dict(d, false);
    if (c.dict->size() != (int) c.entries.size()) return;
    Seqs a = c.entries, b = c.entries;
    shuffle(d, a);
    shuffle(d, b);
    IntDictImpl x(a), y(b);
    NOTE("orders " << show(a) << " and " << show(b));
    for (int i = 0; i < 6; i++) {
        IntSeq q = gen_query(d, c, 20);
        if (q.empty()) continue;
        int px = x.search(q, nullptr), py = y.search(q, nullptr);
        REQUIRE(px == py && x.get(px) == y.get(py), "search of " << show(q) << " depends on the order of the entries");
        IntSeq f = gen_freqs(d, x.size()), ox, oy;
        double total = std::accumulate(f.begin(), f.end(), 0.0);
        x.parse(q, f, total, &ox);
        y.parse(q, f, total, &oy);
        REQUIRE(ox == oy, "parse of " << show(q) << " depends on the order of the entries: " << show(ox) << " and " << show(oy));
    }
    for (int i = 0; i < x.size(); i++) REQUIRE(x.parent(i) == y.parent(i), "parents depend on the order of the entries");
    if (c.entries.size() > 2) d.nontrivial();
}

PROPERTY(C03, optimal, 360000, 7200000) {
    DictCase c = gen_dict(d, true);
    // some symbols arrive later: registering must not make later segmentations worse
    IntSeq known = c.syms;
    for (int s : c.strange)
        if (d.chance(1, 2)) {
            c.dict->search(IntSeq(1, s), nullptr);
            known.push_back(s);
            d.label("symbols registered before");
        }
    Seqs entries = snapshot(*c.dict);
    bool choice = false;
    for (int op = 1 + d.size(4); op > 0; op--) {
        IntSeq s;
        int parts = d.size(10);
        for (int i = 0; i < parts && s.size() < 70; i++) {
            if (d.chance(2, 3)) {
                const IntSeq& e = d.pick(entries);
                s.insert(s.end(), e.begin(), e.end());
            } else {
                s.push_back(d.pick(known));
            }
        }
        IntSeq f = gen_freqs(d, (int) entries.size());
        double total = std::accumulate(f.begin(), f.end(), 0.0);
        if (d.chance(1, 6)) total += d.range(0, 100000);
        NOTE("parse " << show(s) << " freqs " << show(f) << " total " << total);
        IntSeq out;
        c.dict->parse(s, f, total, &out);
        REQUIRE(c.dict->size() == (int) entries.size(), "known symbols were registered again");
        for (int id : out) REQUIRE(id >= 0 && id < (int) entries.size(), "index " << id);
        REQUIRE(concat(entries, out) == s, "parse of " << show(s) << " spells " << show(concat(entries, out)));
        double denom = total + entries.size();
        double best = ref_best_score(entries, s, f, denom), got = ref_score(out, f, denom);
        REQUIRE(got >= best - 1e-7 * (1 + std::fabs(best)), "log probability of the segmentation of " << show(s) << " is " << got << ", the best is " << best << "; " << show(out) << " freqs " << show(f));
        IntSeq greedy;
        c.dict->parse(s, &greedy, nullptr);
        if (ref_score(greedy, f, denom) < best - 1e-6) choice = true;
    }
    if (choice) {
        d.label("greedy is not the best");
        d.nontrivial();
    }
}

// symbols which no entry is made of alone are registered, the entries which begin with them are there already
PROPERTY(C03, registered, 2500, 50000) {
    bool many = d.chance(1, 5);
    IntSeq syms = gen_symbols(d, 1 + d.size(many && d.chance(1, 2) ? 40 : 6));
    Seqs entries = many ? gen_big_entries(d, syms, d.range(4, 400), d.range(3, 30)) : gen_entries(d, syms, 30, 5);
    if (d.chance(1, 2)) {       // none of them alone
        Seqs longer;
        for (auto& e : entries) if (e.size() > 1) longer.push_back(e);
        entries = longer;
    }
    NOTE("entries " << show(entries));
    IntDictImpl dict(entries);
    IntSeq order = syms;
    for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[d.below((uint32_t) i)]);
    for (int s : order) dict.search(IntSeq(1, s), nullptr);
    Seqs all = snapshot(dict);
    for (int op = 1 + d.size(4); op > 0; op--) {
        IntSeq s, out;
        for (int n = d.size(many ? 60 : 12); n > 0 && s.size() < 400; n--) {
            const IntSeq& e = d.pick(all);
            s.insert(s.end(), e.begin(), e.end());
        }
        IntSeq f = gen_freqs(d, (int) all.size());
        if (d.chance(1, 2)) {       // short ones
            f.assign(all.size(), 0);
            size_t shorter = d.range(2, 4);
            for (size_t i = 0; i < all.size(); i++) if (all[i].size() < shorter) f[i] = 1000;
        }
        double total = std::accumulate(f.begin(), f.end(), 0.0), denom = total + all.size();
        NOTE("parse " << show(s) << " freqs " << show(f));
        dict.parse(s, f, total, &out);
        REQUIRE(snapshot(dict) == all, "known symbols were registered again");
        for (int id : out) REQUIRE(id >= 0 && id < (int) all.size(), "index " << id);
        REQUIRE(concat(all, out) == s, "parse of " << show(s) << " spells " << show(concat(all, out)));
        double best = ref_best_score(all, s, f, denom), got = ref_score(out, f, denom);
        REQUIRE(got >= best - 1e-7 * (1 + std::fabs(best)), "log probability of the segmentation of " << show(s) << " is " << got << ", the best is " << best << "; " << show(out) << " freqs " << show(f));
        bool first = false;
        for (int id : out) first |= id >= (int) entries.size();
        if (first && out.size() > 1) d.nontrivial();
    }
}

// many and long entries, long sequences
static void segment_long(D& d, int longest) {
    IntSeq syms = gen_symbols(d, d.range(1, 60));
    Seqs entries = gen_big_entries(d, syms, d.range(4, longest > 2500 ? 200 : 500), 250);
    complete(entries, syms);
    IntDictImpl dict(entries);
    std::sort(entries.begin(), entries.end());
    IntSeq f = gen_freqs(d, (int) entries.size());
    double total = std::accumulate(f.begin(), f.end(), 0.0), denom = total + entries.size();
    TextSource t = gen_source(d, syms);
    IntSeq s, out;
    for (int len = d.range(longest > 2500 ? 2500 : 1, longest); (int) s.size() < len;) {
        IntSeq part = d.chance(2, 3) ? d.pick(entries) : t.seq(1 + d.size(100));
        s.insert(s.end(), part.begin(), part.end());
    }
    NOTE("parse " << show(s) << " by " << show(entries) << " freqs " << show(f));
    dict.parse(s, f, total, &out);
    for (int id : out) REQUIRE(id >= 0 && id < (int) entries.size(), "index " << id);
    REQUIRE(concat(entries, out) == s, "parse of " << s.size() << " symbols does not spell them");
    double best = ref_best_score(entries, s, f, denom), got = ref_score(out, f, denom);
    REQUIRE(got >= best - 1e-7 * (1 + std::fabs(best)), "log probability of the segmentation of " << s.size() << " symbols is " << got << ", the best is " << best);
    IntSeq greedy;
    dict.parse(s, &greedy, nullptr);
    if (ref_score(greedy, f, denom) < best - 1e-6) d.nontrivial();
}
PROPERTY(C03, big, 640, 12800) { segment_long(d, 2500); }
PROPERTY(C03, longest, 48, 960) { segment_long(d, 20000); }

// regression cases of repaired defects
PROPERTY(C01, regression, 1, 1) {
    {   // symbols registered in decreasing order were not found again
        IntDictImpl dict;
        IntSeq a, b;
        dict.parse(IntSeq{5, 3, 4, 1, 2, 3, 5, 4}, &a, nullptr);
        dict.parse(IntSeq{1, 2, 3, 4, 5}, &b, nullptr);
        REQUIRE(dict.size() == 5, "5 symbols make " << dict.size() << " entries");
        REQUIRE(concat(dict.alphabet(), b) == (IntSeq{1, 2, 3, 4, 5}), "lossless");
    }
    {   // a symbol registered between sorted entries
        IntDictImpl dict(Seqs{{1}, {3}, {3, 3}, {7}});
        IntSeq out;
        dict.parse(IntSeq{2, 3, 3, 5, 2, 7, 5}, &out, nullptr);
        REQUIRE(dict.size() == 6, "6 entries, not " << dict.size());
        REQUIRE(concat(dict.alphabet(), out) == (IntSeq{2, 3, 3, 5, 2, 7, 5}), "lossless");
    }
}
