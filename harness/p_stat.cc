// C04 usage statistics, C05 initial frequencies: the statistical dictionary against a model of plain counters.
#include "gen.h"
#include "int_dict_p.h"
#include "stat_dict_p.h"

namespace {

Seqs snapshot(const StatDictImpl& dict) {
    Seqs v;
    for (int i = 0; i < dict.size(); i++) v.push_back(dict.get(i));
    return v;
}

IntSeq gen_text(D& d, const Seqs& entries, const IntSeq& syms, int maxparts) {
    IntSeq s;
    int parts = d.size(maxparts);
    for (int i = 0; i < parts; i++) {
        if (!entries.empty() && d.chance(2, 3)) {
            const IntSeq& e = d.pick(entries);
            s.insert(s.end(), e.begin(), e.end());
        } else if (!syms.empty()) {
            s.push_back(d.pick(syms));
        }
    }
    return s;
}

}  // namespace

PROPERTY(C04, accounting, 75000, 1500000) {
    IntSeq all = gen_symbols(d, 1 + d.size(10)), syms = all;
    int known = d.range(1, (int) all.size());
    syms.resize(known);
    Seqs entries;
    double min_prob = 0.002;
    std::unique_ptr<StatDictImpl> dict;
    if (d.chance(1, 6)) {
        min_prob = d.chance(1, 2) ? 0.002 : (1 + d.size(1000)) / 2000.0;
        dict.reset(new StatDictImpl(min_prob));
        d.label("starts empty");
    } else {
        entries = gen_entries(d, syms, 30, 6);
        complete(entries, syms);
        shuffle(d, entries);
        min_prob = d.chance(1, 3) ? 0.002 : (1 + d.size(1000)) / 2000.0;
        if (d.chance(1, 2)) {
            IntSeq init;
            for (size_t i = 0; i < entries.size(); i++) init.push_back(d.size(1000));
            dict.reset(new StatDictImpl(entries, min_prob, &init));
            d.label("initial frequencies");
        } else {
            dict.reset(new StatDictImpl(entries, min_prob));
        }
        std::sort(entries.begin(), entries.end());
    }
    NOTE("entries " << show(entries) << " min probability " << min_prob);
    std::vector<double> count(entries.size(), 0);
    double power = 0, chars = 0;
    bool used_vgram = false, updated = false;
    int ops = 1 + d.size(20);
    for (int op = 0; op < ops; op++) {
        int kind = d.weighted({5, 2, 1});
        if (kind == 0) {
            IntSeq s = gen_text(d, entries, d.chance(1, 3) ? all : syms, 20), out;
            // the segments are appended to what the caller has already, which is not counted again
            IntSeq before;
            if (!entries.empty() && d.chance(1, 4)) {
                for (int i = 1 + d.size(4); i > 0; i--) before.push_back((int) d.below((uint32_t) entries.size()));
                d.label("output not empty");
            }
            out = before;
            NOTE("parse " << show(s) << (before.empty() ? "" : " into " + show(before)));
            int ret = dict->parse(s, &out);
            REQUIRE(ret == (int) out.size(), "parse returned " << ret << " for " << out.size() << " indexes");
            REQUIRE(out.size() >= before.size() && std::equal(before.begin(), before.end(), out.begin()), "the output changed from " << show(before) << " to " << show(out));
            out.erase(out.begin(), out.begin() + before.size());
            Seqs after = snapshot(*dict);
            for (size_t i = 0; i < entries.size(); i++) REQUIRE(i < after.size() && after[i] == entries[i], "entry " << i << " changed");
            entries = after;
            count.resize(entries.size(), 0);
            for (int id : out) {
                REQUIRE(id >= 0 && id < (int) entries.size(), "index " << id << " of " << entries.size());
                count[id]++;
                used_vgram |= entries[id].size() > 1;
            }
            REQUIRE(concat(entries, out) == s, "parse of " << show(s) << " spells " << show(concat(entries, out)));
            power += out.size();
            chars += s.size();
        } else if (kind == 1 && !entries.empty()) {
            int id = (int) d.below((uint32_t) entries.size()), by = d.chance(1, 8) ? 1 + (int) d.below((uint32_t) (2000000000 - (int) count[id])) : d.size(100000);
            if (count[id] + by > 2000000000) continue;
            NOTE("count " << id << " by " << by);
            dict->update_symbol(id, by);
            count[id] += by;
            power += by;
            updated = true;
        } else if (!entries.empty()) {
            IntSeq q = d.pick(entries);
            for (int i = d.size(3); i > 0; i--) q.push_back(d.pick(syms));
            std::unordered_set<int> ex;
            bool use = d.chance(1, 2);
            if (use) for (size_t i = 0; i < entries.size(); i++) if (d.chance(1, 3)) ex.insert((int) i);
            int want = ref_search(entries, q, 0, use ? &ex : nullptr);
            int got = use ? dict->search(q, &ex) : dict->search(q);
            REQUIRE(got == want, "search of " << show(q) << " finds " << got << ", not " << want);
        }
        REQUIRE(dict->size() == (int) entries.size() && dict->alphabet() == entries, "entries are " << show(dict->alphabet()) << " instead of " << show(entries));
        for (size_t i = 0; i < entries.size(); i++)
            REQUIRE(dict->freq((int) i) == (int) count[i], "frequency of " << show(entries[i]) << " is " << dict->freq((int) i) << " after " << count[i] << " uses");
        double want = ref_code_length(count, chars), got = dict->code_length_per_char();
        REQUIRE(near(got, want, 1e-7), "code length per symbol is " << got << ", the counts give " << want);
        double p = (1 + d.below(999)) / 1000.0, need = -std::log(p) / min_prob;
        if (!near(power, need, 1e-9))
            REQUIRE(dict->enough(p) == (power > need), "enough(" << p << ") is " << dict->enough(p) << " after " << power << " uses; the least probability " << min_prob << " needs more than " << need);
        if (power > need) d.label("enough"); else d.label("not enough");
    }
    if (used_vgram && (updated || ops > 2)) d.nontrivial();
}

// many entries and long sequences
PROPERTY(C04, big, 400, 8000) {
    IntSeq all = gen_symbols(d, d.range(1, 400)), syms(all.begin(), all.begin() + d.range(1, (int) all.size()));
    Seqs entries = gen_big_entries(d, syms, d.range(4, 700), 100);
    complete(entries, syms);
    StatDictImpl dict(entries, 0.002);
    std::sort(entries.begin(), entries.end());
    NOTE("entries " << show(entries));
    std::vector<double> count(entries.size(), 0);
    double power = 0, chars = 0;
    TextSource t = gen_source(d, all);
    for (int op = 1 + d.size(6); op > 0; op--) {
        if (d.chance(1, 4)) {
            for (size_t i = 0; i < entries.size(); i++) {
                int by = (int) t.next(1000);
                dict.update_symbol((int) i, by);
                count[i] += by;
                power += by;
            }
        } else {
            IntSeq s, out;
            for (int len = d.size(3000); (int) s.size() < len;) {
                IntSeq part = d.chance(1, 2) ? d.pick(entries) : t.seq(1 + d.size(100));
                s.insert(s.end(), part.begin(), part.end());
            }
            NOTE("parse " << show(s));
            dict.parse(s, &out);
            Seqs after = snapshot(dict);
            REQUIRE(after.size() >= entries.size() && std::equal(entries.begin(), entries.end(), after.begin()), "the entries changed");
            entries = after;
            count.resize(entries.size(), 0);
            for (int id : out) {
                REQUIRE(id >= 0 && id < (int) entries.size(), "index " << id << " of " << entries.size());
                count[id]++;
            }
            REQUIRE(concat(entries, out) == s, "parse of " << s.size() << " symbols does not spell them");
            power += out.size();
            chars += s.size();
            if (s.size() > 500) d.nontrivial();
        }
        for (size_t i = 0; i < entries.size(); i++)
            REQUIRE(dict.freq((int) i) == (int) count[i], "frequency of " << show(entries[i]) << " is " << dict.freq((int) i) << " after " << count[i] << " uses");
        double want = ref_code_length(count, chars), got = dict.code_length_per_char();
        REQUIRE(near(got, want, 1e-7), "code length per symbol is " << got << ", the counts give " << want);
        double p = (1 + d.below(999)) / 1000.0, need = -std::log(p) / 0.002;
        if (!near(power, need, 1e-9)) REQUIRE(dict.enough(p) == (power > need), "enough(" << p << ") is " << dict.enough(p) << " after " << power << " uses");
    }
}

// The dictionary segments by the frequencies it was given and the uses it counted, whatever order they were given in.
PROPERTY(C05, initial_frequencies, 32000, 640000) {
    IntSeq syms = gen_symbols(d, 1 + d.size(8));
    Seqs entries = gen_entries(d, syms, 30, 6);
    complete(entries, syms);
    std::map<IntSeq, double> weight;
    for (auto& e : entries) weight[e] = d.chance(1, 4) ? 0 : d.chance(1, 6) ? d.size(3000000) : d.range(0, 60);
    Seqs a = entries, b = entries;
    shuffle(d, a);
    shuffle(d, b);
    IntSeq fa, fb;
    for (auto& e : a) fa.push_back((int) weight[e]);
    for (auto& e : b) fb.push_back((int) weight[e]);
    StatDictImpl x(a, 0.002, &fa), y(b, 0.002, &fb);
    NOTE("entries " << show(a) << " frequencies " << show(fa));
    bool matters = false;
    double total = 0;
    for (auto& w : weight) total += w.second;
    for (int op = 1 + d.size(8); op > 0; op--) {
        IntSeq s = gen_text(d, entries, syms, 14), ox, oy;
        NOTE("parse " << show(s));
        x.parse(s, &ox);
        y.parse(s, &oy);
        Seqs sorted = snapshot(x);
        REQUIRE(snapshot(y) == sorted, "the entries depend on the order they are given in");
        REQUIRE(ox == oy, "the segmentation of " << show(s) << " depends on the order in which entries and frequencies are given: " << show(ox) << " and " << show(oy));
        IntSeq f;
        for (auto& e : sorted) f.push_back((int) weight[e]);
        double denom = total + sorted.size();
        for (int id : ox) REQUIRE(id >= 0 && id < (int) sorted.size(), "index " << id);
        REQUIRE(concat(sorted, ox) == s, "the segmentation of " << show(s) << " spells " << show(concat(sorted, ox)));
        double best = ref_best_score(sorted, s, f, denom), got = ref_score(ox, f, denom);
        REQUIRE(got >= best - 1e-7 * (1 + std::fabs(best)), "the segmentation of " << show(s) << " is " << show(ox) << " with log probability " << got << "; by the frequencies " << show(f) << " of " << show(sorted) << " the best is " << best);
        IntSeq none;
        if (ref_score(ox, none, denom) < ref_best_score(sorted, s, none, denom) - 1e-6) matters = true;
        for (int id : ox) weight[sorted[id]]++;
        total += ox.size();
    }
    if (matters) {
        d.label("frequencies decide");
        d.nontrivial();
    }
}

PROPERTY(C05, regression, 1, 1) {
    // frequencies stayed at their positions while the entries were sorted
    Seqs e = {{1, 1, 0}, {0}, {1}, {1, 0}};
    IntSeq f = {1000, 1, 1, 1}, out;
    StatDictImpl x(e, 0.002, &f);
    x.parse(IntSeq{1, 1, 0}, &out);
    REQUIRE(out.size() == 1, "the most frequent entry is not used: " << show(out));
}
