// The same guarantees at sizes which ordinary cases never have: more than 65536 symbols, entries, tokens or uses.
#include "model_gen.h"
#include "list_dict.h"
#include "loader.h"
#include "saver.h"
#include "int_dict_p.h"
#include "stat_dict_p.h"
#include "int_vgram_builder_p.h"
#include <cstdio>
#include <fstream>

using namespace vgram_core;

namespace {

// k different symbols, in an order that is not their order
struct Many {
    uint32_t a, b;
    int k;
    int operator()(int i) const { return (int) ((uint32_t) i * a + b); }
};

Many gen_many(D& d) {
    Many m;
    m.k = d.range(65500, 70500);
    int kind = (int) d.below(3);
    m.a = kind == 0 ? 1 : kind == 1 ? 0xffffffffu : d.below(1u << 30) * 2 + 1;
    m.b = kind == 0 ? 0 : d.below(1u << 31);
    NOTE(m.k << " symbols " << m(0) << " " << m(1) << " " << m(2) << " ...");
    if (m.k > 65536) d.nontrivial();
    return m;
}

IntSeq all_of(const Many& m) {
    IntSeq s;
    for (int i = 0; i < m.k; i++) s.push_back(m(i));
    return s;
}

// indices which a narrow integer would confuse
int gen_index(D& d, int k) {
    int kind = d.weighted({2, 2, 1});
    if (kind == 0) return (int) d.below((uint32_t) k);
    if (kind == 1) return k - 1 - d.size(std::min(k - 1, 5000));
    static const int edges[] = {0, 1, 255, 256, 32767, 32768, 65499};
    return edges[d.below(7)];
}

std::string slurp(const std::string& p) {
    std::ifstream f(p, std::ios::binary);
    return std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
}

}  // namespace

// segmentation and lookup in a big dictionary
PROPERTY(C01, large, 16, 300) {
    Many m = gen_many(d);
    Seqs entries;
    for (int i = 0; i < m.k; i++) entries.push_back(IntSeq(1, m(i)));
    std::set<IntSeq> have(entries.begin(), entries.end());
    for (int i = 0; i < 300; i++) {
        IntSeq e;
        for (int n = 2 + (int) d.below(3); n > 0; n--) e.push_back(m(gen_index(d, m.k)));
        if (have.insert(e).second) entries.push_back(e);
    }
    shuffle(d, entries);
    IntDictImpl dict(entries);
    Seqs sorted(have.begin(), have.end());
    REQUIRE(dict.alphabet() == sorted, "the entries of the dictionary are not the sorted sequences it was made of");
    for (int round = 0; round < 20; round++) {
        IntSeq s, out, heavy, f;
        for (int n = d.size(30); n > 0; n--) {
            IntSeq e = entries[d.below((uint32_t) entries.size())];
            if (d.chance(1, 2)) s.insert(s.end(), e.begin(), e.end());
            else if (d.chance(1, 4)) s.push_back(m(m.k + (int) d.below(300)));      // not known yet
            else s.push_back(m(gen_index(d, m.k)));
        }
        int before = dict.size();
        dict.parse(s, &out, nullptr);
        size_t at = 0;
        for (int id : out) {
            REQUIRE(id >= 0 && id < dict.size(), "entry " << id << " of " << dict.size());
            const IntSeq& e = dict.get(id);
            REQUIRE(is_prefix(e, s, at), "entry " << show(e) << " is used for " << show(s) << " at " << at);
            for (size_t longer = std::min<size_t>(5, s.size() - at); longer > e.size(); longer--)
                REQUIRE(!have.count(IntSeq(s.begin() + at, s.begin() + at + longer)), "a longer entry starts " << show(s) << " at " << at << " than " << show(e));
            at += e.size();
        }
        REQUIRE(at == s.size(), "the segmentation of " << show(s) << " spells " << at << " symbols");
        for (int i = before; i < dict.size(); i++) REQUIRE(have.insert(dict.get(i)).second, "entry " << show(dict.get(i)) << " is there twice");
        f.assign(dict.size(), 1 + (int) d.below(3));
        dict.parse(s, f, f[0] * (double) f.size(), &heavy);
        REQUIRE(concat(dict.alphabet(), heavy) == s, "the weighted segmentation of " << show(s) << " spells " << show(concat(dict.alphabet(), heavy)));
        for (size_t i = 0; i < s.size(); i++) {
            int id = dict.search(IntSeq(1, s[i]), nullptr);
            REQUIRE(dict.get(id) == IntSeq(1, s[i]), "looking up " << s[i] << " finds " << show(dict.get(id)));
        }
    }
}

namespace {

// one sequence of more than 65536 symbols
IntSeq gen_one(D& d, const Seqs& entries, const IntSeq& syms) {
    IntSeq s;
    uint32_t state = d.below(1u << 30), r = 0;
    auto next = [&](uint32_t n) { r = state = state * 1664525u + 1013904223u; return (r >> 8) % n; };
    for (int len = d.range(65500, 72000); (int) s.size() < len;) {
        if (next(2)) s.push_back(syms[next((uint32_t) syms.size())]);
        else { const IntSeq& e = entries[next((uint32_t) entries.size())]; s.insert(s.end(), e.begin(), e.end()); }
    }
    NOTE("a sequence of " << s.size() << " symbols " << show(IntSeq(s.begin(), s.begin() + 20)) << " ...");
    return s;
}

}  // namespace

// segmentation of one very long sequence
PROPERTY(C01, slow_longest, 8, 160) {
    IntSeq syms = gen_symbols(d, d.range(2, 30));
    Seqs entries;
    std::set<IntSeq> have;
    for (int n = d.range(1, 60); n > 0; n--) {
        IntSeq e;
        for (int l = d.range(1, 6); l > 0; l--) e.push_back(d.pick(syms));
        if (have.insert(e).second) entries.push_back(e);
    }
    NOTE("entries " << show(entries));
    IntDictImpl dict(entries);
    IntSeq s = gen_one(d, entries, syms), out;
    bool greedy = d.chance(1, 2);
    if (greedy) dict.parse(s, &out, nullptr);
    else dict.parse(s, IntSeq(entries.size(), 5), 5. * (double) entries.size(), &out);
    for (int id : out) REQUIRE(id >= 0 && id < dict.size(), "entry " << id << " of " << dict.size());
    REQUIRE(concat(dict.alphabet(), out) == s, (greedy ? "the greedy" : "the weighted") << " segmentation of " << s.size() << " symbols does not spell them");
    for (int i = 0; i < dict.size(); i++) {
        have.erase(dict.get(i));
        if (dict.get(i).size() == 1) continue;
        REQUIRE(std::find(entries.begin(), entries.end(), dict.get(i)) != entries.end(), "entry " << show(dict.get(i)) << " is made up");
    }
    REQUIRE(have.empty(), "an entry is not there any more");
    if (s.size() > 65536) d.nontrivial();
}

// what is counted of one very long sequence
PROPERTY(C04, slow_longest, 8, 160) {
    IntSeq syms = gen_symbols(d, d.range(2, 30));
    Seqs entries;
    std::set<IntSeq> have;
    for (int n = d.range(1, 60); n > 0; n--) {
        IntSeq e;
        for (int l = d.range(1, 6); l > 0; l--) e.push_back(d.pick(syms));
        if (have.insert(e).second) entries.push_back(e);
    }
    for (int x : syms) if (have.insert(IntSeq(1, x)).second) entries.push_back(IntSeq(1, x));
    NOTE("entries " << show(entries));
    StatDictImpl dict(entries, 0.00001);
    IntSeq s = gen_one(d, entries, syms), out;
    dict.parse(s, &out);
    std::sort(entries.begin(), entries.end());
    REQUIRE(concat(entries, out) == s, "the segmentation of " << s.size() << " symbols does not spell them");
    std::vector<double> count(entries.size(), 0);
    for (int id : out) count[id]++;
    double sum = 0, power = (double) out.size();
    for (size_t i = 0; i < entries.size(); i++) {
        REQUIRE(dict.freq((int) i) == (int) count[i], "frequency of " << show(entries[i]) << " is " << dict.freq((int) i) << " after " << count[i] << " uses");
        if (count[i] > 0) sum -= count[i] * std::log(count[i]);
    }
    double want = (sum + power * std::log(power)) / (double) s.size(), got = dict.code_length_per_char();
    REQUIRE(near(got, want, 1e-7), "code length per symbol is " << got << ", the counts give " << want);
    for (int times : {1, 2}) {
        double p = std::exp(-power * 0.00001 * (times == 1 ? 0.999 : 1.001));
        REQUIRE(dict.enough(p) == (times == 1), "enough(" << p << ") is " << dict.enough(p) << " after " << power << " uses");
    }
    if (s.size() > 65536) d.nontrivial();
}

// learning in a big dictionary
PROPERTY(C06, large, 16, 300) {
    Many m = gen_many(d);
    int size = m.k + d.range(1, 60);
    IntSeq start = all_of(m);
    IntVGramBuilderImpl b(start, size, 0);
    Seqs data;
    Seqs words;
    for (int n = d.range(2, 8); n > 0; n--) {
        IntSeq w;
        for (int l = d.range(2, 4); l > 0; l--) w.push_back(m(gen_index(d, m.k)));
        words.push_back(w);
    }
    NOTE("size " << size << " words " << show(words));
    int left = d.range(1300, 4500);
    std::set<IntSeq> checked;
    while (left > 0) {
        for (int r = 0; r < 40; r++) {
            IntSeq q;
            for (int n = 1 + (int) d.below(10); n > 0; n--) { const IntSeq& w = d.pick(words); q.insert(q.end(), w.begin(), w.end()); }
            left -= (int) q.size();
            b.accept(q);
            data.push_back(q);
        }
        auto dict = b.result();
        int symbols = 0;
        IntSeq prev;
        for (int i = 0; i < dict->size(); i++) {
            const IntSeq& e = dict->get(i);
            REQUIRE(i == 0 || prev < e, "entry " << show(e) << " is there twice or out of order");
            prev = e;
            symbols += e.size() == 1;
            if (e.size() < 2 || !checked.insert(e).second) continue;
            bool found = false;
            for (size_t k = data.size(); k-- > 0 && !found;) found = contains(data[k], e);
            REQUIRE(found, "entry " << show(e) << " is in none of the sequences");
        }
        REQUIRE(symbols == m.k, symbols << " of " << m.k << " symbols are entries");
        REQUIRE(dict->size() <= size, dict->size() << " entries in a dictionary of size " << size);
    }
    if (checked.empty()) d.label("nothing learned");
}

// a symbol which is used more than 65536 times
static void count_many(D& d, int len) {
    int k = 1 + (int) d.below(5);
    auto c = std::make_shared<SeqCoder>();
    Seqs start;
    IntSeq freqs;
    for (int i = 0; i < k; i++) {
        c->encode(IntSeq(1, 10 * i));
        start.push_back(IntSeq(1, i));
        freqs.push_back(d.chance(1, 2) ? d.range(0, 100000000) : d.size(100000));
    }
    IntStreamVGram m(c, freqs, start, 40, 1e-7);
    std::vector<long> want(freqs.begin(), freqs.end());
    NOTE("restored with frequencies " << show(freqs));
    long left = len > 200 ? len : d.range(60000, 140000);
    uint64_t state = d.below(1u << 30);
    while (left > 0) {
        IntSeq q;
        for (int i = 0; i < len; i++) {
            state = state * 6364136223846793005ULL + 1442695040888963407ULL;
            int s = (int) ((state >> 40) % 10) < 8 ? 0 : (int) ((state >> 33) % k);
            q.push_back(10 * s);
            want[s]++;
        }
        left -= len;
        m.accept(q);
    }
    m.update_dict();
    IntSeq f = m.freqs();
    REQUIRE((int) f.size() == k, f.size() << " frequencies of " << k << " symbols");
    for (int i = 0; i < k; i++) REQUIRE(f[i] == want[i], "the frequency of symbol " << i << " is " << f[i] << " and not " << want[i]);
    d.nontrivial();
}

PROPERTY(C09, large, 24, 400) { count_many(d, 200); }
PROPERTY(C09, slow_longest, 4, 80) { count_many(d, d.range(65500, 70000)); }    // in one sequence

// the exact counts of much data
PROPERTY(C10, large, 12, 200) {
    bool many = d.chance(1, 2);
    Seqs data;
    std::map<int, long> want;
    if (many) {
        Many m = gen_many(d);
        IntSeq q;
        for (int i = 0; i < m.k; i++) {
            q.push_back(m(i));
            want[m(i)]++;
            if (q.size() == 50) { data.push_back(q); q.clear(); }
        }
        data.push_back(q);
    } else {
        int k = 1 + (int) d.below(4);
        uint64_t state = d.below(1u << 30);
        for (int n = d.range(700, 1200); n > 0; n--) {
            IntSeq q;
            for (int i = 0; i < 100; i++) {
                state = state * 6364136223846793005ULL + 1442695040888963407ULL;
                int s = (int) ((state >> 40) % 10) < 9 ? 0 : (int) ((state >> 33) % k);
                q.push_back(s);
                want[s]++;
            }
            data.push_back(q);
        }
        d.nontrivial();
    }
    NOTE(want.size() << " symbols in " << data.size() << " sequences");
    IntVGram m(1, many ? 0 : 1, 0);
    srand(d.below(1u << 30));
    REQUIRE(m.fit(data) == &m, "fit does not return its model");
    Seqs alpha = m.alphabet();
    IntSeq f = m.freqs();
    REQUIRE(alpha.size() == want.size() && f.size() == want.size(), alpha.size() << " entries and " << f.size() << " frequencies of " << want.size() << " symbols");
    for (size_t i = 0; i < alpha.size(); i++)
        REQUIRE(alpha[i].size() == 1 && want.count(alpha[i][0]) && want[alpha[i][0]] == f[i], "the frequency of " << show(alpha[i]) << " is " << f[i]);
}

// a big model through a file
PROPERTY(C11, large, 3, 60) {
    Many m = gen_many(d);
    IntStreamVGram a(m.k + 50, 0);
    for (int i = 0; i < m.k;) {
        IntSeq q;
        for (int n = 0; n < 500 && i < m.k; n++) q.push_back(m(i++));
        a.accept(q);
    }
    a.update_dict();
    std::string x = d.tmpfile("large.json"), y = d.tmpfile("large2.json");
    a.save(x);
    auto l = Loader::load_int_stream_vgram(x);
    REQUIRE(l->alphabet() == a.alphabet(), "the loaded model has another alphabet");
    REQUIRE(l->freqs() == a.freqs(), "the loaded model has other frequencies");
    REQUIRE(l->get_coder()->code_map() == a.get_coder()->code_map(), "the loaded model has other codes");
    l->save(y);
    REQUIRE(slurp(x) == slurp(y), "saving what was loaded gives another file");
    for (int i = 0; i < 20; i++) {
        IntSeq s;
        for (int n = d.size(40); n > 0; n--) s.push_back(m(gen_index(d, m.k + 50)));
        REQUIRE(a.parse(s) == l->parse(s), "the segmentation of " << show(s) << " is another one");
    }
    std::remove(x.c_str());
    std::remove(y.c_str());
}

// many tokens
PROPERTY(C15, large, 24, 400) {
    Many m = gen_many(d);
    WordTokenizer t;
    std::string text;
    IntSeq want;
    for (int i = 0; i < m.k; i++) {
        text += "w" + std::to_string(i) + " ";
        want.push_back(i);
        if (d.verbose() && i > 20) continue;
    }
    REQUIRE(t.transform(text) == want, "new tokens are not numbered 0, 1, 2, ...");
    for (int i = 0; i < 200; i++) {
        int n = gen_index(d, m.k);
        std::string w = "w" + std::to_string(n);
        REQUIRE(t.transform(w) == IntSeq(1, n), "token " << w << " has another number now");
        REQUIRE(t.decode(IntSeq(1, n)) == w, "number " << n << " is decoded to " << t.decode(IntSeq(1, n)));
    }
    REQUIRE(t.decode(IntSeq(1, m.k)) == "", "a number nobody has is decoded");
}

// many symbols
PROPERTY(C16, large, 80, 1500) {
    Many m = gen_many(d);
    SeqCoder c;
    IntSeq s = all_of(m), want(m.k);
    std::iota(want.begin(), want.end(), 0);
    int cut = (int) d.below((uint32_t) m.k + 1);
    IntSeq codes = c.encode(IntSeq(s.begin(), s.begin() + cut)), more = c.encode(IntSeq(s.begin() + cut, s.end()));
    codes.insert(codes.end(), more.begin(), more.end());
    REQUIRE(codes == want, "symbols are not numbered 0, 1, 2, ...");
    REQUIRE(c.encode(s) == want && c.encode_immutable(s) == want, "the numbers of the symbols changed");
    REQUIRE(c.decode(want) == s, "the numbers are decoded to other symbols");
    auto map = c.code_map();
    REQUIRE((int) map.size() == m.k, map.size() << " of " << m.k << " symbols");
    for (int i = 0; i < m.k; i++) REQUIRE(map.count(s[i]) && map[s[i]] == i, "symbol " << s[i] << " has another number");
}

// many elements
PROPERTY(C25, large, 160, 3000) {
    Many m = gen_many(d);
    Encoder<int> e;
    IntSeq s = all_of(m), want(m.k), out;
    std::iota(want.begin(), want.end(), 0);
    e.encode(s, &out);
    REQUIRE(out == want, "elements are not numbered by first occurrence");
    out.clear();
    e.encode(s, &out);
    REQUIRE(out == want, "the numbers of the elements changed");
    REQUIRE(e.size() == m.k, "size is " << e.size() << ", " << m.k << " elements were met");
}
