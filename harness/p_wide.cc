// Learning at the sizes users have: hundreds of symbols, dictionaries of hundreds to thousands of v-grams learned from
// ten thousands of symbols, texts of ten thousands.  Cases are few; the ones of the other files are small.
#include "builder_gen.h"
#include "model_gen.h"
#include "saved.h"
#include "loader.h"
#include "saver.h"
#include "vgram_builders/string_stream_vgram.h"
#include <cstdio>
#include <fstream>

using namespace vgram_core;

namespace {

// text of words, frequent and rare ones
struct Wide {
    IntSeq syms;
    Seqs words;
    double skew = 1;
    uint64_t state = 1;

    uint32_t next(uint32_t k) {
        state = state * 6364136223846793005ULL + 1442695040888963407ULL;
        return (uint32_t) (((state >> 32) * k) >> 32);
    }
    IntSeq text(int len) {
        IntSeq s;
        while ((int) s.size() < len) {
            double u = (next(1u << 24) + 0.5) / (1u << 24);
            if (!next(20)) { s.push_back(syms[next((uint32_t) syms.size())]); continue; }
            const IntSeq& w = words[(size_t) (words.size() * std::pow(u, skew))];
            s.insert(s.end(), w.begin(), w.end());
        }
        return s;
    }
    // sequences of all lengths, some of them long
    Seqs batch(int symbols) {
        Seqs r;
        for (int n = 0; n < symbols;) {
            uint32_t kind = next(40);
            int len = kind == 0 ? 0 : kind == 1 ? 1000 + (int) next(next(30) ? 500 : 7000) : kind < 8 ? 1 + (int) next(3) : 1 + (int) next(300);
            r.push_back(len ? text(len) : IntSeq());
            n += (int) r.back().size();
        }
        return r;
    }
};

Wide gen_wide(D& d) {
    Wide w;
    int k = d.chance(1, 12) ? d.range(600, 2500) : d.chance(1, 3) ? d.range(257, 600) : d.range(20, 257);
    w.syms = gen_symbols(d, k);
    w.state = d.below(1u << 30) * 2 + 1;
    w.skew = d.range(1, 3);
    int longest = d.chance(1, 3) ? 40 : 8, n = d.range(40, 700);
    for (int i = 0; i < n; i++) {
        IntSeq s;
        for (int l = 2 + (int) w.next((uint32_t) longest - 1); l > 0; l--) s.push_back(w.syms[w.next((uint32_t) k)]);
        w.words.push_back(s);
    }
    NOTE(k << " symbols, " << n << " words up to " << longest << " symbols, skew " << w.skew);
    return w;
}

int gen_wide_size(D& d, const Wide& w) {
    int size = (int) w.syms.size() + (d.chance(1, 2) ? d.range(300, 4000) : d.range(1, 300));
    NOTE("size " << size);
    return size;
}

// a restored model learns faster, and has counted before
std::shared_ptr<IntStreamVGram> gen_wide_model(D& d, const Wide& w, int size) {
    static const std::vector<double> probs = {0.05, 0.02, 0.005, 0.001, 0.0005, 0.0002};
    if (d.chance(1, 3)) return std::make_shared<IntStreamVGram>(size, 0);
    auto c = std::make_shared<SeqCoder>();
    c->encode(w.syms);
    Seqs start;
    IntSeq freqs;
    for (int i = 0; i < (int) w.syms.size(); i++) { start.push_back(IntSeq(1, i)); freqs.push_back(0); }
    return std::make_shared<IntStreamVGram>(c, freqs, start, size, d.pick(probs));
}

// most distinct entries of a run, to see what was reached
void reached(D& d, size_t n) {
    if (n > 256) d.label("v-grams: more than 256");
    if (n > 1024) d.label("v-grams: more than 1024");
    if (n > 256) d.nontrivial();
}

void spells(const IntStreamVGram& m, const IntSeq& s, const std::set<int>& known) {
    IntSeq out = m.parse(s);
    Seqs alpha = m.alphabet();
    for (int id : out) REQUIRE(id >= 0 && id < (int) alpha.size(), "index " << id << " of " << alpha.size() << " v-grams");
    IntSeq got = concat(alpha, out), want = only(s, known);
    if (got == want) return;
    size_t at = std::mismatch(got.begin(), got.begin() + std::min(got.size(), want.size()), want.begin()).first - got.begin();
    pbt::fail("a segmentation of " + std::to_string(s.size()) + " symbols spells " + std::to_string(got.size()) + " instead of " + std::to_string(want.size()) + ", another one at " + std::to_string(at));
}

}  // namespace

// C06 and C07 are one run: what is learned was there, and is not too much
static void learn(D& d, bool contents) {
    Wide w = gen_wide(d);
    int size = gen_wide_size(d, w);
    std::shared_ptr<IntVGramBuilder> b;
    std::set<int> seen;
    int way = (int) d.below(3);
    if (way == 0) b.reset(new IntVGramBuilderImpl(size, 0));
    else {
        Seqs start;
        IntSeq freqs(w.syms.size(), 0);
        for (int s : w.syms) { start.push_back(IntSeq(1, s)); seen.insert(s); }
        std::sort(start.begin(), start.end());
        if (way == 1) b.reset(new IntVGramBuilderImpl(w.syms, size, 0));
        else b.reset(new IntVGramBuilderImpl(IntDictImpl(start), freqs, start, d.chance(1, 2) ? 0.02 : 0.0004, 0, size));
    }
    Seqs history = w.batch(d.chance(1, 10) ? d.range(100000, 250000) : d.range(20000, 50000));
    std::set<IntSeq> verified;
    std::shared_ptr<IntDict> last;
    size_t most = 0;
    double prob = 1;
    for (size_t n = 0; n < history.size(); n++) {
        b->accept(history[n]);
        seen.insert(history[n].begin(), history[n].end());
        auto now = b->result();
        if (now == last) continue;
        last = now;
        const Seqs& alpha = now->alphabet();
        size_t symbols = 0;
        IntSeq before;
        for (auto& e : alpha) {
            REQUIRE(!e.empty(), "an entry is empty");
            if (e.size() == 1) { symbols++; REQUIRE(seen.count(e[0]), "symbol " << e[0] << " is an entry, nobody accepted it"); continue; }
            if (!contents || !verified.insert(e).second) continue;
            bool found = false;
            for (size_t i = n + 1; i-- > 0 && !found;) found = contains(history[i], e);
            REQUIRE(found, "after " << n + 1 << " sequences entry " << show(e) << " is in none of them");
        }
        std::set<IntSeq> distinct(alpha.begin(), alpha.end());
        REQUIRE(distinct.size() == alpha.size(), "after " << n + 1 << " sequences " << alpha.size() - distinct.size() << " entries are there twice");
        if (contents) for (int s : seen) REQUIRE(distinct.count(IntSeq(1, s)), "after " << n + 1 << " sequences symbol " << s << " is not an entry");
        most = std::max(most, alpha.size() - symbols);
        size_t room = std::max(0, size - (int) seen.size());
        REQUIRE(alpha.size() - symbols <= room, "after " << n + 1 << " sequences the dictionary of size " << size << " has " << alpha.size() - symbols << " v-grams beside " << seen.size() << " symbols");
        double p = b->get_min_probability();
        REQUIRE(p <= prob, "the minimal probability rose to " << p);
        if (p > 0) prob = p;
    }
    reached(d, most);
}
PROPERTY(C06, wide, 200, 4000) { learn(d, true); }
PROPERTY(C07, wide, 150, 3000) { learn(d, false); }

PROPERTY(C08, wide, 48, 960) {
    Wide w = gen_wide(d);
    int size = gen_wide_size(d, w);
    auto m = gen_wide_model(d, w, size);
    std::set<int> known;
    for (auto& c : m->get_coder()->code_map()) known.insert(c.first);
    size_t most = 0;
    for (int phase = d.range(1, 3); phase > 0; phase--) {
        for (auto& s : w.batch(d.range(15000, 40000))) { m->accept(s); known.insert(s.begin(), s.end()); }
        if (d.chance(1, 2)) spells(*m, w.text(d.range(1, 3000)), known);
        m->update_dict();
        most = std::max(most, vgrams(m->alphabet()).size());
        for (int len : {1, 1000, 5000, d.range(1, 8) == 1 ? 33000 : 10000}) {
            IntSeq s = w.text(len);
            for (int n = d.size(20); n > 0; n--) s[w.next((uint32_t) s.size())] = 1000000000 + (int) w.next(3);
            spells(*m, s, known);
        }
    }
    reached(d, most);
}

PROPERTY(C09, wide, 150, 3000) {
    Wide w = gen_wide(d);
    int size = gen_wide_size(d, w);
    auto m = gen_wide_model(d, w, size);
    std::set<IntSeq> last = vgrams(m->alphabet());
    double since = 0;
    size_t most = 0;
    for (int phase = d.range(1, 12); phase > 0; phase--) {
        double fresh = 0;
        for (auto& s : w.batch(d.range(500, 20000))) { m->accept(s); fresh += s.size(); }
        m->update_dict();
        Seqs alpha = m->alphabet();
        IntSeq f = m->freqs();
        REQUIRE(f.size() == alpha.size(), f.size() << " frequencies of " << alpha.size() << " v-grams");
        for (size_t i = 0; i < f.size(); i++) REQUIRE(f[i] >= 0, "frequency of " << show(alpha[i]) << " is " << f[i]);
        std::set<IntSeq> now = vgrams(alpha);
        since = now == last ? since + fresh : fresh;
        last = now;
        most = std::max(most, now.size());
        double c = covered(f, alpha);
        REQUIRE(c <= since + 0.5, "the frequencies are of " << c << " symbols, " << since << " were accepted");
        m->update_dict();
        m->parse(w.text(500));
        IntSeq g = m->freqs();          // parsing can register a symbol
        g.resize(std::max(g.size(), f.size()), 0);
        f.resize(g.size(), 0);
        REQUIRE(g == f, "updating again and parsing changed the frequencies");
    }
    reached(d, most);
}

// frequencies with which a fitted model reports its training data
PROPERTY(C10, wide, 80, 1600) {
    Wide w = gen_wide(d);
    int size = gen_wide_size(d, w), iters = d.range(1, 3);
    Seqs data = w.batch(d.range(10000, 30000));
    IntVGram m(size, iters, 0);
    srand(d.below(1u << 30));
    NOTE(iters << " iterations, " << data.size() << " sequences");
    REQUIRE(m.fit(data) == &m, "fit does not return its model");
    Seqs alpha = m.alphabet();
    IntSeq f = m.freqs();
    double symbols = 0;
    for (auto& q : data) symbols += q.size();
    REQUIRE(f.size() == alpha.size(), f.size() << " frequencies of " << alpha.size() << " entries");
    REQUIRE(covered(f, alpha) == symbols, "the frequencies of a fitted model are of " << covered(f, alpha) << " symbols, its training data has " << symbols);
    std::map<int, long> got, want;      // of each symbol
    for (auto& q : data) for (int x : q) want[x]++;
    for (size_t i = 0; i < alpha.size(); i++) for (int x : alpha[i]) got[x] += f[i];
    for (auto& x : want) REQUIRE(got[x.first] == x.second, "symbol " << x.first << " is there " << x.second << " times, the frequencies have it " << got[x.first] << " times");
    reached(d, vgrams(alpha).size());
}

PROPERTY(C11, wide, 48, 960) {
    Wide w = gen_wide(d);
    int size = gen_wide_size(d, w);
    auto m = gen_wide_model(d, w, size);
    for (auto& s : w.batch(d.range(20000, 60000))) m->accept(s);
    m->update_dict();
    std::string a = d.tmpfile("a.json"), b = d.tmpfile("b.json");
    m->save(a);
    auto l = Loader::load_int_stream_vgram(a);
    l->save(b);
    REQUIRE(slurp(a) == slurp(b), "saving what was loaded gives another file");
    REQUIRE(l->alphabet() == m->alphabet(), "the loaded model has another alphabet");
    REQUIRE(l->freqs() == m->freqs(), "the loaded model has other frequencies");
    REQUIRE(l->get_coder()->code_map() == m->get_coder()->code_map(), "the loaded model has other codes");
    for (int len : {1, 100, 10000}) {
        IntSeq s = w.text(len);
        REQUIRE(l->parse(s) == m->parse(s), "a text of " << s.size() << " symbols is segmented in another way");
    }
    reached(d, vgrams(m->alphabet()).size());
}

namespace {

// symbols written as text, one token each for words and some for characters; and the numbers of these tokens by hand
struct Writing {
    bool words;
    std::map<int, int> at;
    std::map<std::string, int> ids;
    std::vector<std::string> names;

    Writing(const Wide& w, bool words): words(words) { for (size_t i = 0; i < w.syms.size(); i++) at[w.syms[i]] = (int) i; }
    static std::string name(int i) {
        std::string s;
        for (int n = i; s.empty() || n > 0; n /= 26) s += (char) ('a' + n % 26);
        return s;
    }
    std::string text(const IntSeq& s) {
        std::string r;
        for (int x : s) { r += name(at[x]); if (words) r += " "; }
        return r;
    }
    // in the order in which a model meets them
    IntSeq numbers(const IntSeq& s) {
        IntSeq r;
        auto token = [&](const std::string& t) {
            auto k = ids.emplace(t, (int) names.size());
            if (k.second) names.push_back(t);
            r.push_back(k.first->second);
        };
        for (int x : s) {
            std::string n = name(at[x]);
            if (words) token(n);
            else for (char c : n) token(std::string(1, c));
        }
        return r;
    }
    std::string spell(const IntSeq& s) const { std::string r; for (int x : s) r += names.at(x); return r; }
};

}  // namespace

// the same for texts of hundreds of different words
PROPERTY(C11, vocabulary, 32, 640) {
    Wide w = gen_wide(d);
    int size = gen_wide_size(d, w);
    Writing by(w, true);
    StringStreamVGram m(size, 0, false, true);
    for (auto& s : w.batch(d.range(20000, 40000))) m.accept(by.text(s));
    m.update_dict();
    std::string a = d.tmpfile("a.json"), b = d.tmpfile("b.json");
    m.save(a);
    auto l = Loader::load_string_stream_vgram(a);
    l->save(b);
    REQUIRE(slurp(a) == slurp(b), "saving what was loaded gives another file");
    REQUIRE(l->alphabet() == m.alphabet() && l->freqs() == m.freqs(), "the loaded model has another alphabet or other frequencies");
    for (int len : {1, 100, 3000}) {
        std::string s = by.text(w.text(len));
        REQUIRE(l->parse(s) == m.parse(s), "a text of " << s.size() << " characters is segmented in another way");
    }
    reached(d, m.alphabet().size());
}

// a file with thousands of entries, read by the reader of the checks
PROPERTY(C12, wide, 64, 1280) {
    Wide w = gen_wide(d);
    int size = gen_wide_size(d, w);
    auto m = gen_wide_model(d, w, size);
    for (auto& s : w.batch(d.range(20000, 60000))) m->accept(s);
    m->update_dict();
    std::string a = d.tmpfile("a.json");
    m->save(a);
    Saved file = read_saved(a);
    Seqs alpha = m->alphabet();
    REQUIRE(file.vecs == alpha, file.vecs.size() << " entries in the file are not the " << alpha.size() << " of the model");
    REQUIRE(file.freqs == m->freqs(), "the frequencies in the file are not those of the model");
    REQUIRE(file.size == size, "the file has size " << file.size);
    auto map = m->get_coder()->code_map();
    REQUIRE(file.coder.size() == map.size(), file.coder.size() << " codes in the file of " << map.size());
    for (size_t i = 0; i < file.coder.size(); i++) REQUIRE(map.at(file.coder[i]) == (int) i, "the code of symbol " << file.coder[i] << " is " << i << " in the file");
    reached(d, vgrams(alpha).size());
}

// a model which is saved and loaded on the way learns what its twin learns
PROPERTY(C13, wide, 64, 1280) {
    Wide w = gen_wide(d);
    int size = gen_wide_size(d, w);
    auto m = gen_wide_model(d, w, size);
    for (auto& s : w.batch(d.range(20000, 50000))) m->accept(s);
    if (d.chance(2, 3)) m->update_dict();
    std::string a = d.tmpfile("a.json"), b = d.tmpfile("b.json");
    m->save(a);
    auto x = Loader::load_int_stream_vgram(a);
    x->save(b);
    auto y = Loader::load_int_stream_vgram(b);
    Seqs start = x->alphabet();
    double held = covered(x->freqs(), start), fresh = 0, prob = read_saved(a).min_prob;
    for (int phase = d.range(1, 3); phase > 0; phase--) {
        for (auto& s : w.batch(d.range(300, 9000))) { x->accept(s); y->accept(s); fresh += s.size(); }
        x->update_dict();
        y->update_dict();
        REQUIRE(x->alphabet() == y->alphabet() && x->freqs() == y->freqs(), "models of equal files learn other dictionaries");
        if (fresh * (prob > 0 ? prob : 0.002) < 1)
            REQUIRE(covered(x->freqs(), x->alphabet()) == held + fresh, "the frequencies are of " << covered(x->freqs(), x->alphabet()) << " symbols, " << held << " were in the file and " << fresh << " came after that");
    }
    reached(d, vgrams(x->alphabet()).size());
}

// long texts, by hand with numbers
PROPERTY(C14, wide, 32, 640) {
    bool words = d.chance(2, 3);
    Wide w = gen_wide(d);
    int size = gen_wide_size(d, w);
    Writing by(w, words);
    auto m = std::make_shared<StringStreamVGram>(size, 0, false, words);
    IntStreamVGram hand(size, 0);
    for (auto& s : w.batch(d.range(15000, 30000))) {
        m->accept(by.text(s));
        hand.accept(by.numbers(s));
    }
    m->update_dict();
    hand.update_dict();
    Seqs alpha = hand.alphabet();
    std::vector<std::string> want;
    for (auto& e : alpha) want.push_back(by.spell(e));
    REQUIRE(m->alphabet() == want && m->freqs() == hand.freqs(), "the alphabet and its frequencies are not those of the model by hand");
    for (int len : {1, 300, 3000}) {
        IntSeq s = w.text(len);
        want.clear();
        IntSeq out = hand.parse(by.numbers(s));
        alpha = hand.alphabet();        // parsing can register a symbol
        for (int id : out) want.push_back(by.spell(alpha.at(id)));
        REQUIRE(m->parse(by.text(s)) == want, "a text of " << s.size() << " symbols is segmented in another way than by hand");
    }
    reached(d, vgrams(alpha).size());
}

// hundreds to thousands of texts at once
PROPERTY(C14, many, 48, 960) {
    bool words = d.chance(1, 2);
    Wide w = gen_wide(d);
    int size = gen_wide_size(d, w), iters = d.range(1, 3);
    Writing by(w, words);
    Seqs data = w.batch(d.range(4000, 12000)), texts = w.batch(d.range(500, 3000)), numbers, coded;
    for (int n = d.chance(1, 6) ? d.range(1000, 2500) : d.range(10, 600); n > 0; n--) texts.push_back(w.text((int) w.next(5)));
    std::vector<std::string> a, b, want;
    for (auto& s : data) { a.push_back(by.text(s)); numbers.push_back(by.numbers(s)); }
    for (auto& s : texts) { b.push_back(by.text(s)); coded.push_back(by.numbers(s)); }
    NOTE(iters << " iterations, " << data.size() << " texts to fit and " << texts.size() << " to transform, " << (words ? "words" : "characters"));
    std::unique_ptr<StringVGram> m(words ? new StringVGram(size, iters, new WordTokenizer(), 0) : new StringVGram(size, iters, 0));
    IntVGram hand(size, iters, 0);
    unsigned seed = d.below(1u << 30);
    srand(seed);
    m->fit(a);
    srand(seed);
    hand.fit(numbers);
    std::vector<std::string> names;
    for (auto& e : hand.alphabet()) names.push_back(by.spell(e));
    REQUIRE(m->alphabet() == names && m->freqs() == hand.freqs(), "the alphabet and its frequencies are not those of the model by hand");
    Seqs out = hand.transform(coded);
    names.clear();
    for (auto& e : hand.alphabet()) names.push_back(by.spell(e));
    for (auto& s : out) {
        std::string r;
        for (int id : s) r += (r.empty() ? "" : " ") + names.at(id);
        want.push_back(r);
    }
    std::vector<std::string> got = m->transform(b);
    REQUIRE(got.size() == want.size(), want.size() << " texts are transformed to " << got.size());
    for (size_t i = 0; i < got.size(); i++) REQUIRE(got[i] == want[i], "text " << i << " of " << got.size() << " is transformed to " << quoted(got[i]) << ", by hand to " << quoted(want[i]));
    if (texts.size() > 256) d.label("more than 256 texts");
    if (names.size() > by.names.size()) d.nontrivial();
}

PROPERTY(C17, wide, 80, 1600) {
    Wide w = gen_wide(d);
    int size = gen_wide_size(d, w);
    auto c = std::make_shared<SeqCoder>();
    c->encode(w.syms);
    Seqs start;
    for (int i = 0; i < (int) w.syms.size(); i++) start.push_back(IntSeq(1, i));
    IntSeq none(start.size(), 0);
    double prob = d.chance(1, 2) ? 0.02 : 0.0005;
    auto make = [&] { auto own = std::make_shared<SeqCoder>(); own->encode(w.syms); return std::make_shared<IntStreamVGram>(own, none, start, size, prob); };
    auto a = make(), b = make(), other = make();
    for (auto& s : w.batch(d.range(20000, 60000))) {
        a->accept(s);
        b->accept(s);
        other->accept(IntSeq(s.rbegin(), s.rend()));
        if (s.size() % 5 == 0) { b->parse(s); b->freqs(); b->alphabet(); }
    }
    a->update_dict();
    b->update_dict();
    REQUIRE(a->alphabet() == b->alphabet() && a->freqs() == b->freqs(), "models which accepted the same learned other dictionaries");
    reached(d, vgrams(a->alphabet()).size());
}

PROPERTY(C18, wide, 40, 800) {
    Wide w = gen_wide(d);
    int size = gen_wide_size(d, w);
    Seqs data = w.batch(d.range(15000, 40000));
    IntVGram m(size, d.range(1, 3), 0);
    srand(d.below(1u << 30));
    m.fit(data);
    Seqs texts = w.batch(d.range(2000, 10000));
    texts.push_back(w.text(5000));
    Seqs one;
    for (auto& s : texts) one.push_back(m.parse(s));
    REQUIRE(m.transform(texts) == one, "transforming is not parsing one by one");
    std::vector<std::string> strs = m.transform_to_string(texts);
    REQUIRE(strs.size() == texts.size(), texts.size() << " sequences become " << strs.size() << " strings");
    for (size_t i = 0; i < texts.size(); i++) {
        std::istringstream in(strs[i]);
        IntSeq back;
        for (int x; in >> x;) back.push_back(x);
        REQUIRE(back == (one[i].empty() ? IntSeq(1, -1) : one[i]), "the segmentation of a sequence of " << texts[i].size() << " symbols is written as " << back.size() << " numbers, not as " << one[i].size());
    }
    reached(d, vgrams(m.alphabet()).size());
}

PROPERTY(C19, wide, 48, 960) {
    Wide w = gen_wide(d);
    int size = gen_wide_size(d, w);
    std::map<int, int> to;
    uint32_t a = d.below(1u << 30) * 2 + 1, b = d.below(1u << 30);
    for (size_t i = 0; i < w.syms.size(); i++) to[w.syms[i]] = (int) ((uint32_t) i * a + b);
    auto image = [&](const IntSeq& s) { IntSeq r; for (int x : s) r.push_back(to[x]); return r; };
    IntStreamVGram x(size, 0), y(size, 0);
    for (auto& s : w.batch(d.range(20000, 60000))) { x.accept(s); y.accept(image(s)); }
    x.update_dict();
    y.update_dict();
    Seqs want;
    for (auto& e : x.alphabet()) want.push_back(image(e));
    REQUIRE(want == y.alphabet() && x.freqs() == y.freqs(), "renamed symbols give another dictionary");
    for (int len : {1, 1000, 5000}) {
        IntSeq s = w.text(len);
        REQUIRE(x.parse(s) == y.parse(image(s)), "a text of renamed symbols is segmented in another way");
    }
    reached(d, vgrams(x.alphabet()).size());
}
