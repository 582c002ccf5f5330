// Saving and loading: C11 round trip, C12 the format, C13 going on after loading, C26 damaged files.
#include "model_gen.h"
#include "text_gen.h"
#include "saved.h"
#include "saver.h"
#include "loader.h"
#include "int_dict_p.h"
#include "int_vgram_builder_p.h"
#include <functional>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

using vgram_core::Loader;
using vgram_core::StringStreamVGram;
using vgram_core::StringVGram;

namespace {

void spit(const std::string& path, const std::string& text) {
    std::ofstream(path, std::ios::binary | std::ios::trunc) << text;
}
std::string first_difference(const std::string& a, const std::string& b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    size_t from = i > 40 ? i - 40 : 0;
    return "at " + std::to_string(i) + ": ..." + quoted(a.substr(from, 80)) + " and ..." + quoted(b.substr(from, 80));
}

// what a stream of accepted data has made of a model, and what the model may know
struct Trained {
    ModelPlan plan;
    Seqs data;
    IntSeq order;                 // symbols in the order the model met them
    double accepted = 0;          // symbols
    bool counted = true;          // the frequencies are of everything accepted so far
};
void met(Trained& t, const IntSeq& s) {
    for (int x : s) if (std::find(t.order.begin(), t.order.end(), x) == t.order.end()) t.order.push_back(x);
    t.data.push_back(s);
    t.accepted += s.size();
}
void stream_history(D& d, IntStreamVGram& m, Trained& t, int ops, int budget) {
    for (; ops > 0; ops--) {
        int kind = d.weighted({4, 4, 2});
        if (kind == 0) {
            for (auto& s : gen_batch(d, t.plan.syms, budget)) { m.accept(s); met(t, s); t.counted = t.counted && s.empty(); }
        } else if (kind == 1) {
            NOTE("update");
            m.update_dict();
            t.counted = true;
        } else {
            IntSeq s = gen_text(d, m.alphabet(), t.plan.syms, t.data);
            NOTE("parse " << show(s));
            m.parse(s);
        }
    }
}

template <class A, class B>
void same_ints(D& d, A& a, B& b, const IntSeq& syms, const Seqs& data, const char* what) {
    REQUIRE(a.alphabet() == b.alphabet(), what << ": alphabet " << show(a.alphabet()) << " became " << show(b.alphabet()));
    REQUIRE(a.freqs() == b.freqs(), what << ": frequencies " << show(a.freqs()) << " became " << show(b.freqs()));
    REQUIRE(a.get_coder()->code_map() == b.get_coder()->code_map(), what << ": the codes of the symbols changed");
    for (int i = 0; i < 4; i++) {
        IntSeq s = gen_text(d, a.alphabet(), syms, data, 20);
        IntSeq x = a.parse(s), y = b.parse(s);
        REQUIRE(x == y, what << ": segmentation of " << show(s) << " was " << show(x) << " and is " << show(y) << " in " << show(a.alphabet()));
        REQUIRE(a.alphabet() == b.alphabet(), what << ": after parsing " << show(s) << " alphabets are " << show(a.alphabet()) << " and " << show(b.alphabet()));
    }
}

// the path already has something, longer and shorter than what is saved
void maybe_old_file(D& d, const std::string& path) {
    if (!d.chance(1, 3)) { std::remove(path.c_str()); return; }
    spit(path, std::string(1 + d.size(60000), 'x'));
    d.label("overwrites a file");
}

std::unique_ptr<StringStreamVGram> new_string_stream(int size, bool words) {
    return std::unique_ptr<StringStreamVGram>(new StringStreamVGram(size, 0, false, words));
}

}  // namespace

PROPERTY(C11, stream, 4500, 90000) {
    Trained t;
    t.plan = gen_model(d);
    auto m = t.plan.stream();
    stream_history(d, *m, t, d.size(8), 1500);
    std::string a = d.tmpfile("a.json"), b = d.tmpfile("b.json"), c = d.tmpfile("c.json");
    maybe_old_file(d, a);
    Seqs alpha = m->alphabet();
    IntSeq f = m->freqs();
    m->save(a);
    REQUIRE(m->alphabet() == alpha && m->freqs() == f, "saving changed the model");
    auto l = Loader::load_int_stream_vgram(a);
    l->save(b);
    REQUIRE(slurp(a) == slurp(b), "saving what was loaded gives another file " << first_difference(slurp(a), slurp(b)));
    same_ints(d, *m, *l, t.plan.syms, t.data, "loaded");
    // a copy of a copy
    l->save(b);
    auto l2 = Loader::load_int_stream_vgram(b);
    l2->save(c);
    REQUIRE(slurp(b) == slurp(c), "saving what was loaded twice gives another file " << first_difference(slurp(b), slurp(c)));
    same_ints(d, *m, *l2, t.plan.syms, t.data, "loaded twice");
    if (!vgrams(alpha).empty()) d.nontrivial();
}

PROPERTY(C11, fitted, 2400, 48000) {
    ModelPlan p = gen_model(d, 0);
    p.iters = d.size(12);
    auto m = p.fit_model();
    Seqs data;
    bool fitted = !d.chance(1, 10);
    if (fitted) {
        data = gen_batch(d, p.syms, 5000 / (p.iters + 1) + 30);
        srand(d.below(1u << 30));
        m->fit(data);
        if (d.chance(1, 4)) m->transform(Seqs{gen_text(d, m->alphabet(), p.syms, data)});
    }
    std::string a = d.tmpfile("a.json"), b = d.tmpfile("b.json");
    maybe_old_file(d, a);
    m->save(a);
    std::unique_ptr<IntVGram> l(Loader::load_int_vgram(a));
    l->save(b);
    REQUIRE(slurp(a) == slurp(b), "saving what was loaded gives another file " << first_difference(slurp(a), slurp(b)));
    Seqs alpha = m->alphabet();
    IntSeq f = m->freqs();
    if (fitted) {
        // what is fitted is not fitted again
        REQUIRE(l->fit(gen_batch(d, p.syms, 300)) == l.get(), "fit does not return the loaded model");
        REQUIRE(l->alphabet() == alpha && l->freqs() == f, "fitting a loaded fitted model changed it");
    }
    same_ints(d, *m, *l, p.syms, data, "loaded");
    REQUIRE(m->transform(data) == l->transform(data), "the loaded model transforms the training data differently");
    REQUIRE(m->transform_to_string(data) == l->transform_to_string(data), "the loaded model transforms the training data to other strings");
    // a streaming model can be made of the same file
    if (d.chance(1, 2)) {
        auto s = Loader::load_int_stream_vgram(a);
        REQUIRE(s->alphabet() == alpha && s->freqs() == f, "the streaming model of the file is another one");
    }
    if (!vgrams(alpha).empty()) d.nontrivial();
}

PROPERTY(C11, string_stream, 3000, 60000) {
    bool words = d.chance(1, 2);
    Texts t = gen_texts(d, words);
    int size = gen_text_size(d, t);
    auto m = new_string_stream(size, words);
    std::vector<std::string> corpus;
    NOTE((words ? "words" : "characters") << " size " << size);
    for (int ops = d.size(6); ops > 0; ops--) {
        int kind = d.weighted({3, 3, 2});
        if (kind == 0) for (auto& s : gen_corpus(d, t, 4000)) { m->accept(s); corpus.push_back(s); }
        else if (kind == 1) m->update_dict();
        else m->parse(t.one(d, 10));
    }
    std::string a = d.tmpfile("a.json"), b = d.tmpfile("b.json");
    maybe_old_file(d, a);
    m->save(a);
    auto l = Loader::load_string_stream_vgram(a);
    l->save(b);
    REQUIRE(slurp(a) == slurp(b), "saving what was loaded gives another file " << first_difference(slurp(a), slurp(b)));
    REQUIRE(m->alphabet() == l->alphabet(), "alphabet " << quoted(m->alphabet()) << " became " << quoted(l->alphabet()));
    REQUIRE(m->freqs() == l->freqs(), "frequencies " << show(m->freqs()) << " became " << show(l->freqs()));
    Texts wide = gen_texts(d, words);
    for (int i = 0; i < 5; i++) {
        std::string s = i % 2 && !corpus.empty() ? d.pick(corpus) : d.chance(1, 2) ? t.one(d, 20) : wide.one(d, 20);
        auto x = m->parse(s), y = l->parse(s);
        REQUIRE(x == y, "parse of " << quoted(s) << " was " << quoted(x) << " and is " << quoted(y));
    }
    bool multi = false;
    for (auto& w : m->alphabet()) multi |= words ? w.size() > 8 : w.size() > 1;
    if (multi) d.nontrivial();
    if (words) d.label("words");
}

PROPERTY(C11, string, 1800, 36000) {
    bool words = d.chance(1, 3);
    Texts t = gen_texts(d, words);
    int size = gen_text_size(d, t), iters = d.size(8);
    std::unique_ptr<StringVGram> m(words ? new StringVGram(size, iters, new WordTokenizer(), 0) : new StringVGram(size, iters, 0));
    auto corpus = gen_corpus(d, t, 5000 / (iters + 1));
    srand(d.below(1u << 30));
    m->fit(corpus);
    std::string a = d.tmpfile("a.json"), b = d.tmpfile("b.json");
    maybe_old_file(d, a);
    m->save(a);
    std::unique_ptr<StringVGram> l(Loader::load_string_vgram(a));
    l->save(b);
    REQUIRE(slurp(a) == slurp(b), "saving what was loaded gives another file " << first_difference(slurp(a), slurp(b)));
    REQUIRE(m->alphabet() == l->alphabet(), "alphabet " << quoted(m->alphabet()) << " became " << quoted(l->alphabet()));
    REQUIRE(m->freqs() == l->freqs(), "frequencies " << show(m->freqs()) << " became " << show(l->freqs()));
    std::vector<std::string> texts(corpus.begin(), corpus.begin() + std::min<size_t>(corpus.size(), 30));
    Texts wide = gen_texts(d, words);
    for (int i = 0; i < 6; i++) texts.push_back(i % 2 ? t.one(d, 30) : wide.one(d, 20));
    auto x = m->transform(texts), y = l->transform(texts);
    for (size_t i = 0; i < texts.size(); i++) REQUIRE(x.size() == texts.size() && y.size() == texts.size() && x[i] == y[i], quoted(texts[i]) << " was transformed to " << quoted(x[i]) << " and is to " << quoted(y[i]));
    auto alpha = m->alphabet();
    REQUIRE(l->fit(texts) == l.get() && l->alphabet() == alpha, "fitting a loaded fitted model changed it");
    bool multi = false;
    for (auto& w : alpha) multi |= words ? w.size() > 8 : w.size() > 1;
    if (multi) d.nontrivial();
    if (words) d.label("words");
}

// ---------------------------------------------------------------------------------------------------- C12: the format

namespace {

template <class M>
void check_ints(const Saved& s, const M& m, const std::vector<int>* order, int size) {
    REQUIRE(s.vecs == m.alphabet(), "the file has v-grams " << show(s.vecs) << ", the model has " << show(m.alphabet()));
    REQUIRE(s.freqs == m.freqs(), "the file has frequencies " << show(s.freqs) << ", the model has " << show(m.freqs()));
    if (order) REQUIRE(s.coder == *order, "the file has symbols " << show(s.coder) << ", they occurred as " << show(*order));
    std::set<int> distinct(s.coder.begin(), s.coder.end());
    REQUIRE(distinct.size() == s.coder.size(), "a symbol is twice in the coder");
    REQUIRE(s.size == size, "the file has size " << s.size << ", the model was made with " << size);
    REQUIRE(std::isfinite(s.min_prob) && s.min_prob <= 1, "min_prob is " << s.min_prob);
}

}  // namespace

PROPERTY(C12, stream, 9000, 180000) {
    Trained t;
    t.plan = gen_model(d);
    auto m = t.plan.stream();
    t.order = t.plan.known;
    stream_history(d, *m, t, d.size(7), 1500);
    std::string a = d.tmpfile("a.json");
    maybe_old_file(d, a);
    m->save(a);
    Saved s = read_saved(a);
    check_ints(s, *m, &t.order, t.plan.size);
    REQUIRE(!s.has_text, "an integer model has texts");
    REQUIRE(s.fitted < 0 && s.computed < 0, "a streaming model is said to be fitted or not");
    if (t.order.size() > 1 && !vgrams(s.vecs).empty()) d.nontrivial();
}

// The minimal probability in the file is the one learning had reached when the dictionary was updated the last time.
PROPERTY(C12, probability, 3000, 60000) {
    Trained t;
    t.plan = gen_model(d);
    const ModelPlan& p = t.plan;
    auto m = p.stream();
    std::shared_ptr<IntVGramBuilder> b;
    IntDictImpl start(p.start);
    if (p.restored) b.reset(new IntVGramBuilderImpl(start, p.start_freqs, p.start, p.min_prob, 0, p.size));
    else b.reset(new IntVGramBuilderImpl(p.size, 0));
    std::map<int, int> code;
    for (int x : p.known) code.emplace(x, (int) code.size());
    double expected = p.restored ? p.min_prob : -1;
    std::string a = d.tmpfile("a.json");
    for (int ops = 1 + d.size(7); ops > 0; ops--) {
        for (auto& s : gen_batch(d, p.syms, 1500)) {
            m->accept(s);
            IntSeq c;
            for (int x : s) c.push_back(code.emplace(x, (int) code.size()).first->second);
            b->accept(c);
        }
        if (d.chance(2, 3)) {
            NOTE("update");
            m->update_dict();
            expected = b->get_min_probability();
        }
        if (d.chance(1, 2)) {
            m->save(a);
            Saved s = read_saved(a);
            if (expected <= 0) REQUIRE(s.min_prob <= 0, "nothing was learned and the file has the minimal probability " << s.min_prob);
            else REQUIRE(near(s.min_prob, expected, 1e-12), "the file has the minimal probability " << s.min_prob << ", it is " << expected);
            if (expected > 0 && expected != p.min_prob) d.nontrivial();
        }
    }
}

PROPERTY(C12, fitted, 4800, 96000) {
    ModelPlan p = gen_model(d, 0);
    p.iters = d.size(8);
    auto m = p.fit_model();
    std::string a = d.tmpfile("a.json");
    if (d.chance(1, 4)) {
        m->save(a);
        Saved s = read_saved(a);
        check_ints(s, *m, nullptr, p.size);
        REQUIRE(s.fitted == 0 && s.computed == 0, "a new model is said to be fitted");
    }
    Seqs data = gen_batch(d, p.syms, 4000 / (p.iters + 1) + 30);
    srand(d.below(1u << 30));
    m->fit(data);
    maybe_old_file(d, a);
    m->save(a);
    Saved s = read_saved(a);
    check_ints(s, *m, nullptr, p.size);
    REQUIRE(s.fitted == 1 && s.computed == 1, "a fitted model is not said to be fitted");
    REQUIRE(!s.has_text, "an integer model has texts");
    std::set<int> seen, coder(s.coder.begin(), s.coder.end());
    for (auto& x : data) seen.insert(x.begin(), x.end());
    REQUIRE(coder == seen, "the coder has symbols " << show(s.coder) << " which are not those of the data");
    if (!vgrams(s.vecs).empty()) d.nontrivial();
}

PROPERTY(C12, strings, 6000, 120000) {
    bool words = d.chance(1, 2);
    int kind = d.weighted({3, 2, 2});
    Texts t = gen_texts(d, words);
    int size = gen_text_size(d, t), iters = d.size(5);
    std::string a = d.tmpfile("a.json");
    auto corpus = gen_corpus(d, t, 2500);
    bool multi = false;
    auto check = [&](const std::vector<std::string>& alpha, const IntSeq& freqs, bool fitable) {
        Saved s = read_saved(a);
        REQUIRE(s.freqs == freqs, "the file has frequencies " << show(s.freqs) << ", the model has " << show(freqs));
        REQUIRE(s.has_text || alpha.empty(), "the v-grams of texts have no texts");
        REQUIRE(s.texts == alpha, "the file has texts " << quoted(s.texts) << ", the model has " << quoted(alpha));
        REQUIRE(s.size == size, "the file has size " << s.size << ", the model was made with " << size);
        REQUIRE((s.fitted >= 0) == fitable && (s.computed >= 0) == fitable, "fitted is there, or not, in the wrong file");
        if (fitable) REQUIRE(s.fitted == 1 && s.computed == 1, "a fitted model is not said to be fitted");
        // v-grams are made of the texts of their symbols
        std::map<int, std::string> one;
        for (size_t i = 0; i < s.vecs.size(); i++) if (s.vecs[i].size() == 1) one[s.vecs[i][0]] = s.texts[i];
        for (size_t i = 0; i < s.vecs.size(); i++) {
            std::string want;
            for (int x : s.vecs[i]) { REQUIRE(one.count(x), "symbol " << x << " has no entry of its own"); want += one[x]; }
            REQUIRE(want == s.texts[i], "the text of " << show(s.vecs[i]) << " is " << quoted(s.texts[i]) << ", its symbols make " << quoted(want));
            multi |= s.vecs[i].size() > 1;
        }
    };
    maybe_old_file(d, a);
    if (kind == 0) {
        auto m = new_string_stream(size, words);
        for (auto& s : corpus) m->accept(s);
        m->update_dict();
        m->save(a);
        check(m->alphabet(), m->freqs(), false);
    } else if (kind == 1) {
        std::unique_ptr<StringVGram> m(words ? new StringVGram(size, iters, new WordTokenizer(), 0) : new StringVGram(size, iters, 0));
        srand(d.below(1u << 30));
        m->fit(corpus);
        m->save(a);
        check(m->alphabet(), m->freqs(), true);
    } else {
        std::shared_ptr<BaseTokenizer> tok;
        if (words) tok = std::make_shared<WordTokenizer>(); else tok = std::make_shared<CharTokenizer>();
        Seqs data = tok->transform(corpus);
        d.label("integer model with a tokenizer");
        if (d.chance(1, 2)) {
            IntStreamVGram m(size, 0);
            for (auto& s : data) m.accept(s);
            m.update_dict();
            m.save(a, tok);
            check(tok->decode(m.alphabet()), m.freqs(), false);
        } else {
            IntVGram m(size, iters, 0);
            srand(d.below(1u << 30));
            m.fit(data);
            m.save(a, tok);
            check(tok->decode(m.alphabet()), m.freqs(), true);
            std::unique_ptr<StringVGram> l(Loader::load_string_vgram(a));
            REQUIRE(l->alphabet() == tok->decode(m.alphabet()), "the model of texts made of the file has another alphabet");
        }
    }
    if (multi) d.nontrivial();
}

// ----------------------------------------------------------------------------------- C13: going on with a loaded model

PROPERTY(C13, stream, 6000, 120000) {
    Trained t;
    t.plan = gen_model(d);
    auto m = t.plan.stream();
    t.order = t.plan.known;
    stream_history(d, *m, t, d.size(6), 1500);
    std::string a = d.tmpfile("a.json");
    m->save(a);
    NOTE("save and load");
    bool fitted = d.chance(1, 5);
    std::shared_ptr<IntStreamVGram> l;
    if (fitted) {
        // the same dictionary in a model which fits
        IntVGram f(m->get_coder(), m->freqs(), [&] { Seqs v; for (auto& e : m->get_dict()->alphabet()) v.push_back(e); return v; }(), t.plan.size, 0.1, true, true);
        f.save(a);
        l.reset(Loader::load_int_vgram(a));
        d.label("fitted model goes on");
    } else {
        l = Loader::load_int_stream_vgram(a);
    }
    Saved saved = read_saved(a);
    double prob = saved.min_prob > 0 ? saved.min_prob : 0.002;
    std::map<IntSeq, int> before;
    for (size_t i = 0; i < saved.vecs.size(); i++) if (saved.freqs[i]) before[saved.vecs[i]] = saved.freqs[i];
    REQUIRE(saved.freqs == m->freqs() && l->freqs() == m->freqs(), "the model had frequencies " << show(m->freqs()) << ", the loaded one has " << show(l->freqs()));
    double start = covered(saved.freqs, saved.vecs), accepted = 0;
    std::set<int> known(saved.coder.begin(), saved.coder.end());
    std::set<int> held;           // the symbols the dictionary surely has
    for (auto& e : saved.vecs) held.insert(e.begin(), e.end());
    std::set<IntSeq> last = vgrams(saved.vecs);
    size_t largest = last.size();
    auto table = [&] {
        std::map<IntSeq, int> r;
        Seqs alpha = l->alphabet();
        IntSeq f = l->freqs();
        REQUIRE(f.size() == alpha.size(), f.size() << " frequencies of " << alpha.size() << " v-grams");
        for (size_t i = 0; i < alpha.size(); i++) {
            REQUIRE(f[i] >= 0, "frequency of " << show(alpha[i]) << " is " << f[i]);
            if (f[i]) r[alpha[i]] = f[i];
        }
        return r;
    };
    if (d.chance(2, 3)) {
        l->update_dict();
        REQUIRE(table() == before, "updating a loaded model which got nothing changed its frequencies");
        REQUIRE(vgrams(l->alphabet()) == last, "updating a loaded model which got nothing changed its v-grams");
    }
    bool relearned = false;
    auto loaded = l->get_dict();
    Seqs more;
    for (int b = 1 + d.size(5); b > 0; b--) {
        std::set<int> upto = held;
        for (auto& s : gen_batch(d, t.plan.syms, 1800)) {
            l->accept(s);
            accepted += s.size();
            held.insert(s.begin(), s.end());
            known.insert(s.begin(), s.end());
            more.push_back(s);
        }
        l->update_dict();
        Seqs alpha = l->alphabet();
        auto now = table();
        std::set<IntSeq> v = vgrams(alpha);
        if (v != last) {
            relearned = true;
            size_t room = std::max(0, t.plan.size - (int) upto.size());
            REQUIRE(v.size() <= std::max(room, largest), "a model of size " << t.plan.size << " has " << v.size() << " v-grams beside at least " << upto.size() << " symbols after it was loaded");
            largest = 0;
        }
        last = v;
        if (l->get_dict() == loaded) {          // still the dictionary that was loaded
            for (auto& x : before)
                REQUIRE(now[x.first] >= x.second, "v-gram " << show(x.first) << " of the loaded dictionary had frequency " << x.second << " and has " << now[x.first] << " after more was accepted");
            if (accepted * prob > 4 && start > 0) d.label("loaded dictionary kept for long");
        }
        double c = covered(l->freqs(), alpha);
        REQUIRE(c <= accepted + (relearned ? 0 : start) + 0.5, "the frequencies are of " << c << " symbols, " << accepted << " were accepted since loading and " << start << " before");
        if (accepted * prob < 1) {
            REQUIRE(c == accepted + start, "the frequencies are of " << c << " symbols, " << accepted << " were accepted since loading and " << start << " before");
            REQUIRE(!relearned, "v-grams were learned from " << accepted << " symbols");
            if (accepted > 0) d.label("counting goes on");
        }
        for (int i = 0; i < 2; i++) {
            IntSeq s = gen_text(d, alpha, t.plan.syms, more);
            IntSeq out = l->parse(s);
            Seqs after = l->alphabet();
            for (int id : out) REQUIRE(id >= 0 && id < (int) after.size(), "index " << id << " of " << after.size());
            REQUIRE(concat(after, out) == only(s, known), "parse of " << show(s) << " spells " << show(concat(after, out)));
        }
    }
    if (relearned) d.label("learns after loading");
    if (accepted > 0 && (relearned || !before.empty())) d.nontrivial();
}

// saving and loading between any two steps: twins loaded from the same file learn the same from the same data
PROPERTY(C13, twins, 2500, 50000) {
    Trained t;
    t.plan = gen_model(d);
    auto m = t.plan.stream();
    stream_history(d, *m, t, d.size(5), 1500);
    std::string a = d.tmpfile("a.json"), b = d.tmpfile("b.json"), c = d.tmpfile("c.json");
    m->save(a);
    auto x = Loader::load_int_stream_vgram(a);
    x->save(b);
    auto y = Loader::load_int_stream_vgram(b);
    bool learned = false;
    for (int n = 1 + d.size(4); n > 0; n--) {
        for (auto& s : gen_batch(d, t.plan.syms, 2500)) { x->accept(s); y->accept(s); }
        x->update_dict();
        y->update_dict();
        REQUIRE(x->alphabet() == y->alphabet(), "models of equal files learn " << show(x->alphabet()) << " and " << show(y->alphabet()));
        REQUIRE(x->freqs() == y->freqs(), "models of equal files have frequencies " << show(x->freqs()) << " and " << show(y->freqs()));
        learned |= !vgrams(x->alphabet()).empty();
    }
    x->save(b);
    y->save(c);
    REQUIRE(slurp(b) == slurp(c), "models of equal files are saved differently " << first_difference(slurp(b), slurp(c)));
    if (learned) d.nontrivial();
}

// ------------------------------------------------------------------------------------------------ C26: damaged files

namespace {

template <class F>
bool throws(const F& f) {
    try {
        f();
    } catch (const std::exception&) {
        return true;
    }
    return false;
}
bool load_kind(int kind, const std::string& path, Seqs* alpha = nullptr, std::vector<std::string>* strs = nullptr, IntSeq* freqs = nullptr) {
    return throws([&] {
        if (kind == 0) { auto m = Loader::load_int_stream_vgram(path); if (alpha) { *alpha = m->alphabet(); *freqs = m->freqs(); } }
        else if (kind == 1) { std::unique_ptr<IntVGram> m(Loader::load_int_vgram(path)); if (alpha) { *alpha = m->alphabet(); *freqs = m->freqs(); } }
        else if (kind == 2) { auto m = Loader::load_string_stream_vgram(path); if (alpha) { *strs = m->alphabet(); *freqs = m->freqs(); } }
        else { std::unique_ptr<StringVGram> m(Loader::load_string_vgram(path)); if (alpha) { *strs = m->alphabet(); *freqs = m->freqs(); } }
    });
}

// a model of a kind: 0 integer stream, 1 integer fitted, 2 string stream, 3 string fitted
struct SomeModel {
    std::function<void(const std::string&)> save;
    std::function<std::string()> state;
};
void write(std::ostream& o, const IntSeq& s) {
    for (int x : s) o << x << ' ';
    o << '\n';
}
void write(std::ostream& o, const std::string& s) { o << s << '\n'; }
template <class M>
SomeModel some(std::shared_ptr<M> m) {
    SomeModel r;
    r.save = [m](const std::string& path) { m->save(path); };
    r.state = [m] {
        std::ostringstream o;
        for (auto& e : m->alphabet()) write(o, e);
        write(o, m->freqs());
        return o.str();
    };
    return r;
}
SomeModel some_model(D& d, int kind) {
    int size = 1 + d.size(60);
    if (kind < 2) {
        ModelPlan p = gen_model(d, kind == 0 ? 2 : 0);
        p.iters = d.size(3);
        if (kind == 0) {
            auto m = p.stream();
            for (auto& s : gen_batch(d, p.syms, 900)) m->accept(s);
            m->update_dict();
            return some(m);
        }
        auto m = p.fit_model();
        srand(d.below(1u << 30));
        m->fit(gen_batch(d, p.syms, 500));
        return some(m);
    }
    bool words = d.chance(1, 2);
    Texts t = gen_texts(d, words);
    auto corpus = gen_corpus(d, t, 600);
    if (kind == 2) {
        std::shared_ptr<StringStreamVGram> m = new_string_stream(size, words);
        for (auto& s : corpus) m->accept(s);
        m->update_dict();
        return some(m);
    }
    std::shared_ptr<StringVGram> m(words ? new StringVGram(size, 1, new WordTokenizer(), 0) : new StringVGram(size, 1, 0));
    srand(d.below(1u << 30));
    m->fit(corpus);
    return some(m);
}
void save_some(D& d, int kind, const std::string& path) { some_model(d, kind).save(path); }

}  // namespace

// the process, or the disk, gave out while the file was being written
PROPERTY(C26, truncated, 1500, 30000) {
    int kind = (int) d.below(4);
    std::string a = d.tmpfile("a.json"), b = d.tmpfile("b.json");
    save_some(d, kind, a);
    std::string whole = slurp(a);
    size_t body = whole.find_last_not_of(" \n") + 1;
    NOTE("kind " << kind << ", a file of " << whole.size() << " bytes");
    std::set<size_t> cuts;
    if (body <= 250) for (size_t i = 0; i < body; i++) cuts.insert(i);
    else {
        for (int i = 0; i < 40; i++) cuts.insert(d.below((uint32_t) body));
        for (size_t i = 1; i <= 40; i++) cuts.insert(body - i);
        for (size_t i = 0; i < 20; i++) cuts.insert(i);
    }
    for (size_t cut : cuts) {
        spit(b, whole.substr(0, cut));
        REQUIRE(load_kind(kind, b), "a file of " << body << " bytes cut after " << cut << " is loaded: " << quoted(whole.substr(cut > 60 ? cut - 60 : 0, std::min<size_t>(cut, 60))));
    }
    REQUIRE(!load_kind(kind, a), "the whole file is not loaded");
    if (cuts.size() > 20) d.nontrivial();
}

// a field lost or of another type, another kind of model, or no model at all
PROPERTY(C26, foreign, 9000, 180000) {
    int kind = (int) d.below(4);
    std::string a = d.tmpfile("a.json"), b = d.tmpfile("b.json");
    save_some(d, kind, a);
    std::string whole = slurp(a);
    Js top = JsReader(whole).read();
    int how = d.weighted({3, 3, 1, 1, 1});
    if (how == 0) {
        std::vector<std::string> keys = {"size", "min_prob", "coder", "alphabet"};
        if (kind % 2) { keys.push_back("fitted"); keys.push_back("freqs_computed"); }
        std::string key = d.pick(keys);
        size_t at = whole.find("\n  \"" + key + "\":");
        REQUIRE(at != std::string::npos, "there is no " << key);
        std::string bad = whole;
        if (d.chance(1, 2)) {
            bad.replace(at + 4, key.size(), std::string(key.size(), 'z'));        // the field is not there
            NOTE("no " << key);
        } else {
            size_t from = at + 4 + key.size() + 2, to = bad.find("\n  \"", from);  // up to the next field
            if (to == std::string::npos) to = bad.rfind("\n}");
            else to = bad.rfind(',', to);
            static const std::vector<std::string> wrong = {"\"x\"", "{\"x\": []}", "[\"x\"]"};
            bad.replace(from, to - from, " " + d.pick(wrong));
            NOTE(key << " is of another type");
        }
        spit(b, bad);
        REQUIRE(load_kind(kind, b), "a file with a bad " << key << " is loaded");
        d.nontrivial();
    } else if (how == 1 && !top.find("alphabet")->items.empty()) {
        std::vector<std::string> keys = {"freq", "vec"};
        bool has_single = false;
        for (auto& e : top.find("alphabet")->items) has_single |= e.find("vec")->items.size() == 1;
        std::vector<size_t> places;
        std::string key = d.pick(keys);
        for (size_t at = whole.find("\n      \"" + key + "\":"); at != std::string::npos; at = whole.find("\n      \"" + key + "\":", at + 1)) places.push_back(at);
        if (places.empty()) return;
        std::string bad = whole;
        bad.replace(d.pick(places) + 8, key.size(), std::string(key.size(), 'z'));
        NOTE("an entry has no " << key);
        spit(b, bad);
        REQUIRE(load_kind(kind, b), "a file with an entry without " << key << " is loaded");
        d.nontrivial();
    } else if (how == 2) {
        static const std::vector<std::string> junk = {"", " ", "\n", "null", "0", "[]", "{}", "\"alphabet\"", "{\"alphabet\": []}", "not json", "{", "[", std::string("\0\0\0\0", 4), "\xff\xfe{}", "<xml/>"};
        std::string s = d.pick(junk);
        NOTE("file " << quoted(s));
        spit(b, s);
        REQUIRE(load_kind(kind, b), "a file of " << quoted(s) << " is loaded");
        std::remove(b.c_str());
        REQUIRE(load_kind(kind, b), "a file which does not exist is loaded");
        d.nontrivial();
    } else if (how == 3) {
        int other = (int) d.below(4);
        NOTE("a file of kind " << kind << " loaded as kind " << other);
        Seqs alpha;
        std::vector<std::string> strs;
        IntSeq freqs;
        bool thrown = load_kind(other, a, &alpha, &strs, &freqs);
        bool empty = top.find("alphabet")->items.empty();
        // what the file does not have cannot be made up
        if (other % 2 && !(kind % 2)) REQUIRE(thrown, "a streaming model is loaded as one which fits");
        if (other >= 2 && kind < 2 && !empty) REQUIRE(thrown, "an integer model is loaded as one of texts");
        if (!thrown) {
            Saved s = read_saved(a);
            REQUIRE(freqs == s.freqs, "frequencies " << show(freqs) << " are not those of the file");
            if (other < 2) REQUIRE(alpha == s.vecs, "alphabet " << show(alpha) << " is not that of the file");
            else REQUIRE(strs == s.texts, "alphabet " << quoted(strs) << " is not that of the file");
        }
        d.nontrivial();
    } else if (how == 4 && kind >= 2) {
        // files were without these fields once
        const Js* words = top.find("words_are_tokens");
        std::vector<std::string> keys = {"coder_text"};
        if (!(words && words->kind == Js::Bool && words->b)) keys.push_back("words_are_tokens");
        std::string old = whole;
        for (auto& key : keys) {
            if (keys.size() > 1 && d.chance(1, 3)) continue;
            size_t at = old.find("\n  \"" + key + "\":");
            if (at == std::string::npos) continue;
            old.replace(at + 4, key.size(), std::string(key.size(), 'z'));
            NOTE("no " << key);
        }
        spit(b, old);
        Seqs unused;
        std::vector<std::string> strs;
        IntSeq freqs;
        REQUIRE(!load_kind(kind, b, &unused, &strs, &freqs), "a file of texts from before there was a coder_text is not loaded");
        Saved s = read_saved(a);
        REQUIRE(freqs == s.freqs, "frequencies " << show(freqs) << " are not those of the file");
        REQUIRE(strs == s.texts, "alphabet " << quoted(strs) << " is not that of the file");
        d.nontrivial();
    }
}

// --------------------------------------------------------------------------------------------- C29: failures of saving

namespace {

// until it ends, files of this process cannot grow beyond so many bytes: a full disk
struct FullDisk {
    rlimit old;
    explicit FullDisk(size_t bytes) {
        signal(SIGXFSZ, SIG_IGN);
        getrlimit(RLIMIT_FSIZE, &old);
        rlimit now = old;
        now.rlim_cur = bytes;
        setrlimit(RLIMIT_FSIZE, &now);
    }
    ~FullDisk() { setrlimit(RLIMIT_FSIZE, &old); }
};
bool exists(const std::string& path) { return access(path.c_str(), F_OK) == 0; }

}  // namespace

// a model is saved whole, or an exception says that it is not; either way it stays what it was and can be saved again
PROPERTY(C29, full_disk, 6000, 120000) {
    int kind = (int) d.below(4);
    std::string good = d.tmpfile("good.json"), bad = d.tmpfile("bad.json"), again = d.tmpfile("again.json");
    SomeModel m = some_model(d, kind);
    std::string before = m.state();
    m.save(good);
    std::string whole = slurp(good);
    int tries = 1 + (int) d.below(6);
    for (int i = 0; i < tries; i++) {
        size_t room = d.chance(1, 4) ? whole.size() - 1 - d.below((uint32_t) std::min<size_t>(whole.size(), 8)) : d.chance(1, 8) ? whole.size() + d.below(3) : d.below((uint32_t) whole.size());
        NOTE("kind " << kind << ", a file of " << whole.size() << " bytes, room for " << room);
        std::remove(bad.c_str());
        bool old = d.chance(1, 4);
        if (old) spit(bad, std::string(d.size(3000), 'x'));
        bool refused;
        {
            FullDisk full(room);
            refused = throws([&] { m.save(bad); });
        }
        if (!refused) REQUIRE(exists(bad) && slurp(bad) == whole, "saving " << whole.size() << " bytes where only " << room << " fit raises no exception");
        else REQUIRE(room < whole.size(), "saving " << whole.size() << " bytes failed although " << room << " fit");
        if (refused) d.nontrivial();
        d.label(refused ? "refused" : "fits");
        REQUIRE(m.state() == before, "saving without room changed the model");
    }
    m.save(again);
    REQUIRE(slurp(again) == whole, "after saving failed, the model is saved as something else: " << first_difference(whole, slurp(again)));
}

PROPERTY(C29, place, 1200, 24000) {
    int kind = (int) d.below(4);
    std::string good = d.tmpfile("good.json"), dir = d.tmpfile("dir"), again = d.tmpfile("again.json");
    SomeModel m = some_model(d, kind);
    std::string before = m.state();
    m.save(good);
    std::string whole = slurp(good);
    mkdir(dir.c_str(), 0700);
    struct { const char* what; std::string path; } places[] = {
        {"a directory", dir}, {"a file in a directory which does not exist", d.tmpfile("no") + "/a.json"},
        {"a file below a file", good + "/a.json"}, {"the empty name", ""}, {"a full device", "/dev/full"},
        {"too long a name", dir + "/" + std::string(300, 'n')}};
    for (auto& p : places) {
        NOTE("kind " << kind << ", to " << p.what);
        REQUIRE(throws([&] { m.save(p.path); }), "saving to " << p.what << " raises no exception");
        REQUIRE(m.state() == before, "saving to " << p.what << " changed the model");
    }
    REQUIRE(slurp(good) == whole, "a file that was saved before changed");
    m.save(again);
    REQUIRE(slurp(again) == whole, "after saving failed, the model is saved as something else: " << first_difference(whole, slurp(again)));
    rmdir(dir.c_str());
    d.nontrivial();
}
