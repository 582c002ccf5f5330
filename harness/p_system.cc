// What holds for models as objects in a program: C30 memory, C31 parallel use, C32 dictionaries which were handed out.
#include "builder_gen.h"
#include "model_gen.h"
#include "text_gen.h"
#include "saver.h"
#include "loader.h"
#include <functional>
#include <pthread.h>
#include <thread>

using vgram_core::Loader;
using vgram_core::StringStreamVGram;
using vgram_core::StringVGram;

#if defined(__SANITIZE_ADDRESS__)
#define HAVE_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif
#ifdef HAVE_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t held() { return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t held() { return 0; }
#endif

namespace {

// something which uses the library, prepared in advance: running it draws nothing and leaves its observations in a text
struct Program {
    std::vector<std::function<void(std::ostream&)>> steps;
    bool learns = false;
};

void put(std::ostream& o, const IntSeq& s) { for (int x : s) o << x << ' '; o << '\n'; }
void put(std::ostream& o, const std::vector<IntSeq>& v) { for (auto& s : v) put(o, s); o << '\n'; }
void put(std::ostream& o, const std::vector<std::string>& v) { for (auto& s : v) o << s << '\n'; o << '\n'; }

struct Session {                 // the models of one run of a program
    std::shared_ptr<IntStreamVGram> stream;
    std::shared_ptr<IntVGram> fitted;
    std::shared_ptr<StringStreamVGram> text;
    std::shared_ptr<StringVGram> text_fitted;
    std::shared_ptr<IntVGramBuilder> builder;
};
using Step = std::function<void(Session&, std::ostream&)>;

// kind: 0 integer stream, 1 fitted, 2 text stream, 3 text fitted, 4 builder; files are written below dir
std::vector<Step> gen_steps(D& d, int kind, const std::string& dir, int budget, bool with_fit = true) {
    std::vector<Step> steps;
    if (kind == 4) {
        BuilderPlan p = gen_builder(d, budget);
        steps.push_back([p](Session& s, std::ostream&) { s.builder = p.make(0); });
        int every = 1 + d.size(40);
        steps.push_back([p, every](Session& s, std::ostream& o) {
            int i = 0;
            for (auto& q : p.history) {
                s.builder->accept(q);
                if (++i % every == 0) {
                    IntSeq f;
                    s.builder->result_freqs(&f);
                    put(o, f);
                    put(o, s.builder->alpha()->alphabet());
                    o << s.builder->code_length() << ' ' << s.builder->get_min_probability() << '\n';
                }
            }
            put(o, s.builder->result()->alphabet());
        });
    } else if (kind == 0) {
        ModelPlan p = gen_model(d);
        steps.push_back([p](Session& s, std::ostream&) { s.stream = p.stream(); });
        Seqs data;
        for (int i = 1 + d.size(4); i > 0; i--) {
            Seqs batch = gen_batch(d, p.syms, budget / 3);
            data.insert(data.end(), batch.begin(), batch.end());
            bool update = d.chance(3, 4);
            IntSeq probe = gen_text(d, p.start, p.syms, data);
            std::string file = d.chance(1, 2) ? dir + "s.json" : "";
            bool loaded = d.chance(1, 2);
            steps.push_back([=](Session& s, std::ostream& o) {
                for (auto& q : batch) s.stream->accept(q);
                if (update) s.stream->update_dict();
                put(o, s.stream->parse(probe));
                put(o, s.stream->alphabet());
                put(o, s.stream->freqs());
                if (file.empty()) return;
                s.stream->save(file);
                auto l = Loader::load_int_stream_vgram(file);
                put(o, l->alphabet());
                if (loaded) s.stream = l;
            });
        }
    } else if (kind == 1) {
        ModelPlan p = gen_model(d, with_fit ? 0 : 1000);
        p.restored |= !with_fit;
        p.iters = 1 + d.size(8);
        Seqs data = gen_batch(d, p.syms, budget / (p.iters + 1) + 30);
        unsigned seed = d.below(1u << 30);
        std::string file = d.chance(1, 2) ? dir + "f.json" : "";
        steps.push_back([=](Session& s, std::ostream& o) {
            s.fitted = p.fit_model();
            if (with_fit) {
                srand(seed);
                s.fitted->fit(data);
            }
            put(o, s.fitted->transform(data));
            put(o, s.fitted->transform_to_string(data));
            put(o, s.fitted->alphabet());
            put(o, s.fitted->freqs());
            if (file.empty()) return;
            s.fitted->save(file);
            std::shared_ptr<IntVGram> l(Loader::load_int_vgram(file));
            put(o, l->transform(data));
        });
    } else {
        bool words = d.chance(1, 2);
        Texts t = gen_texts(d, words);
        auto corpus = gen_corpus(d, t, budget / 2);
        int size = gen_text_size(d, t), iters = 1 + d.size(3);
        unsigned seed = d.below(1u << 30);
        std::string file = d.chance(1, 2) ? dir + "t.json" : "";
        if (kind == 2 || !with_fit) {
            steps.push_back([=](Session& s, std::ostream& o) {
                s.text = std::make_shared<StringStreamVGram>(size, 0, false, words);
                for (auto& q : corpus) s.text->accept(q);
                s.text->update_dict();
                for (size_t i = 0; i < corpus.size() && i < 20; i++) put(o, s.text->parse(corpus[i]));
                put(o, s.text->alphabet());
                put(o, s.text->freqs());
                if (file.empty()) return;
                s.text->save(file);
                auto l = Loader::load_string_stream_vgram(file);
                put(o, l->alphabet());
            });
        } else {
            steps.push_back([=](Session& s, std::ostream& o) {
                s.text_fitted.reset(words ? new StringVGram(size, iters, new WordTokenizer(), 0) : new StringVGram(size, iters, 0));
                srand(seed);
                s.text_fitted->fit(corpus);
                put(o, s.text_fitted->transform(corpus));
                put(o, s.text_fitted->alphabet());
                put(o, s.text_fitted->freqs());
                if (file.empty()) return;
                s.text_fitted->save(file);
                std::unique_ptr<StringVGram> l(Loader::load_string_vgram(file));
                put(o, l->alphabet());
            });
        }
    }
    return steps;
}

std::string run_all(const std::vector<Step>& steps) {
    Session s;
    std::ostringstream o;
    for (auto& f : steps) f(s, o);
    return o.str();
}

}  // namespace

// --------------------------------------------------------------------------------------------------------- C30: memory

// When the last reference to a model is gone, nothing of it is left; also when files were refused and saving failed.
PROPERTY(C30, released, 3000, 60000) {
    int kind = (int) d.below(5);
    std::string dir = d.tmpfile("");
    auto steps = gen_steps(d, kind, dir, 3000);
    bool damaged = d.chance(1, 4);
    std::string file = dir + "x.json";
    if (damaged) {
        int how = (int) d.below(4), size = 1 + d.size(30);
        uint32_t cut = d.below(1u << 20);
        steps.push_back([=](Session&, std::ostream& o) {
            StringStreamVGram m(size, 0, false, false);
            for (int i = 0; i < 30; i++) m.accept("a b c ab abc");
            m.update_dict();
            m.save(file);
            std::ostringstream text;
            text << std::ifstream(file).rdbuf();
            std::ofstream(file) << text.str().substr(0, cut % text.str().size());
            try {
                if (how == 0) Loader::load_int_stream_vgram(file);
                else if (how == 1) delete Loader::load_int_vgram(file);
                else if (how == 2) Loader::load_string_stream_vgram(file);
                else delete Loader::load_string_vgram(file);
                o << "loaded\n";
            } catch (const std::exception& e) { o << "refused\n"; }
            try { m.save(dir + "no/such/file"); } catch (const std::exception& e) {}
            try { StringStreamVGram bad(10, 0, true, true); } catch (const std::exception& e) {}
        });
        d.label("with refused files");
    }
    static const char* kinds[] = {"integer stream", "integer fitted", "text stream", "text fitted", "builder"};
    d.label(kinds[kind]);
    NOTE("a program with a model: " << kinds[kind] << (damaged ? " and damaged files" : ""));
    size_t size = run_all(steps).size();     // whatever is made once in a process has been made now
    run_all(steps);
    size_t before = held(), after;
    {
        run_all(steps);
        after = held();
    }
    REQUIRE(after <= before, after - before << " bytes are still held when the model is gone");
    if (size > 200) d.nontrivial();
}

// A stream may be endless: what a model holds is limited by its size and its symbols, not by what it has read.
PROPERTY(C30, bounded, 64, 1280) {
    int k = d.range(2, 6);
    IntSeq syms = gen_symbols(d, k);
    TextSource t = gen_source(d, syms);
    int size = k + d.range(0, 12), kind = (int) d.below(3);
    NOTE("size " << size << ", " << show(t));
    size_t empty = held();
    long read = 0, first = 0, later = 0;
    {
        std::shared_ptr<IntStreamVGram> m;
        std::shared_ptr<StringStreamVGram> s;
        std::shared_ptr<IntVGramBuilder> b;
        if (kind == 0) m = std::make_shared<IntStreamVGram>(size, 0);
        else if (kind == 1) s = std::make_shared<StringStreamVGram>(size, 0, false, false);
        else b.reset(new IntVGramBuilderImpl(size, 0));
        std::map<int, char> letter;
        for (int x : syms) { char c = (char) ('a' + letter.size()); letter[x] = c; }
        int every = 1 + (int) d.below(500);
        for (int i = 0; read < 150000; i++) {
            IntSeq q = t.seq(1 + (int) t.next(60));
            read += (long) q.size();
            if (kind == 0) {
                m->accept(q);
                m->parse(q);
                if (i % every == 0) m->update_dict();
            } else if (kind == 1) {
                std::string text;
                for (int x : q) text += letter[x];
                s->accept(text);
                if (i % 16 == 0) s->parse(text);
                if (i % every == 0) s->update_dict();
            } else {
                b->accept(q);
                if (i % every == 0) { b->alpha(); b->result(); }
            }
            if (i % 16 == 0) {
                long now = (long) held() - (long) empty;
                (read <= 50000 ? first : later) = std::max(read <= 50000 ? first : later, now);
            }
        }
    }
    REQUIRE(later <= first + 60000, "at most " << first << " bytes are held while 50000 symbols are read, " << later << " while 100000 more of the same source are");
    d.nontrivial();
}

// ------------------------------------------------------------------------------------------- C31: models side by side

// Models which share nothing are used in different threads at the same time as if each were alone.  This check is built
// with the thread sanitizer: an access to anything shared fails the case even when the results are the same by luck.
PROPERTY(C31, threads, 600, 12000) {
    int n = 2 + (int) d.below(3);
    std::vector<std::vector<Step>> programs;
    for (int i = 0; i < n; i++) {
        std::string dir = d.tmpfile("") + std::to_string(i);
        // fitting draws from rand(), which all threads share
        int kind = d.weighted({4, 1, 3, 0, 3});
        if (i > 0 && d.chance(1, 4)) programs.push_back(gen_steps(d, 2, dir, 2500, false));
        else programs.push_back(gen_steps(d, kind, dir, 2500, false));
    }
    std::vector<std::string> alone, together(n);
    for (auto& p : programs) alone.push_back(run_all(p));
    pthread_barrier_t start;
    pthread_barrier_init(&start, nullptr, (unsigned) n);
    std::vector<std::string> broken(n);
    std::vector<std::thread> threads;
    for (int i = 0; i < n; i++)
        threads.emplace_back([&, i] {
            pthread_barrier_wait(&start);
            try {
                together[i] = run_all(programs[i]);
            } catch (const pbt::Failure& f) { broken[i] = f.msg;
            } catch (const std::exception& e) { broken[i] = e.what(); }
        });
    for (auto& t : threads) t.join();
    pthread_barrier_destroy(&start);
    size_t said = 0;
    for (int i = 0; i < n; i++) {
        REQUIRE(broken[i].empty(), "in parallel, program " << i << " failed: " << broken[i]);
        size_t at = 0;
        while (at < alone[i].size() && at < together[i].size() && alone[i][at] == together[i][at]) at++;
        size_t from = at > 60 ? at - 60 : 0;
        REQUIRE(alone[i] == together[i], "alone, program " << i << " gives ..." << quoted(alone[i].substr(from, 120), 200) << ", in parallel ..." << quoted(together[i].substr(from, 120), 200));
        said += alone[i].size() > 200;
    }
    if (said > 1) d.nontrivial();
}

// ---------------------------------------------------------------------------------- C32: what was handed out stays so

namespace {

struct Handed {
    std::shared_ptr<IntDict> dict;
    Seqs entries;
    bool copy;                 // nothing can be added either
    std::vector<std::pair<IntSeq, IntSeq>> greedy;   // texts of its symbols and their segmentation
};

void still(const Handed& h, const char* what) {
    Seqs now;
    for (int i = 0; i < h.dict->size(); i++) now.push_back(h.dict->get(i));
    REQUIRE(now == h.dict->alphabet(), what << ": size, entries and alphabet of a dictionary differ");
    REQUIRE(now.size() >= h.entries.size() && std::equal(h.entries.begin(), h.entries.end(), now.begin()),
            what << ": a dictionary handed out changed from " << show(h.entries) << " to " << show(now));
    REQUIRE(!h.copy || now.size() == h.entries.size(), what << ": a copy of a dictionary changed from " << show(h.entries) << " to " << show(now));
    for (size_t i = h.entries.size(); i < now.size(); i++)
        REQUIRE(now[i].size() == 1, what << ": " << show(now[i]) << " was added to a dictionary handed out");
    for (auto& g : h.greedy) {
        IntSeq out;
        h.dict->parse(g.first, &out);
        REQUIRE(out == g.second, what << ": a dictionary handed out segments " << show(g.first) << " into " << show(out) << ", not into " << show(g.second) << " any more");
    }
}

Handed hand(D& d, std::shared_ptr<IntDict> dict, bool copy) {
    Handed h{dict, dict->alphabet(), copy, {}};
    for (int i = d.size(3); i > 0 && !h.entries.empty(); i--) {
        IntSeq s, out;
        for (int n = 1 + d.size(5); n > 0; n--) {
            const IntSeq& e = d.pick(h.entries);
            s.insert(s.end(), e.begin(), e.end());
        }
        std::set<int> known;
        for (auto& e : h.entries) if (e.size() == 1) known.insert(e[0]);
        s = only(s, known);
        h.dict->parse(s, &out);
        h.greedy.push_back({s, out});
    }
    return h;
}

}  // namespace

PROPERTY(C32, builder, 3000, 60000) {
    BuilderPlan p = gen_builder(d, 6000);
    auto b = p.make(0);
    std::vector<Handed> out;
    std::set<IntSeq> first, last;
    size_t at = 0;
    int looks = 1 + d.size(8);
    for (int i = 0; i < looks; i++) {
        out.push_back(hand(d, b->result(), false));
        out.push_back(hand(d, b->alpha(), true));
        if (i == 0) first = vgrams(out[0].entries);
        size_t to = i + 1 == looks ? p.history.size() : at + d.below((uint32_t) (p.history.size() - at) + 1);
        for (; at < to; at++) b->accept(p.history[at]);
        for (auto& h : out) still(h, "while training goes on");
    }
    last = vgrams(b->result()->alphabet());
    // and when the builder is gone
    b.reset();
    for (auto& h : out) still(h, "without its builder");
    if (first != last) d.nontrivial();
}

PROPERTY(C32, model, 3000, 60000) {
    ModelPlan p = gen_model(d);
    auto m = p.stream();
    std::vector<Handed> out;
    Seqs data;
    bool changed = false;
    int ops = 2 + d.size(10);
    for (int i = 0; i < ops; i++) {
        int kind = d.weighted({3, 3, 1, 1});
        if (kind == 0) {
            out.push_back(hand(d, m->get_dict(), false));
        } else if (kind == 1) {
            Seqs before = m->alphabet();
            for (auto& s : gen_batch(d, p.syms, 1500)) { m->accept(s); data.push_back(s); }
            // the model works with the dictionary it took over last
            Seqs now = m->alphabet();
            REQUIRE(now.size() >= before.size() && std::equal(before.begin(), before.end(), now.begin()), "accepting changed the alphabet from " << show(before) << " to " << show(now));
            for (size_t j = before.size(); j < now.size(); j++) REQUIRE(now[j].size() == 1, "accepting added " << show(now[j]) << " to the alphabet");
        } else if (kind == 2) {
            std::set<IntSeq> before = vgrams(m->alphabet());
            m->update_dict();
            changed |= vgrams(m->alphabet()) != before && !out.empty();
        } else {
            m->parse(gen_text(d, m->alphabet(), p.syms, data));
        }
        for (auto& h : out) still(h, "while the model is used");
    }
    m.reset();
    for (auto& h : out) still(h, "without its model");
    if (changed) d.nontrivial();
}
