// C22 silence, C34 progress messages, C24 random distributions, C25 the generic encoder.
#include "builder_gen.h"
#include "model_gen.h"
#include "text_gen.h"
#include "fast_random.h"
#include "list_dict.h"
#include "vgram_builders/string_stream_vgram.h"
#include "vgram_builders/string_vgram.h"
#include <fcntl.h>
#include <cmath>
#include <iostream>
#include <sstream>
#include <unistd.h>

namespace {

// everything the process prints while this lives goes to a file
class Capture {
    int out_, err_, fd_;
public:
    explicit Capture(const std::string& path) {
        std::cout.flush(); std::cerr.flush(); std::clog.flush();
        fflush(nullptr);
        out_ = dup(1); err_ = dup(2);
        fd_ = open(path.c_str(), O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0600);
        dup2(fd_, 1); dup2(fd_, 2);
    }
    long size() {
        std::cout.flush(); std::cerr.flush(); std::clog.flush();
        fflush(nullptr);
        return (long) lseek(fd_, 0, SEEK_END);
    }
    std::string head() {
        char buf[200];
        ssize_t n = pread(fd_, buf, sizeof buf, 0);
        return n > 0 ? std::string(buf, (size_t) n) : "";
    }
    std::string text(long from, long to) {
        std::string t((size_t) (to - from), 0);
        ssize_t n = to > from ? pread(fd_, &t[0], t.size(), from) : 0;
        t.resize(n > 0 ? (size_t) n : 0);
        return t;
    }
    ~Capture() {
        size();
        dup2(out_, 1); dup2(err_, 2);
        close(out_); close(err_); close(fd_);
    }
};

}  // namespace

PROPERTY(C22, silent, 4000, 80000) {
    int kind = (int) d.below(5);
    bool learned = false;
    long printed = 0;
    std::string head;
    auto around = [&](const std::function<void()>& f) {
        Capture c(d.tmpfile("out.txt"));
        f();
        printed = c.size();
        head = c.head();
    };
    if (kind == 0) {
        BuilderPlan p = gen_builder(d, 6000);
        around([&] {
            auto b = p.make(0);
            for (auto& s : p.history) b->accept(s);
            IntSeq f;
            auto r = b->result();
            if (r) { b->result_freqs(&f); learned = !vgrams_of(*r).empty(); }
            b->alpha();
            b->code_length();
        });
    } else if (kind == 1) {
        ModelPlan p = gen_model(d, 0);
        Seqs data = gen_batch(d, p.syms, 6000);
        around([&] {
            auto m = p.stream();
            for (auto& s : data) m->accept(s);
            m->update_dict();
            for (auto& s : data) m->parse(s);
            m->save(d.tmpfile("a.json"));
            learned = !vgrams(m->alphabet()).empty();
        });
    } else if (kind == 2) {
        ModelPlan p = gen_model(d, 0);
        p.iters = d.size(20);
        Seqs data = gen_batch(d, p.syms, 6000 / (p.iters + 1) + 30);
        srand(d.below(1u << 30));
        around([&] {
            auto m = p.fit_model();
            m->fit(data);
            m->transform(data);
            m->transform_to_string(data);
            m->fit(data);
            m->save(d.tmpfile("a.json"));
            learned = !vgrams(m->alphabet()).empty();
        });
    } else {
        bool words = d.chance(1, 2);
        Texts t = gen_texts(d, words);
        int size = gen_text_size(d, t), iters = d.size(10);
        auto corpus = gen_corpus(d, t, 5000 / (kind == 4 ? iters + 1 : 1) + 20);
        srand(d.below(1u << 30));
        around([&] {
            if (kind == 3) {
                vgram_core::StringStreamVGram m(size, 0, false, words);
                for (auto& s : corpus) m.accept(s);
                m.update_dict();
                for (auto& s : corpus) m.parse(s);
                m.save(d.tmpfile("a.json"));
                learned = m.alphabet().size() > 3;
            } else {
                std::unique_ptr<vgram_core::StringVGram> m(words ? new vgram_core::StringVGram(size, iters, new WordTokenizer(), 0) : new vgram_core::StringVGram(size, iters, 0));
                m->fit(corpus);
                m->transform(corpus);
                m->save(d.tmpfile("a.json"));
                learned = m->alphabet().size() > 3;
            }
        });
    }
    REQUIRE(printed == 0, "a model which was told to print nothing printed " << printed << " bytes: " << quoted(head));
    if (learned) d.nontrivial();
}

// how much is printed does not change what is learned
PROPERTY(C22, same, 2000, 40000) {
    int verbose = d.range(1, 3);
    NOTE("verbose " << verbose);
    long printed = 0;
    if (d.chance(1, 2)) {
        BuilderPlan p = gen_builder(d, 5000);
        auto a = p.make(0), b = p.make(verbose);
        for (auto& s : p.history) a->accept(s);
        IntSeq fa, fb;
        {
            Capture c(d.tmpfile("out.txt"));
            for (auto& s : p.history) b->accept(s);
            printed = c.size();
        }
        auto ra = a->result(), rb = b->result();
        REQUIRE(!ra == !rb, "one of them has a dictionary");
        if (ra) {
            REQUIRE(ra->alphabet() == rb->alphabet(), "the one which prints learned " << show(rb->alphabet()) << ", the other " << show(ra->alphabet()));
            a->result_freqs(&fa);
            b->result_freqs(&fb);
            REQUIRE(fa == fb, "frequencies differ");
        }
        REQUIRE(a->get_min_probability() == b->get_min_probability(), "minimal probabilities differ");
        double la = a->code_length(), lb = b->code_length();
        REQUIRE(la == lb || (std::isnan(la) && std::isnan(lb)), "code lengths " << la << " and " << lb);
    } else {
        ModelPlan p = gen_model(d, 0);
        p.iters = d.size(20);
        Seqs data = gen_batch(d, p.syms, 6000 / (p.iters + 1) + 30);
        unsigned seed = d.below(1u << 30);
        auto a = p.fit_model();
        srand(seed);
        a->fit(data);
        IntVGram b(p.size, p.iters, verbose);
        srand(seed);
        {
            Capture c(d.tmpfile("out.txt"));
            b.fit(data);
            printed = c.size();
        }
        REQUIRE(a->alphabet() == b.alphabet() && a->freqs() == b.freqs(), "the model which prints learned " << show(b.alphabet()) << ", the other " << show(a->alphabet()));
        REQUIRE(a->transform(data) == b.transform(data), "the models transform differently");
    }
    if (printed) d.nontrivial();
}

// ------------------------------------------------------------------------------------------ C34: what is printed is true

namespace {

// the number which follows `what` in the text; false if the text does not say it
bool said(const std::string& text, const std::string& what, double& value) {
    size_t at = text.find(what);
    if (at == std::string::npos) return false;
    const char* from = text.c_str() + at + what.size();
    char* end;
    value = std::strtod(from, &end);
    return end != from;
}

}  // namespace

PROPERTY(C34, growth, 5000, 100000) {
    BuilderPlan p = gen_builder(d, 5000);
    int singly = d.range(0, 3), verbose = d.range(1, 3);
    NOTE("verbose " << verbose << ", of every sequence " << singly << " symbols singly");
    Seqs history;
    for (auto& s : p.history) {
        history.push_back(s);
        for (int i = 0; i < singly && !s.empty(); i++) history.push_back(IntSeq(1, s[i % s.size()]));
    }
    auto b = p.make(verbose);
    Capture c(d.tmpfile("out.txt"));
    IntSeq base;
    if (p.ctor == 3) base = p.start_freqs;
    std::shared_ptr<IntDict> seen = b->result();
    bool grown_seen = p.ctor == 3;     // the first grown dictionary of a new builder is its result
    int unanswered = 0, exact = 0, rates = 0;
    long printed = c.size();
    for (auto& s : history) {
        IntSeq f;
        b->result_freqs(&f);
        Seqs a = seen->alphabet();
        double minimal = b->get_min_probability();
        if (minimal < 0) minimal = 0.002;
        b->accept(s);
        long now = c.size();
        std::string text = c.text(printed, now);
        printed = now;
        auto result = b->result();
        if (!text.empty()) {
            REQUIRE(unanswered == 0, "a dictionary was said to grow while a grown one is counted in: " << quoted(text));
            unanswered++;
            double size, rate, prob;
            if (said(text, "minimal probability:", prob))
                REQUIRE(std::fabs(prob - minimal) <= 1e-5 * minimal, "the minimal probability is " << minimal << ", and what is printed is " << quoted(text));
            bool known = s.size() == 1 && std::find(a.begin(), a.end(), s) != a.end();
            if (said(text, "Size:", size)) {
                int entries = s.size() == 1 ? (int) a.size() + !known : result == seen ? result->size() : -1;
                REQUIRE(entries < 0 || size == entries, "the dictionary has " << entries << " entries, and what is printed is " << quoted(text));
            }
            if (s.size() == 1 && said(text, "rate:", rate)) {
                double uses = 0, sum = 0, symbols = 0;
                if (!known) { a.push_back(s); f.resize(a.size(), 0); f.back() = 0; }
                bool own = false;
                for (size_t i = 0; i < a.size(); i++) {
                    double n = i < f.size() ? f[i] - (i < base.size() ? base[i] : 0) : 0;
                    if (a[i] == s && !own) { n++; own = true; }
                    REQUIRE(n >= 0, "an entry has been used " << n << " times");
                    if (n > 0) sum += n * std::log2(n);
                    uses += n;
                    symbols += n * (double) a[i].size();
                }
                double bytes = (uses * std::log2(uses) - sum) / 8 / symbols;
                REQUIRE(std::fabs(rate - bytes) <= 1e-5 * bytes + 1e-9, "the code of " << symbols << " symbols in " << uses << " parts has " << bytes <<
                        " bytes for a symbol, and what is printed is " << quoted(text));
                exact++;
                if (bytes > 0 && symbols > uses) rates++;
            }
            if (!grown_seen) { grown_seen = true; REQUIRE(result != seen || p.ctor == 3, "a dictionary was said to grow and has not"); unanswered = 1; seen = result; base.clear(); continue; }
        }
        if (result != seen) {
            REQUIRE(unanswered == 1, "a dictionary has grown and was reduced, and nothing was printed");
            unanswered = 0;
            base.clear();
            seen = result;
        }
    }
    if (exact) d.label("rate known");
    if (rates) d.label("rate of a dictionary with v-grams known");
    if (exact > 1) d.nontrivial();
}

// one entry has been used a hundred thousand times
PROPERTY(C34, many_uses, 60, 1200) {
    int k = d.range(1, 6);
    IntSeq syms = gen_symbols(d, k), had;
    Seqs start;
    for (int x : syms) start.push_back(IntSeq(1, x));
    std::sort(start.begin(), start.end());
    for (int n = d.size(4); n > 0; n--) {
        IntSeq e;
        for (int i = d.range(2, 5); i > 0; i--) e.push_back(d.pick(syms));
        if (std::find(start.begin(), start.end(), e) == start.end()) start.push_back(e);
    }
    std::sort(start.begin(), start.end());
    IntDictImpl dict(start);
    double wait = d.chance(1, 2) ? d.range(2000, 400000) : 2000 + d.size(100000), prob = -std::log(0.1) / (wait + 0.5);
    int size = (int) start.size() + d.range(0, 20);
    NOTE("size " << size << " start " << show(start) << " minimal probability " << prob << ", enough after " << wait);
    had.assign(start.size(), 0);
    IntVGramBuilderImpl b(dict, had, start, prob, d.range(1, 3), size);
    uint32_t state = d.below(1u << 30), rare = d.range(2, 40);
    Seqs parts(50);
    for (auto& s : parts)
        for (int i = 0; i < 20; i++) {
            state = state * 1664525u + 1013904223u;
            s.push_back(syms[(state >> 8) % rare ? 0 : (state >> 16) % k]);
        }
    auto uses = [&] (IntSeq& f) { f.clear(); b.result_freqs(&f); return std::accumulate(f.begin(), f.end(), 0.0); };
    IntSeq f;
    double now = 0;
    Capture c(d.tmpfile("out.txt"));
    for (size_t n = 0; now + 20 <= wait; n++) {
        b.accept(parts[n % parts.size()]);
        now += 20;                              // at most
        if (now + 20 > wait) now = uses(f);     // v-grams are used as one
    }
    for (int n = 0; c.size() == 0 && n < 50; n++) {
        uses(f);
        b.accept(IntSeq(1, syms[0]));
    }
    std::string text = c.text(0, c.size());
    REQUIRE(!text.empty(), "after " << now << " uses nothing was said of " << wait);
    double sum = 0, symbols = 0, most = 0, rate, size_said, p;
    now = 0;
    for (size_t i = 0; i < start.size(); i++) {
        double n = f[i] + (start[i] == IntSeq(1, syms[0]));
        if (n > 0) sum += n * std::log2(n);
        now += n;
        symbols += n * (double) start[i].size();
        most = std::max(most, n);
    }
    if (said(text, "Size:", size_said)) REQUIRE(size_said == start.size(), "the dictionary has " << start.size() << " entries, and what is printed is " << quoted(text));
    if (said(text, "minimal probability:", p)) REQUIRE(std::fabs(p - prob) <= 1e-5 * prob, "the minimal probability is " << prob << ", and what is printed is " << quoted(text));
    if (said(text, "rate:", rate)) {
        double want = (now * std::log2(now) - sum) / 8 / symbols;
        REQUIRE(std::fabs(rate - want) <= 1e-5 * want + 1e-9, "the code has " << want << " bytes per symbol, and what is printed is " << quoted(text));
        if (most > 10000) d.nontrivial();
        if (most > 100000) d.label("an entry with more than 100,000 uses");
    }
}

PROPERTY(C34, fit, 1000, 20000) {
    ModelPlan p = gen_model(d, 0);
    p.iters = d.size(12);
    Seqs data = gen_batch(d, p.syms, 3000 / (p.iters + 1) + 30);
    IntVGram m(p.size, p.iters, d.range(1, 2));
    srand(d.below(1u << 30));
    std::string text;
    {
        Capture c(d.tmpfile("out.txt"));
        m.fit(data);
        text = c.text(0, c.size());
    }
    int n = 0;
    std::istringstream lines(text);
    for (std::string line; std::getline(lines, line); ) {
        if (line.find("iteration") == std::string::npos) continue;
        REQUIRE(std::atoi(line.c_str()) == n, "iteration " << n << " was announced as " << quoted(line));
        n++;
    }
    REQUIRE(n == p.iters, p.iters << " iterations were made and " << n << " announced");
    if (n > 1) d.nontrivial();
}

// ------------------------------------------------------------------------------------------ C24: Dirichlet distribution

PROPERTY(C24, simplex, 240000, 4800000) {
    int n = d.chance(1, 50) ? 41 + d.size(4000) : 1 + d.size(40);
    std::vector<double> params;
    int style = d.weighted({3, 2, 2, 2});
    for (int i = 0; i < n; i++)
        params.push_back(style == 0 ? 1.0 : style == 1 ? 0.2 + d.below(100) / 10.0 : style == 2 ? 1 + d.size(100000) : 2e6 * (1 + d.below(50)));
    if (d.chance(1, 8)) for (auto& x : params) x *= 0.25;
    std::ostringstream text;
    for (double x : params) text << " " << x;
    NOTE("parameters" << text.str());
    int extra = d.chance(1, 4) ? 1 + d.size(3) : 0;
    std::vector<double> out(n + extra, -7), again(n, 3);
    std::vector<double> copy = params;
    next_dirichlet(params, &out);
    REQUIRE(params == copy, "the parameters were changed");
    double sum = 0, total = 0;
    for (int i = 0; i < n; i++) {
        REQUIRE(std::isfinite(out[i]) && out[i] >= 0 && out[i] <= 1 + 1e-12, "probability " << i << " is " << out[i]);
        sum += out[i];
        total += params[i];
    }
    if (n > 1000) d.label("over 1000 parameters");
    REQUIRE(std::fabs(sum - 1) < 1e-9, "the probabilities add up to " << sum);
    for (int i = n; i < n + extra; i++) REQUIRE(out[i] == -7, "something was written beyond the probabilities");
    next_dirichlet(params, &again);
    REQUIRE(std::equal(again.begin(), again.end(), out.begin()), "the same parameters give other probabilities");
    if (style == 3) {
        // so concentrated that the sample is its mean
        double scale = total / n;
        if (*std::min_element(params.begin(), params.end()) > 1e5)
            for (int i = 0; i < n; i++) {
                double mean = params[i] / total, sd = std::sqrt(mean * (1 - mean) / (total + 1));
                REQUIRE(std::fabs(out[i] - mean) <= 8 * sd + 1e-12, "probability " << i << " is " << out[i] << ", its mean is " << mean << " and its deviation " << sd << " at scale " << scale);
            }
        d.label("concentrated");
    }
    if (n > 1) d.nontrivial();
}

// ----------------------------------------------------------------------------------------------------- C25: encoder

namespace {

template <class T>
void encoder_model(D& d, const std::vector<T>& pool) {
    Encoder<T> e;
    std::map<T, int> ids;
    IntSeq out, want;
    for (int ops = 1 + d.size(12); ops > 0; ops--) {
        std::vector<T> in;
        for (int n = d.size(20); n > 0; n--) in.push_back(d.pick(pool));
        if (d.chance(1, 3)) { out.clear(); want.clear(); }
        for (auto& x : in) {
            auto at = ids.emplace(x, (int) ids.size()).first;
            want.push_back(at->second);
        }
        std::vector<T> copy = in;
        e.encode(in, &out);
        REQUIRE(in == copy, "the input was changed");
        REQUIRE(out == want, "codes " << show(out) << " instead of " << show(want));
        REQUIRE(e.size() == (int) ids.size(), "size is " << e.size() << ", " << ids.size() << " elements were met");
    }
    if (ids.size() > 1) d.nontrivial();
}

}  // namespace

PROPERTY(C25, encoder, 160000, 3200000) {
    int kind = (int) d.below(3);
    if (kind == 0) {
        encoder_model<int>(d, gen_symbols(d, 1 + d.size(60)));
    } else if (kind == 1) {
        Texts t = gen_texts(d, d.chance(1, 2));
        encoder_model<std::string>(d, t.pool);
    } else {
        std::vector<double> pool;
        for (int n = 1 + d.size(30); n > 0; n--) pool.push_back(d.range(-20, 20) / 4.0);
        encoder_model<double>(d, pool);
    }
}
