// C35: the Python module, built with a stand-in for pybind11, against the classes it wraps.
#include <pybind11/pybind11.h>
#include "model_gen.h"
#include "text_gen.h"
#include <fcntl.h>
#include <unistd.h>
#include "src/main/cpp/bind_vgram.cc"

using vgram_core::Loader;
using pybind11::Value;
using Strings = std::vector<std::string>;

namespace {

// signals: reported at the poll with this number, once or from then on
struct Signals {
    long left = -1, polls = 0;
    bool once = false;
    bool poll() {
        polls++;
        if (left < 0) return false;
        if (left > 0) { left--; return false; }
        if (once) left = -1;
        return true;
    }
} python_signals;

class RefInt : public IntVGram {
public:
    mutable Signals signals;
    RefInt(int size, int iters, int verbose) : IntVGram(size, iters, verbose) {}
    explicit RefInt(const IntVGram& m) : IntVGram(m) {}
    bool isTerminated() const override { return signals.poll(); }
};

pybind11::Class& module_class(const std::string& name) {
    static bool loaded = false;
    if (!loaded) {
        static pybind11::module_ m;
        pybind_module_vgram(m);
        loaded = true;
    }
    auto c = pybind11::classes().find(name);
    REQUIRE(c != pybind11::classes().end(), "the module has no class " << name);
    return c->second;
}

using Values = std::vector<Value>;
using Named = std::map<std::string, Value>;

// what Python does with a call: the first definition which takes the arguments
Value call(std::map<std::string, std::vector<pybind11::Function>>& of, const std::string& name, void* self, const Values& values, const Named& named) {
    auto found = of.find(name);
    REQUIRE(found != of.end(), "the module has no " << name);
    for (auto& f : found->second) {
        Values all = values;
        bool ok = all.size() <= f.takes;
        size_t used = 0;
        while (ok && all.size() < f.takes) {
            size_t i = all.size();
            if (i < f.names.size() && named.count(f.names[i])) { all.push_back(named.at(f.names[i])); used++; }
            else if (i + f.defaults.size() >= f.takes && f.names.size() == f.takes) all.push_back(f.defaults[i + f.defaults.size() - f.takes]);
            else ok = false;
        }
        if (!ok || used != named.size()) continue;
        try { return f.call(self, all); }
        catch (const std::invalid_argument& e) { if (std::string(e.what()) != "TypeError") throw; }
    }
    pbt::fail("TypeError: " + name + " does not take these arguments");
}

// an object in Python
struct Object {
    pybind11::Class& c;
    Value v;
    Object(pybind11::Class& c, Value v) : c(c), v(std::move(v)) {}
    Object(const Object&) = delete;
    ~Object() { if (!v.owned && !v.none()) c.destroy(v.p.get()); }
    Value operator()(const std::string& name, const Values& values = {}, const Named& named = {}) { return call(c.methods, name, v.p.get(), values, named); }
};
std::unique_ptr<Object> make(const std::string& name, const Values& values, const Named& named = {}) {
    auto& c = module_class(name);
    return std::unique_ptr<Object>(new Object(c, call(c.methods, "__init__", nullptr, values, named)));
}
std::unique_ptr<Object> load(const std::string& name, const std::string& file) {
    auto& c = module_class(name);
    try { return std::unique_ptr<Object>(new Object(c, call(c.statics, "load", nullptr, {Value::of(file)}, {}))); }
    catch (const std::logic_error& e) { pbt::fail(name + ".load: " + e.what()); }
}

std::string slurp(const std::string& path) {
    std::ifstream in(path, std::ios::binary);
    REQUIRE((bool) in, "nothing was saved to " << path);
    std::ostringstream o;
    o << in.rdbuf();
    return o.str();
}

// what std::cout gets while this lives
struct Printed {
    std::ostringstream text;
    std::streambuf* old;
    Printed() : old(std::cout.rdbuf(text.rdbuf())) {}
    ~Printed() { std::cout.rdbuf(old); }
};

// saves an object under a name or the default one, and gives the file
std::string saved(D& d, Object& o, bool by_default) {
    std::string path = d.tmpfile("saved.json");
    if (!by_default) {
        std::remove(path.c_str());
        d.chance(1, 2) ? o("save", {Value::of(path)}) : o("save", {}, {{"filename", Value::of(path)}});
        return slurp(path);
    }
    int here = open(".", O_RDONLY | O_DIRECTORY);
    std::string dir = path.substr(0, path.rfind('/'));
    std::string name = dir + "/vgram_dict.json";
    std::remove(name.c_str());
    REQUIRE(here >= 0 && chdir(dir.c_str()) == 0, "scratch directory");
    struct Back { int fd; ~Back() { if (fchdir(fd)) abort(); close(fd); } } back{here};
    o("save");
    std::string text = slurp(name);
    std::remove(name.c_str());
    return text;
}
template <class M>
void same_state(D& d, Object& o, M& ref, const char* when) {
    auto a = o("alphabet").get<decltype(ref.alphabet())>();
    REQUIRE(a == ref.alphabet(), when << ": the alphabet in Python has " << a.size() << " entries, and the library's is not it, with " << ref.alphabet().size());
    IntSeq f = o("freqs").get<IntSeq>();
    REQUIRE(f == ref.freqs(), when << ": frequencies in Python are " << show(f) << ", the library's " << show(ref.freqs()));
}
template <class M>
void same_file(D& d, Object& o, M& ref) {
    bool by_default = d.chance(1, 3);
    std::string a = saved(d, o, by_default), path = d.tmpfile("ref.json");
    ref.save(path);
    std::string b = slurp(path);
    REQUIRE(a == b, "saved by Python: " << quoted(a, 300) << ", by the library: " << quoted(b, 300));
    if (by_default) d.label("saved under the default name");
}

// size and verbosity by position, by name or by default
struct Made { Values values; Named named; int size = 10000, iters = 20, verbose = 0; };
Made arguments(D& d, int size, bool iters, int iter_num) {
    Made m;
    bool by_name = d.chance(1, 3);
    int given = d.weighted({1, 2, 3, 2});
    if (given >= 1) {
        m.size = size;
        if (by_name) m.named["size"] = Value::of(size); else m.values.push_back(Value::of(size));
    }
    if (iters && given >= 2) {
        m.iters = iter_num;
        if (by_name) m.named["iter_num"] = Value::of(iter_num); else m.values.push_back(Value::of(iter_num));
    }
    if (given >= (iters ? 3 : 2)) {
        m.verbose = d.range(0, 1);
        if (by_name) m.named["verbose"] = Value::of(m.verbose); else m.values.push_back(Value::of(m.verbose));
    }
    NOTE("made with " << given << " arguments" << (by_name ? " by name" : "") << ": size " << m.size << " iterations " << m.iters << " verbose " << m.verbose);
    if (given == 0) d.label("made without arguments");
    return m;
}

}  // namespace

int PyErr_CheckSignals() { return python_signals.poll() ? -1 : 0; }

PROPERTY(C35, int_stream, 2000, 40000) {
    ModelPlan p = gen_model(d);
    std::unique_ptr<Object> py;
    std::shared_ptr<IntStreamVGram> ref;
    std::string file = d.tmpfile("start.json");
    int verbose = 0;
    python_signals = Signals();
    if (p.restored) {
        Printed quiet;
        p.stream()->save(file);
        py = load("IntStreamVGram", file);
        ref = Loader::load_int_stream_vgram(file);
        verbose = 1;
    } else {
        Made m = arguments(d, p.size, false, 0);
        verbose = m.verbose;
        py = make("IntStreamVGram", m.values, m.named);
        Printed quiet;
        ref = std::make_shared<IntStreamVGram>(m.size, m.verbose);
    }
    Seqs data;
    for (int ops = 1 + d.size(8); ops > 0; ops--) {
        int kind = d.weighted({4, 4, 2, 1, 1});
        Printed out;
        if (kind == 0) {
            for (auto& s : gen_batch(d, p.syms, 1500)) { (*py)("accept", {Value::of(s)}); data.push_back(s); }
            std::string said = out.text.str();
            out.text.str("");
            if (!data.empty()) for (size_t i = 0; i < data.size(); i++) ref->accept(data[i]);
            REQUIRE(said == out.text.str(), "printed " << quoted(said) << " for " << quoted(out.text.str()));
            REQUIRE(verbose || said.empty(), "a silent model printed " << quoted(said));
            data.clear();
        } else if (kind == 1) {
            NOTE("update");
            (*py)("update");
            ref->update_dict();
        } else if (kind == 2) {
            IntSeq s = gen_text(d, ref->alphabet(), p.syms, {});
            IntSeq a = (*py)("parse", {Value::of(s)}).get<IntSeq>(), b = ref->parse(s);
            REQUIRE(a == b, "parse " << show(s) << " in Python: " << show(a) << ", in the library " << show(b));
        } else if (kind == 3) {
            same_file(d, *py, *ref);
        } else {
            NOTE("save and load");
            py = (saved(d, *py, false), load("IntStreamVGram", d.tmpfile("saved.json")));
            ref->save(file);
            ref = Loader::load_int_stream_vgram(file);
            verbose = 1;
            d.label("loaded");
        }
        same_state(d, *py, *ref, "streaming");
    }
    Printed out;
    same_file(d, *py, *ref);
    if (!vgrams(ref->alphabet()).empty()) d.nontrivial();
}

PROPERTY(C35, stream, 1500, 30000) {
    Texts t = gen_texts(d, d.chance(1, 2));
    Made m = arguments(d, gen_text_size(d, t), false, 0);
    bool split = !t.words && d.chance(1, 3);
    if (m.values.size() == 2 && d.chance(1, 2)) { m.values.push_back(Value::of(split)); m.values.push_back(Value::of(t.words)); }
    else {
        if (t.words || d.chance(1, 4)) m.named["words_are_tokens"] = Value::of(t.words);
        if (split || d.chance(1, 4)) m.named["inner_words_split"] = Value::of(split);
    }
    if (split) d.label("texts split at words");
    std::unique_ptr<Object> py = make("StreamVGram", m.values, m.named);
    auto ref = std::make_shared<vgram_core::StringStreamVGram>(m.size, m.verbose, split, t.words);
    std::string file = d.tmpfile("start.json");
    bool learned = false;
    python_signals = Signals();
    for (int ops = 1 + d.size(8); ops > 0; ops--) {
        int kind = d.weighted({4, 4, 2, 1, t.valid ? 1 : 0});
        Printed out;
        if (kind == 0) {
            auto corpus = gen_corpus(d, t, 1500);
            for (auto& s : corpus) (*py)("accept", {Value::of(s)});
            std::string said = out.text.str();
            out.text.str("");
            for (auto& s : corpus) ref->accept(s);
            REQUIRE(said == out.text.str(), "printed " << quoted(said) << " for " << quoted(out.text.str()));
        } else if (kind == 1) {
            (*py)("update");
            ref->update_dict();
        } else if (kind == 2) {
            std::string s = t.one(d, 40);
            Strings a = (*py)("parse", {Value::of(s)}).get<Strings>(), b = ref->parse(s);
            REQUIRE(a == b, "parse " << quoted(s) << " in Python: " << quoted(a) << ", in the library " << quoted(b));
        } else if (kind == 3) {
            if (t.valid) same_file(d, *py, *ref);
        } else {
            NOTE("save and load");
            py = (saved(d, *py, false), load("StreamVGram", d.tmpfile("saved.json")));
            ref->save(file);
            ref = Loader::load_string_stream_vgram(file);
            d.label("loaded");
        }
        same_state(d, *py, *ref, "streaming");
        learned = learned || ref->alphabet().size() > 3;
    }
    if (learned) d.nontrivial();
}

PROPERTY(C35, wrong_arguments, 300, 6000) {
    Values v{Value::of(d.range(1, 100)), Value::of(d.range(0, 2)), Value::of(true), Value::of(true)};
    bool refused = false;
    try { make("StreamVGram", v); } catch (const std::invalid_argument& e) { refused = true; }
    REQUIRE(refused, "a model splits words which are its tokens");
    d.nontrivial();
}

// fitting, with and without a signal
PROPERTY(C35, fitted, 2500, 50000) {
    ModelPlan p = gen_model(d);
    p.iters = d.size(12);
    std::unique_ptr<Object> py;
    std::unique_ptr<RefInt> ref;
    std::string file = d.tmpfile("start.json");
    bool loaded = false;
    python_signals = Signals();
    auto both_loaded = [&](const std::string& a, const std::string& b) {
        py = load("IntVGram", a);
        std::unique_ptr<IntVGram> m(Loader::load_int_vgram(b));
        ref.reset(new RefInt(*m));
        loaded = true;
        d.label("loaded");
    };
    if (p.restored) {
        IntVGram m(p.coder(), p.start_freqs, p.start, p.size, p.min_prob, d.chance(3, 4), d.chance(1, 2));
        m.save(file);
        both_loaded(file, file);
    } else {
        Made m = arguments(d, p.size, true, p.iters);
        py = make("IntVGram", m.values, m.named);
        Printed quiet;
        ref.reset(new RefInt(m.size, m.iters, m.verbose));
        p.iters = m.iters;
    }
    for (int ops = 1 + d.size(4); ops > 0; ops--) {
        int kind = d.weighted({4, 3, 1, 1});
        Printed out;
        long at = d.chance(1, 3) ? d.size(100) : -1;
        bool once = d.chance(1, 2);
        python_signals = Signals();
        ref->signals = Signals();
        python_signals.left = ref->signals.left = at;
        python_signals.once = ref->signals.once = once;
        if (at >= 0) NOTE("signal at poll " << at << (once ? " once" : ""));
        if (kind == 0) {
            Seqs data = gen_batch(d, p.syms, 2000 / (p.iters + 1) + 30);
            unsigned seed = d.below(1u << 30);
            srand(seed);
            Value r = (*py)("fit", {Value::of(data)});
            int next = rand();
            std::string said = out.text.str();
            out.text.str("");
            srand(seed);
            IntVGram* b = ref->fit(data);
            REQUIRE(rand() == next, "fitting in Python drew another number of sequences than the library");
            REQUIRE(r.none() == !b, "fitting in Python was " << (r.none() ? "" : "not ") << "interrupted, in the library it was" << (b ? " not" : ""));
            REQUIRE(r.none() || r.p.get() == py->v.p.get(), "fit does not return its object");
            REQUIRE(said == out.text.str(), "printed " << quoted(said) << " for " << quoted(out.text.str()));
            if (!b) d.label("interrupted");
            if (loaded && at >= 0) d.label("a loaded model gets a signal");
        } else if (kind == 1) {
            Seqs data = gen_batch(d, p.syms, 300);
            Strings a = (*py)("transform", {Value::of(data)}).get<Strings>(), b = ref->transform_to_string(data);
            REQUIRE(a == b, "transform in Python: " << quoted(a) << ", in the library: " << quoted(b));
        } else if (kind == 2) {
            same_file(d, *py, *ref);
        } else {
            NOTE("save and load");
            saved(d, *py, false);
            ref->save(file);
            both_loaded(d.tmpfile("saved.json"), file);
        }
        REQUIRE(python_signals.polls == ref->signals.polls || kind == 3, "signals were asked for " << python_signals.polls << " times in Python, " << ref->signals.polls << " times in the library");
        python_signals = Signals();
        same_state(d, *py, *ref, "fitted");
    }
    Printed out;
    same_file(d, *py, *ref);
    if (!vgrams(ref->alphabet()).empty() || loaded) d.nontrivial();
}

PROPERTY(C35, texts, 1500, 30000) {
    Texts t = gen_texts(d, false);
    int iters = d.size(10);
    Made m = arguments(d, gen_text_size(d, t), true, iters);
    std::unique_ptr<Object> py = make("VGram", m.values, m.named);
    std::unique_ptr<vgram_core::StringVGram> ref;
    {
        Printed quiet;
        ref.reset(new vgram_core::StringVGram(m.size, m.iters, m.verbose));
    }
    std::string file = d.tmpfile("start.json");
    python_signals = Signals();
    for (int ops = 1 + d.size(4); ops > 0; ops--) {
        int kind = d.weighted({4, 3, 1, t.valid ? 1 : 0});
        Printed out;
        auto corpus = gen_corpus(d, t, kind == 0 ? 2000 / (m.iters + 1) + 30 : 300);
        if (kind == 0) {
            unsigned seed = d.below(1u << 30);
            srand(seed);
            Value r = (*py)("fit", {Value::of(corpus)});
            int next = rand();
            std::string said = out.text.str();
            out.text.str("");
            srand(seed);
            ref->fit(corpus);
            REQUIRE(rand() == next, "fitting in Python drew another number of texts than the library");
            REQUIRE(r.p.get() == py->v.p.get(), "fit does not return its object");
            REQUIRE(said == out.text.str(), "printed " << quoted(said) << " for " << quoted(out.text.str()));
        } else if (kind == 1) {
            Strings a = (*py)("transform", {Value::of(corpus)}).get<Strings>(), b = ref->transform(corpus);
            REQUIRE(a == b, "transform in Python: " << quoted(a) << ", in the library: " << quoted(b));
        } else if (kind == 2) {
            if (t.valid) same_file(d, *py, *ref);
        } else {
            NOTE("save and load");
            py = (saved(d, *py, false), load("VGram", d.tmpfile("saved.json")));
            ref->save(file);
            ref.reset(Loader::load_string_vgram(file));
            d.label("loaded");
        }
        same_state(d, *py, *ref, "texts");
    }
    if (ref->alphabet().size() > 3) d.nontrivial();
}
