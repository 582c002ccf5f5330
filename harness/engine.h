// A small property-based testing engine (choice-sequence based, like Hypothesis).
//
// A property is a function of a data source D: every random decision is a bounded integer drawn from it.  The engine
// records the drawn integers ("choices"), so that one failing case is a plain list of integers which can be replayed in
// a fresh process and shrunk (delete, zero, minimise) without knowing anything about the generators.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Failure {
    std::string msg;
};

class D {
public:
    // ---- choices -------------------------------------------------------------------------------------------------
    uint32_t below(uint32_t n);            // uniform in [0, n), n >= 1; shrinks to 0
    int range(int lo, int hi);             // uniform in [lo, hi]; shrinks to lo
    bool chance(int num, int den);         // true with probability num/den; shrinks to false
    int size(int max);                     // 0..max, roughly log-uniform; shrinks to 0
    double unit();                         // [0, 1)
    template <class T>
    const T& pick(const std::vector<T>& v) { return v[below((uint32_t) v.size())]; }
    int weighted(const std::vector<int>& w);  // index with the given weights; shrinks to 0

    // ---- classification and reporting ----------------------------------------------------------------------------
    void label(const char* name);          // counts the cases which have this label
    void nontrivial() { nontrivial_ = true; }
    bool verbose() const { return verbose_; }
    void note(const std::string& text);    // a line of the description of the case (kept only when it is printed)
    std::string tmpfile(const char* name); // a path inside the scratch directory of this process

    // ---- engine side ---------------------------------------------------------------------------------------------
    enum Mode { RANDOM, REPLAY, BYTES };
    Mode mode_ = RANDOM;
    uint64_t rng_[4];
    uint32_t* rec_ = nullptr;              // recorded choices (shared memory)
    uint32_t rec_cap_ = 0;
    volatile uint32_t* rec_len_ = nullptr;
    const uint32_t* in_ = nullptr;
    size_t in_len_ = 0, in_pos_ = 0;
    const uint8_t* bytes_ = nullptr;
    bool nontrivial_ = false;
    bool verbose_ = false;
    std::string notes_;
    char* notes_out_ = nullptr;            // shared memory: the description survives a crash
    size_t notes_cap_ = 0;
    std::vector<const char*> labels_;
    uint64_t hash_ = 1469598103934665603ULL;
    void seed(uint64_t s);
};

[[noreturn]] void fail(const std::string& msg);

struct Prop {
    std::string id, sub;
    void (*fn)(D&);
    long quick, thorough;
};
std::vector<Prop>& props();
struct Reg {
    Reg(const char* id, const char* sub, long quick, long thorough, void (*fn)(D&)) {
        props().push_back(Prop{id, sub, fn, quick, thorough});
    }
};

}  // namespace pbt

// PROPERTY(C01, greedy, quick cases, thorough cases) { ... d ... }
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PROPERTY(ID, SUB, QUICK, THOROUGH)                                                         \
    static void prop_##ID##_##SUB(pbt::D& d);                                                      \
    static pbt::Reg reg_##ID##_##SUB(#ID, #SUB, QUICK, THOROUGH, prop_##ID##_##SUB);               \
    static void prop_##ID##_##SUB(pbt::D& d)

#define REQUIRE(COND, MSG)                                                                         \
    do {                                                                                           \
        if (!(COND)) {                                                                             \
            std::ostringstream pbt_out_;                                                           \
            pbt_out_ << MSG;                                                                       \
            pbt::fail(pbt_out_.str());                                                             \
        }                                                                                          \
    } while (0)
#define NOTE(MSG)                                                                                  \
    do {                                                                                           \
        if (d.verbose()) {                                                                         \
            std::ostringstream pbt_out_;                                                           \
            pbt_out_ << MSG;                                                                       \
            d.note(pbt_out_.str());                                                                \
        }                                                                                          \
    } while (0)
