// Generators and reference models shared by the properties.  They use the public interface of the library only.
#pragma once
#include <algorithm>
#include <climits>
#include <cmath>
#include <cstdint>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include "engine.h"
#include "int_dict.h"

using pbt::D;
typedef std::vector<IntSeq> Seqs;

inline std::string show(const IntSeq& s, size_t max = 60) {
    std::string r = "[";
    for (size_t i = 0; i < s.size() && i < max; i++) r += (i ? " " : "") + std::to_string(s[i]);
    if (s.size() > max) r += " ...(" + std::to_string(s.size()) + ")";
    return r + "]";
}
inline std::string show(const Seqs& v, size_t max = 40) {
    std::string r = "{";
    for (size_t i = 0; i < v.size() && i < max; i++) r += (i ? " " : "") + show(v[i], 30);
    if (v.size() > max) r += " ...(" + std::to_string(v.size()) + ")";
    return r + "}";
}

// ------------------------------------------------------------------------------------------------------- symbols

// k different symbols: small numbers, scattered ones, extreme ones
inline IntSeq gen_symbols(D& d, int k) {
    IntSeq syms;
    std::set<int> used;
    int kind = d.weighted({6, 2, 2, 1});
    for (int i = 0; i < k; i++) {
        int s = 0;
        switch (kind) {
            case 0: s = i; break;                                   // 0, 1, 2, ...
            case 1: s = (k - i) * 7 - 3 * k; break;                 // decreasing, some negative
            case 2: s = d.range(-1000000, 1000000); break;
            case 3: {
                static const int ext[] = {INT_MIN, INT_MAX, -1, 0, INT_MIN + 1, INT_MAX - 1, 65535, 65536, 1 << 30};
                s = i < 9 ? ext[i] : d.range(0, 1 << 29) * 2 + 1;
            }
        }
        while (used.count(s)) s = s == INT_MAX ? INT_MIN : s + 1;
        used.insert(s);
        syms.push_back(s);
    }
    if (kind != 0 && k > 1 && kind != 3) d.label("symbols: not 0..k");
    if (kind == 3) d.label("symbols: extreme values");
    return syms;
}

// ------------------------------------------------------------------------------------------------------ sequences

// short sequence for structural properties, over the first few of syms or over all of them
inline IntSeq gen_seq(D& d, const IntSeq& syms, int maxlen) {
    IntSeq s;
    if (syms.empty()) return s;
    int n = d.size(maxlen);
    int style = d.weighted({4, 2, 1});
    if (style == 0) {
        for (int i = 0; i < n; i++) s.push_back(d.pick(syms));
    } else if (style == 1) {                        // few symbols: long common prefixes, runs
        int k = 1 + (int) d.below((uint32_t) std::min<size_t>(2, syms.size()));
        int at = (int) d.below((uint32_t) syms.size());
        for (int i = 0; i < n; i++) s.push_back(syms[(at + d.below(k)) % syms.size()]);
    } else {                                        // periodic
        IntSeq period;
        int p = 1 + (int) d.below(5);
        for (int i = 0; i < p; i++) period.push_back(d.pick(syms));
        for (int i = 0; i < n; i++) s.push_back(period[i % p]);
    }
    return s;
}

// distinct non-empty entries
inline Seqs gen_entries(D& d, const IntSeq& syms, int maxn, int maxlen) {
    Seqs out;
    std::set<IntSeq> used;
    int n = d.size(maxn);
    for (int i = 0; i < n; i++) {
        IntSeq e;
        int style = out.empty() ? 0 : d.weighted({3, 4, 1, 1});
        if (style == 0) {
            e = gen_seq(d, syms, maxlen);
        } else if (style == 1) {                    // extends an entry
            e = d.pick(out);
            int k = 1 + (int) d.below(3);
            for (int j = 0; j < k; j++) e.push_back(d.pick(syms));
        } else if (style == 2) {                    // a prefix of an entry
            e = d.pick(out);
            e.resize(1 + d.below((uint32_t) e.size()));
        } else {                                    // concatenation of two entries
            e = d.pick(out);
            const IntSeq& b = d.pick(out);
            e.insert(e.end(), b.begin(), b.end());
        }
        if (e.empty()) e.push_back(d.pick(syms));
        if ((int) e.size() > 4 * maxlen) e.resize(4 * maxlen);
        if (used.insert(e).second) out.push_back(e);
    }
    return out;
}

// many entries (maxn/4 to maxn), some of them long, from few choices: they are parts of few long sequences
inline Seqs gen_big_entries(D& d, const IntSeq& syms, int maxn, int maxlen) {
    int n = d.range(maxn / 4, maxn), longest = d.range(2, maxlen);
    uint32_t state = d.below(1u << 30) * 2 + 1;
    auto next = [&](uint32_t k) {
        state = state * 1664525u + 1013904223u;
        return (uint32_t) (((uint64_t) (state >> 8) * k) >> 24);
    };
    IntSeq text;
    for (int i = 0; i < 2 * longest + 200; i++) text.push_back(syms[next(4) ? next((uint32_t) std::min<size_t>(3, syms.size())) : next((uint32_t) syms.size())]);
    std::set<IntSeq> used;
    for (int tries = 0; tries < 4 * n && (int) used.size() < n; tries++) {
        int len = 1 + (int) (next(3) ? next((uint32_t) std::min(longest, 6)) : next((uint32_t) longest));
        size_t at = next((uint32_t) (text.size() - len));
        IntSeq e(text.begin() + at, text.begin() + at + len);
        if (!next(3)) e.back() = syms[next((uint32_t) syms.size())];
        used.insert(e);
    }
    return Seqs(used.begin(), used.end());
}

// a dictionary has all the symbols its entries are made of
inline void complete(Seqs& entries, const IntSeq& also = IntSeq()) {
    std::set<IntSeq> used(entries.begin(), entries.end());
    Seqs add;
    auto need = [&](int s) {
        if (used.insert(IntSeq(1, s)).second) add.push_back(IntSeq(1, s));
    };
    for (auto& e : entries) for (int s : e) need(s);
    for (int s : also) need(s);
    entries.insert(entries.end(), add.begin(), add.end());
}

inline void shuffle(D& d, Seqs& v) {
    for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[i - 1 - d.below((uint32_t) i)]);
}

// A source of similar sequences, for learning.  Cheap in choices: a stream of training data is a few parameters and a
// local generator seeded by one choice, so that it shrinks as a whole.
struct TextSource {
    IntSeq syms;
    Seqs motifs;
    int style = 0;          // 0 iid, 1 Zipf, 2 motifs, 3 periodic, 4 runs, 5 Markov
    int noise = 0;          // percent
    uint32_t state = 1;
    uint32_t next(uint32_t n) {
        // a fixed LCG: part of the case, not of the environment
        state = state * 1664525u + 1013904223u;
        return (uint32_t) (((uint64_t) (state >> 8) * n) >> 24);
    }
    IntSeq seq(int len) {
        IntSeq s;
        int k = (int) syms.size();
        if (k == 0) return s;
        int last = 0;
        uint32_t phase = next(7);
        while ((int) s.size() < len) {
            if (noise && next(100) < (uint32_t) noise) {
                s.push_back(syms[next(k)]);
                continue;
            }
            switch (style) {
                case 0: s.push_back(syms[next(k)]); break;
                case 1: {
                    uint32_t i = 0;
                    while (i + 1 < (uint32_t) k && next(2)) i++;
                    s.push_back(syms[i]);
                    break;
                }
                case 2: {
                    const IntSeq& m = motifs[next((uint32_t) motifs.size())];
                    for (int x : m) if ((int) s.size() < len) s.push_back(x);
                    break;
                }
                case 3: s.push_back(syms[(phase + s.size()) % k]); break;
                case 4: {
                    int r = 1 + (int) next(9), x = syms[next(k)];
                    for (int i = 0; i < r && (int) s.size() < len; i++) s.push_back(x);
                    break;
                }
                case 5: last = next(4) ? (last + 1) % k : (int) next(k); s.push_back(syms[last]); break;
            }
        }
        return s;
    }
};

inline TextSource gen_source(D& d, const IntSeq& syms) {
    TextSource t;
    t.syms = syms;
    t.style = d.weighted({2, 2, 4, 2, 2, 2});
    if (t.style == 2) {
        int m = 1 + d.size(6);
        for (int i = 0; i < m; i++) {
            IntSeq e;
            int n = d.range(1, 7);
            for (int j = 0; j < n; j++) e.push_back(d.pick(syms));
            t.motifs.push_back(e);
        }
    }
    t.noise = d.chance(1, 3) ? d.range(1, 30) : 0;
    t.state = d.below(1u << 30) * 2 + 1;
    static const char* names[] = {"text: iid", "text: skewed", "text: motifs", "text: periodic", "text: runs", "text: Markov"};
    d.label(names[t.style]);
    return t;
}
inline std::string show(const TextSource& t) {
    return "source style " + std::to_string(t.style) + " symbols " + show(t.syms, 12) + " motifs " + show(t.motifs, 8) +
           " noise " + std::to_string(t.noise) + " state " + std::to_string(t.state);
}

// --------------------------------------------------------------------------------------------------- reference models

inline bool is_prefix(const IntSeq& e, const IntSeq& s, size_t at = 0) {
    if (e.size() > s.size() - at) return false;
    return std::equal(e.begin(), e.end(), s.begin() + at);
}

// index of the longest entry which starts seq[at...], leaving out excludes; -1 when there is none
inline int ref_search(const Seqs& entries, const IntSeq& s, size_t at, const std::unordered_set<int>* ex = nullptr) {
    int best = -1;
    for (size_t i = 0; i < entries.size(); i++)
        if ((!ex || !ex->count((int) i)) && is_prefix(entries[i], s, at) &&
            (best < 0 || entries[i].size() > entries[best].size()))
            best = (int) i;
    return best;
}

inline IntSeq concat(const Seqs& entries, const IntSeq& ids, size_t from = 0) {
    IntSeq s;
    for (size_t i = from; i < ids.size(); i++) s.insert(s.end(), entries[ids[i]].begin(), entries[ids[i]].end());
    return s;
}

inline double entry_log_prob(const IntSeq& freqs, int id, double denom) {
    return ((int) freqs.size() > id ? std::log(freqs[id] + 1.0) : 0.0) - std::log(denom);
}

// the best total log probability over all segmentations of s into entries
inline double ref_best_score(const Seqs& entries, const IntSeq& s, const IntSeq& freqs, double denom) {
    const double none = -std::numeric_limits<double>::infinity();
    std::vector<double> score(s.size() + 1, none);
    score[0] = 0;
    for (size_t at = 0; at < s.size(); at++) {
        if (score[at] == none) continue;
        for (size_t i = 0; i < entries.size(); i++)
            if (is_prefix(entries[i], s, at))
                score[at + entries[i].size()] = std::max(score[at + entries[i].size()],
                                                         score[at] + entry_log_prob(freqs, (int) i, denom));
    }
    return score[s.size()];
}

inline double ref_score(const IntSeq& ids, const IntSeq& freqs, double denom) {
    double r = 0;
    for (int id : ids) r += entry_log_prob(freqs, id, denom);
    return r;
}

inline bool contains(const IntSeq& text, const IntSeq& part) {
    return std::search(text.begin(), text.end(), part.begin(), part.end()) != text.end();
}

// entropy code of the uses, in nats per symbol
inline double ref_code_length(const std::vector<double>& freqs, double chars) {
    double p = 0, sum = 0;
    for (double f : freqs) {
        p += f;
        if (f > 0) sum += f * std::log(f);
    }
    return p <= 0 || chars <= 0 ? 0 : (p * std::log(p) - sum) / chars;
}

inline bool near(double a, double b, double eps = 1e-9) {
    return std::fabs(a - b) <= eps * (1 + std::fabs(a) + std::fabs(b));
}
