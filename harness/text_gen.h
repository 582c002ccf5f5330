// Texts for the string models and the tokenizers.
#pragma once
#include "gen.h"
#include <fstream>
#include <sstream>
#include "tokenizers/base_tokenizer.h"
#include "tokenizers/char_tokenizer.h"
#include "tokenizers/word_tokenizer.h"

using vgram_core::BaseTokenizer;
using vgram_core::CharTokenizer;
using vgram_core::WordTokenizer;

inline std::string quoted(const std::string& s, size_t max = 80) {
    std::string r = "\"";
    for (size_t i = 0; i < s.size() && i < max; i++) {
        unsigned char c = (unsigned char) s[i];
        char buf[8];
        if (c < 0x20 || c >= 0x7f || c == '"' || c == '\\') { snprintf(buf, sizeof buf, "\\x%02x", c); r += buf; } else r += (char) c;
    }
    return r + (s.size() > max ? "\"...(" + std::to_string(s.size()) + ")" : "\"");
}
inline std::string quoted(const std::vector<std::string>& v, size_t max = 20) {
    std::string r = "{";
    for (size_t i = 0; i < v.size() && i < max; i++) r += (i ? " " : "") + quoted(v[i], 40);
    return r + (v.size() > max ? " ...(" + std::to_string(v.size()) + ")}" : "}");
}

// what CharTokenizer is documented to do: letters and digits in lower case
inline std::string ref_normalize(const std::string& s) {
    std::string r;
    for (char c : s) {
        if (c >= 'A' && c <= 'Z') r += (char) (c - 'A' + 'a');
        else if ((c >= 'a' && c <= 'z') || (c >= '0' && c <= '9')) r += c;
    }
    return r;
}
inline std::vector<std::string> ref_words(const std::string& s) {
    std::vector<std::string> r;
    std::string w;
    for (char c : s) {
        if (c != ' ') { w += c; continue; }
        if (!w.empty()) r.push_back(w);
        w.clear();
    }
    if (!w.empty()) r.push_back(w);
    return r;
}
inline std::vector<std::string> ref_chars(const std::string& s) {
    std::vector<std::string> r;
    for (char c : ref_normalize(s)) r.push_back(std::string(1, c));
    return r;
}

// A tokenizer of the user's own: pieces of up to n bytes, nothing normalised but '#', which is removed
class ChunkTokenizer : public BaseTokenizer {
    int n;
public:
    explicit ChunkTokenizer(int n) : n(n) {}
    ChunkTokenizer(int n, const std::unordered_map<std::string, int>& map) : BaseTokenizer(map), n(n) {}
    std::string normalize(const std::string& s) const override {
        std::string r;
        for (char c : s) if (c != '#') r += c;
        return r;
    }
    std::vector<std::string> tokenize(const std::string& s) const override {
        std::vector<std::string> r;
        for (size_t i = 0; i < s.size(); i += n) r.push_back(s.substr(i, n));
        return r;
    }
};

struct Texts {
    std::vector<std::string> pool;   // words or characters
    bool words = false;
    bool valid = true;               // valid UTF-8
    uint32_t spread = 0;
    std::string one(D& d, int max) {
        std::string s;
        for (int n = d.size(max); n > 0; n--) {
            s += d.pick(pool);
            if (words) s += d.chance(1, 12) ? "  " : " ";
        }
        if (max > 5 && d.chance(1, 100)) {      // long
            std::string once = s;
            for (int n = d.range(2, 100); n > 0 && s.size() < 6000; n--) s += d.pick(pool) + (words ? " " : "") + once;
            d.label("long text");
        }
        if (words && d.chance(1, 2) && !s.empty()) s.pop_back();
        if (words && d.chance(1, 12)) s = " " + s;
        return s;
    }
};

inline Texts gen_texts(D& d, bool words) {
    static const std::vector<std::string> letters = {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n",
        "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9"};
    static const std::vector<std::string> odd = {" ", "A", "B", "Z", "-", ".", ",", "'", "\"", "\\", "_", "\n", "\t", "/", "<",
        "@", "[", "`", "{", "~", ":", "\xc3\xa9", "\xd0\xb9", "\xe2\x82\xac", "\xf0\x9f\x98\x80"};
    static const std::vector<std::string> plain = {"the", "cat", "sat", "on", "mat", "a", "A", "hello", "world", "aa", "ab", "b",
        "the.", "The", "x", "yy", "zzz", "of", "and", "to", "in", "is", "it", "q1", "42", "-1", "word", "words"};
    static const std::vector<std::string> strange = {"\"quoted\"", "back\\slash", "tab\tbed", "new\nline", "\xc3\xa9t\xc3\xa9",
        "\xd0\xb9\xd1\x86\xd1\x83\xd0\xba", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "<a>", "{}", "\x01", "\x7f", "#", "_"};
    Texts t;
    t.words = words;
    const std::vector<std::string>& base = words ? plain : letters;
    int k = 1 + (d.chance(1, 2) ? (int) d.below((uint32_t) base.size()) : d.size(10));
    for (int i = 0; i < k; i++) t.pool.push_back(base[i]);
    if (d.chance(1, 2)) {
        const std::vector<std::string>& more = words ? strange : odd;
        for (int n = 1 + d.size(6); n > 0; n--) t.pool.push_back(d.pick(more));
        d.label(words ? "texts with unusual words" : "texts with characters to be removed");
    }
    if (words && d.chance(1, 20)) {
        std::string w;
        for (int n = d.range(20, 400); n > 0; n--) w += (char) ('a' + (int) d.below(1 + n % 26));
        t.pool.push_back(w);
        if (d.chance(1, 2)) t.pool.push_back(w + "x");
        d.label("texts with long words");
    }
    return t;
}

// a dictionary size: room for v-grams, mostly
inline int gen_text_size(D& d, const Texts& t) {
    int k = (int) t.pool.size();
    int spread = d.weighted({1, 2, 4, 3});
    return spread == 0 ? d.range(1, k) : spread == 1 ? k + d.range(0, 6) : spread == 2 ? k + 1 + d.size(60) : k + 1 + d.size(1000);
}

// texts with regularities: parts of the pool repeated
inline std::vector<std::string> gen_corpus(D& d, Texts& t, int budget) {
    IntSeq syms;
    for (size_t i = 0; i < t.pool.size(); i++) syms.push_back((int) i);
    TextSource src = gen_source(d, syms);
    std::vector<std::string> out;
    int left = d.chance(1, 2) ? d.range(budget / 3, budget) : d.size(budget), maxlen = d.chance(1, 4) ? 6 : d.chance(1, 20) ? budget : 60;
    while (left > 0) {
        int len = d.chance(1, 16) ? 0 : 1 + (int) src.next((uint32_t) std::min(left, maxlen));
        left -= std::max(1, len);
        std::string s;
        for (int x : src.seq(len)) s += t.pool[x] + (t.words ? " " : "");
        if (t.words && !s.empty() && src.next(4)) s.pop_back();
        out.push_back(s);
    }
    if (d.verbose()) d.note(std::to_string(out.size()) + " texts " + quoted(out, 4));
    return out;
}
