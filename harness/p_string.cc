// C14 models of texts, C15 tokenizers, C16 codes of symbols, C23 printing of sequences.
#include "model_gen.h"
#include "text_gen.h"
#include "vgram_builders/string_stream_vgram.h"
#include "vgram_builders/string_vgram.h"
#include <stdexcept>

using vgram_core::StringStreamVGram;
using vgram_core::StringVGram;
typedef std::vector<std::string> Strs;

namespace {

// 0 characters, 1 words, 2 a tokenizer of the user's own
struct Kind {
    int kind = 0, chunk = 1;
    BaseTokenizer* make() const {
        if (kind == 0) return new CharTokenizer();
        if (kind == 1) return new WordTokenizer();
        return new ChunkTokenizer(chunk);
    }
    Strs tokens(const std::string& s) const {
        if (kind == 0) return ref_chars(s);
        if (kind == 1) return ref_words(s);
        std::string n;
        for (char c : s) if (c != '#') n += c;
        Strs r;
        for (size_t i = 0; i < n.size(); i += chunk) r.push_back(n.substr(i, chunk));
        return r;
    }
};
Kind gen_kind(D& d, bool own = true) {
    Kind k;
    k.kind = d.weighted({3, 3, own ? 2 : 0});
    k.chunk = k.kind == 2 ? d.range(1, 4) : 1;
    static const char* names[] = {"characters", "words", "a custom tokenizer"};
    d.label(names[k.kind]);
    NOTE(names[k.kind] << " " << k.chunk);
    return k;
}
std::string joined(const Strs& v, const char* sep = "") {
    std::string r;
    for (size_t i = 0; i < v.size(); i++) r += (i ? sep : "") + v[i];
    return r;
}

}  // namespace

PROPERTY(C14, stream, 3000, 60000) {
    Kind k = gen_kind(d, true);
    Texts t = gen_texts(d, k.kind == 1);
    int size = gen_text_size(d, t);
    bool own = k.kind == 2 || d.chance(1, 3);
    std::shared_ptr<StringStreamVGram> m;
    // either way of making one
    static const std::vector<double> probs = {0.002, 0.5, 0.2, 0.1, 0.05, 0.01};
    double prob = own ? d.pick(probs) : 0.002;      // a large one learns from little data
    auto ints = [&] {
        return prob == 0.002 ? std::make_shared<IntStreamVGram>(size, 0) : std::make_shared<IntStreamVGram>(std::make_shared<SeqCoder>(), IntSeq(), Seqs(), size, prob);
    };
    if (own) m = std::make_shared<StringStreamVGram>(ints(), std::shared_ptr<BaseTokenizer>(k.make()), false, k.kind == 1);
    else m = std::make_shared<StringStreamVGram>(size, 0, false, k.kind == 1);
    // the same by hand: tokens to numbers, numbers to a model of numbers
    std::map<std::string, int> ids;
    Strs names;
    auto number = [&](const std::string& s) {
        IntSeq r;
        for (auto& w : k.tokens(s)) {
            if (!ids.count(w)) { int id = (int) ids.size(); ids[w] = id; names.push_back(w); }
            r.push_back(ids[w]);
        }
        return r;
    };
    auto spell = [&](const IntSeq& s) { std::string r; for (int x : s) r += names[x]; return r; };
    auto by_hand = ints();
    IntStreamVGram& hand = *by_hand;
    std::set<std::string> known;
    Strs corpus;
    NOTE("size " << size << " minimal probability " << prob);
    bool multi = false;
    int ops = 1 + d.size(8);
    for (int op = 0; op <= ops; op++) {
        int kind = op == ops ? 1 : d.weighted({4, 3, 4});
        if (kind == 0) {
            for (auto& s : gen_corpus(d, t, 3000)) {
                if (corpus.size() < 20) corpus.push_back(s);
                m->accept(s);
                hand.accept(number(s));
                for (auto& w : k.tokens(s)) known.insert(w);
            }
        } else if (kind == 1) {
            NOTE("update");
            m->update_dict();
            hand.update_dict();
        } else {
            std::string s = !corpus.empty() && d.chance(2, 3) ? d.pick(corpus) : "";
            if (s.empty() || d.chance(1, 2)) s += t.one(d, 30);
            NOTE("parse " << quoted(s));
            Strs got = m->parse(s), want;
            IntSeq out = hand.parse(number(s));
            Seqs alpha = hand.alphabet();
            for (int id : out) { want.push_back(spell(alpha[id])); multi |= alpha[id].size() > 1; }
            Strs in;
            for (auto& w : k.tokens(s)) if (known.count(w)) in.push_back(w);
            REQUIRE(joined(got) == joined(in), "parse of " << quoted(s) << " spells " << quoted(joined(got)) << " instead of " << quoted(joined(in)));
            REQUIRE(got == want, "parse of " << quoted(s) << " is " << quoted(got) << ", by hand " << quoted(want));
            Strs now = m->alphabet();
            std::set<std::string> has(now.begin(), now.end());
            for (auto& w : got) REQUIRE(has.count(w), "part " << quoted(w) << " is not in the alphabet " << quoted(now));
        }
        Strs alpha = m->alphabet(), want;
        for (auto& e : hand.alphabet()) want.push_back(spell(e));
        REQUIRE(alpha == want, "the alphabet is " << quoted(alpha) << ", by hand " << quoted(want));
        REQUIRE(m->freqs() == hand.freqs(), "the frequencies are " << show(m->freqs()) << ", by hand " << show(hand.freqs()));
        if (k.kind == 0) {
            std::set<std::string> distinct(alpha.begin(), alpha.end());
            REQUIRE(distinct.size() == alpha.size(), "the alphabet has a v-gram twice: " << quoted(alpha));
            for (auto& w : alpha) REQUIRE(!w.empty() && ref_normalize(w) == w, "v-gram " << quoted(w) << " is not normalised");
        }
    }
    if (multi) d.nontrivial();
}

PROPERTY(C14, fitted, 2000, 40000) {
    Kind k = gen_kind(d, true);
    Texts t = gen_texts(d, k.kind == 1);
    int size = gen_text_size(d, t), iters = d.size(10);
    std::unique_ptr<StringVGram> m;
    int way = d.weighted({2, 2, 1});
    if (way == 0 && k.kind == 0) m.reset(new StringVGram(size, iters, 0));
    else if (way == 2) m.reset(new StringVGram(std::make_shared<IntVGram>(size, iters, 0), std::shared_ptr<BaseTokenizer>(k.make())));
    else m.reset(new StringVGram(size, iters, k.make(), 0));
    auto corpus = gen_corpus(d, t, 5000 / (iters + 1) + 20);
    std::map<std::string, int> ids;
    Strs names;
    auto number = [&](const std::string& s) {
        IntSeq r;
        for (auto& w : k.tokens(s)) {
            if (!ids.count(w)) { int id = (int) ids.size(); ids[w] = id; names.push_back(w); }
            r.push_back(ids[w]);
        }
        return r;
    };
    auto spell = [&](const IntSeq& s) { std::string r; for (int x : s) r += names[x]; return r; };
    Seqs data;
    for (auto& s : corpus) data.push_back(number(s));
    unsigned seed = d.below(1u << 30);
    NOTE("size " << size << " iterations " << iters);
    srand(seed);
    REQUIRE(m->fit(corpus) == m.get(), "fit does not return its model");
    IntVGram hand(size, iters, 0);
    srand(seed);
    hand.fit(data);
    auto alike = [&](const char* what) {
        Strs alpha = m->alphabet(), want;
        for (auto& e : hand.alphabet()) want.push_back(spell(e));
        REQUIRE(alpha == want, what << ": the alphabet is " << quoted(alpha) << ", by hand " << quoted(want));
        REQUIRE(m->freqs() == hand.freqs(), what << ": the frequencies are " << show(m->freqs()) << ", by hand " << show(hand.freqs()));
    };
    alike("fitted");
    std::set<std::string> known(names.begin(), names.end());
    Strs texts;
    for (int n = d.size(8); n > 0; n--) texts.push_back(d.chance(1, 3) && !corpus.empty() ? d.pick(corpus) : t.one(d, 40));
    NOTE("transform " << quoted(texts));
    Strs got = m->transform(texts);
    REQUIRE(got.size() == texts.size(), texts.size() << " texts become " << got.size());
    bool multi = false;
    for (size_t i = 0; i < texts.size(); i++) {
        Strs parts, in;
        IntSeq out = hand.parse(number(texts[i]));
        Seqs alpha = hand.alphabet();
        for (int id : out) { parts.push_back(spell(alpha[id])); multi |= alpha[id].size() > 1; }
        REQUIRE(got[i] == joined(parts, " "), quoted(texts[i]) << " is transformed to " << quoted(got[i]) << ", by hand " << quoted(joined(parts, " ")));
        for (auto& w : k.tokens(texts[i])) if (known.count(w)) in.push_back(w);
        if (k.kind < 2) {
            std::string flat;
            for (char c : got[i]) if (c != ' ') flat += c;
            REQUIRE(flat == joined(in), quoted(texts[i]) << " is transformed to " << quoted(got[i]) << ", which spells something else");
        }
    }
    alike("after transform");
    Strs again = m->transform(texts);
    REQUIRE(again == got, "transforming again gives another result");
    Strs alpha = m->alphabet();
    REQUIRE(m->fit(texts) == m.get() && m->alphabet() == alpha && m->transform(texts) == got, "a second fit changed the model");
    if (multi) d.nontrivial();
}

PROPERTY(C14, arguments, 20, 20) {
    bool inner = d.chance(1, 2), words = d.chance(1, 2);
    int way = (int) d.below(2);
    bool thrown = false;
    try {
        if (way) StringStreamVGram m(10, 0, inner, words);
        else StringStreamVGram m(std::make_shared<IntStreamVGram>(10, 0), std::make_shared<CharTokenizer>(), inner, words);
    } catch (const std::invalid_argument&) {
        thrown = true;
    }
    REQUIRE(thrown == (inner && words), "splitting inside words which are tokens is " << (thrown ? "" : "not ") << "refused");
    d.nontrivial();
}

// --------------------------------------------------------------------------------------------------- C15: tokenizers

PROPERTY(C15, model, 200000, 4000000) {
    Kind k = gen_kind(d);
    Texts t = gen_texts(d, d.chance(1, 8) ? k.kind != 1 : k.kind == 1);
    std::unordered_map<std::string, int> map;   // what it is restored with
    std::set<int> taken;
    if (d.chance(1, 2)) {
        static const Strs extra = {"a", "b", "z", "7", "ab", "the", "cat", "", " ", "\xc3\xa9", "x"};
        int style = (int) d.below(3);
        for (int n = d.size(12); n > 0; n--) {
            Strs tok = d.chance(1, 2) ? k.tokens(t.one(d, 3)) : Strs{d.pick(extra)};
            for (auto& w : tok) {
                if (map.count(w)) continue;
                int id = style == 0 ? (int) map.size() : style == 1 ? d.range(0, 40) : d.range(-1000000, 1000000);
                while (taken.count(id)) id++;
                map[w] = id;
                taken.insert(id);
            }
        }
        d.label("restored");
    }
    std::unique_ptr<BaseTokenizer> tok(map.empty() ? k.make() : k.kind == 0 ? (BaseTokenizer*) new CharTokenizer(map) : k.kind == 1 ? (BaseTokenizer*) new WordTokenizer(map) : (BaseTokenizer*) new ChunkTokenizer(k.chunk, map));
    bool fresh = map.empty();
    std::map<std::string, int> ids(map.begin(), map.end());
    std::map<int, std::string> back;
    for (auto& p : map) back[p.second] = p.first;
    int given = 0;
    auto check = [&](const std::string& s, const IntSeq& got) {
        Strs want = k.tokens(s);
        REQUIRE(got.size() == want.size(), quoted(s) << " has tokens " << quoted(want) << " and codes " << show(got));
        for (size_t i = 0; i < got.size(); i++) {
            auto at = ids.find(want[i]);
            if (at != ids.end()) {
                REQUIRE(at->second == got[i], "token " << quoted(want[i]) << " had code " << at->second << " and has " << got[i]);
                continue;
            }
            REQUIRE(!back.count(got[i]), "new token " << quoted(want[i]) << " gets code " << got[i] << " of token " << quoted(back[got[i]]));
            if (fresh) REQUIRE(got[i] == given, "the " << given << "-th new token gets code " << got[i]);
            ids[want[i]] = got[i];
            back[got[i]] = want[i];
            given++;
        }
        REQUIRE(tok->decode(got) == joined(want), "codes of " << quoted(s) << " are decoded to " << quoted(tok->decode(got)));
    };
    int ops = 1 + d.size(10);
    for (int op = 0; op < ops; op++) {
        int kind = d.weighted({3, 3, 2, 2});
        if (kind == 0) {
            std::string s = t.one(d, 30);
            NOTE("transform " << quoted(s));
            IntSeq got = tok->transform(s);
            check(s, got);
            REQUIRE(tok->transform(s) == got, "transforming " << quoted(s) << " again gives other codes");
        } else if (kind == 1) {
            Strs all;
            for (int n = d.size(5); n > 0; n--) all.push_back(t.one(d, 12));
            NOTE("transform " << quoted(all));
            Seqs got = tok->transform(all);
            REQUIRE(got.size() == all.size(), all.size() << " texts become " << got.size());
            for (size_t i = 0; i < all.size(); i++) check(all[i], got[i]);
            for (size_t i = 0; i < all.size(); i++) REQUIRE(tok->transform(all[i]) == got[i], "one by one the codes are others");
            Strs dec = tok->decode(got);
            REQUIRE(dec.size() == all.size(), "decoding loses texts");
            for (size_t i = 0; i < all.size(); i++) REQUIRE(dec[i] == joined(k.tokens(all[i])), quoted(all[i]) << " is decoded to " << quoted(dec[i]));
        } else if (kind == 2) {
            // codes nobody has are decoded to nothing
            IntSeq codes;
            std::string want;
            for (int n = d.size(10); n > 0; n--) {
                int c = d.chance(1, 2) && !back.empty() ? std::next(back.begin(), d.below((uint32_t) back.size()))->first : d.range(-50, 50);
                codes.push_back(c);
                if (back.count(c)) want += back[c];
            }
            NOTE("decode " << show(codes));
            REQUIRE(tok->decode(codes) == want, show(codes) << " is decoded to " << quoted(tok->decode(codes)) << " instead of " << quoted(want));
        } else {
            std::string s = t.one(d, 20);
            std::string n = tok->normalize(s), want;
            if (k.kind == 0) want = ref_normalize(s);
            else if (k.kind == 1) want = s;
            else for (char c : s) if (c != '#') want += c;
            REQUIRE(n == want, quoted(s) << " is normalised to " << quoted(n));
            REQUIRE(tok->normalize(n) == n, "normalising " << quoted(n) << " again gives " << quoted(tok->normalize(n)));
            Strs parts = tok->tokenize(n);
            REQUIRE(parts == k.tokens(s), quoted(s) << " has tokens " << quoted(parts));
        }
    }
    if (given > 1 || !fresh) d.nontrivial();
}

// any bytes
PROPERTY(C15, bytes, 150000, 3000000) {
    Kind k = gen_kind(d);
    std::unique_ptr<BaseTokenizer> tok(k.make());
    for (int r = 1 + d.size(3); r > 0; r--) {
        std::string s;
        int style = (int) d.below(3);
        for (int n = d.size(60); n > 0; n--) s += style == 0 ? (char) d.below(256) : style == 1 ? (char) (32 + d.below(96)) : " aZ0\0#\xff\x80@[`{/:"[d.below(15)];
        NOTE("transform " << quoted(s));
        Strs want = k.tokens(s);
        IntSeq got = tok->transform(s);
        REQUIRE(got.size() == want.size(), quoted(s) << " has " << got.size() << " codes instead of " << want.size());
        REQUIRE(tok->decode(got) == joined(want), quoted(s) << " is decoded to " << quoted(tok->decode(got)));
        for (size_t i = 0; i < got.size(); i++) for (size_t j = 0; j < i; j++) REQUIRE((got[i] == got[j]) == (want[i] == want[j]), "codes " << show(got) << " of " << quoted(s));
        if (got.size() > 3) d.nontrivial();
    }
}

// ------------------------------------------------------------------------------------------------ C16: symbol codes

PROPERTY(C16, coder, 240000, 4800000) {
    SeqCoder c;
    IntSeq syms = gen_symbols(d, 1 + d.size(40)), order;
    std::map<int, int> code;
    int ops = 1 + d.size(20);
    bool skipped = false, refused = false;
    for (int op = 0; op < ops; op++) {
        int kind = d.weighted({3, 3, 3, 1});
        IntSeq s = gen_seq(d, syms, 30);
        if (kind == 0) {
            NOTE("encode " << show(s));
            IntSeq want;
            for (int x : s) {
                if (!code.count(x)) { int id = (int) order.size(); code[x] = id; order.push_back(x); }
                want.push_back(code[x]);
            }
            IntSeq got = c.encode(s);
            REQUIRE(got == want, "codes of " << show(s) << " are " << show(got) << " instead of " << show(want));
            REQUIRE(c.decode(got) == s, show(s) << " is decoded to " << show(c.decode(got)));
        } else if (kind == 1) {
            NOTE("encode what is known of " << show(s));
            IntSeq want, kept;
            for (int x : s) if (code.count(x)) { want.push_back(code[x]); kept.push_back(x); }
            IntSeq got = c.encode_immutable(s);
            REQUIRE(got == want, "codes of " << show(s) << " are " << show(got) << " instead of " << show(want));
            REQUIRE(c.decode(got) == kept, show(got) << " is decoded to " << show(c.decode(got)));
            skipped |= kept.size() < s.size();
        } else if (kind == 2) {
            IntSeq codes, want;
            if (!order.empty()) for (int n = d.size(12); n > 0; n--) { int x = (int) d.below((uint32_t) order.size()); codes.push_back(x); want.push_back(order[x]); }
            REQUIRE(c.decode(codes) == want, show(codes) << " is decoded to " << show(c.decode(codes)));
            if (d.chance(1, 3)) {
                codes.insert(codes.begin() + d.below((uint32_t) codes.size() + 1), d.chance(1, 2) ? (int) order.size() + d.size(5) : -1 - d.size(5));
                bool thrown = false;
                try { c.decode(codes); } catch (const std::exception&) { thrown = true; }
                REQUIRE(thrown, "a code which no symbol has is decoded");
                refused = true;
            }
        }
        auto m = c.code_map();
        REQUIRE(m.size() == code.size(), m.size() << " symbols of " << code.size());
        for (auto& p : code) REQUIRE(m.count(p.first) && m.at(p.first) == p.second, "symbol " << p.first << " has another code");
    }
    if (skipped) d.label("unknown symbols skipped");
    if (refused) d.label("unknown codes refused");
    if (order.size() > 1) d.nontrivial();
}

// -------------------------------------------------------------------------------------------------- C23: printing

PROPERTY(C23, rendering, 240000, 4800000) {
    IntSeq syms = gen_symbols(d, 1 + d.size(20)), s = gen_seq(d, syms, d.chance(1, 10) ? 3000 : 30);
    NOTE(show(s));
    std::string want = "(";
    for (size_t i = 0; i < s.size(); i++) want += (i ? " " : "") + std::to_string(s[i]);
    want += ")";
    std::string got = to_string(s);
    REQUIRE(got == want, show(s) << " is written as " << quoted(got));
    std::ostringstream o;
    o << "<" << s << ">" << s;
    REQUIRE(o.str() == "<" + want + ">" + want, show(s) << " is printed as " << quoted(o.str()));
    // and can be read back
    std::istringstream in(got.substr(1, got.size() - 2));
    IntSeq back;
    for (int x; in >> x;) back.push_back(x);
    REQUIRE(back == s, got << " is read as " << show(back));
    if (s.size() > 1) d.nontrivial();
    if (s.empty()) d.label("empty");
}
