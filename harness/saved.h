// What a saved file says, read by the reader of the checks.
#pragma once
#include "gen.h"
#include "mini_json.h"
#include <cmath>
#include <fstream>
#include <sstream>

inline std::string slurp(const std::string& path) {
    std::ifstream in(path, std::ios::binary);
    REQUIRE((bool) in, "nothing was saved");
    std::ostringstream o;
    o << in.rdbuf();
    return o.str();
}

inline IntSeq ints(const Js* v, const char* what) {
    IntSeq r;
    REQUIRE(v, "there is no " << what);
    if (v->kind == Js::Null) return r;   // nothing in it
    REQUIRE(v->kind == Js::Array, what << " is not a list");
    for (auto& x : v->items) {
        REQUIRE(x.integer(), what << " has something which is not an integer");
        r.push_back((int) x.num);
        REQUIRE(std::to_string(r.back()) == x.text, what << " has " << x.text);
    }
    return r;
}

struct Saved {
    IntSeq coder, freqs;
    Seqs vecs;                        // decoded
    std::vector<std::string> texts;
    bool has_text = false;
    int size = 0;
    double min_prob = 0;
    int fitted = -1, computed = -1;   // -1: not there
};

inline Saved read_saved(const std::string& path) {
    Js top = JsReader(slurp(path)).read();
    REQUIRE(top.kind == Js::Object, "the file is not an object");
    Saved r;
    r.coder = ints(top.find("coder"), "coder");
    const Js* size = top.find("size");
    REQUIRE(size && size->integer(), "size is not an integer");
    r.size = (int) size->num;
    const Js* prob = top.find("min_prob");
    REQUIRE(prob && prob->kind == Js::Number, "min_prob is not a number");
    r.min_prob = prob->num;
    for (auto name : {"fitted", "freqs_computed"}) {
        const Js* v = top.find(name);
        if (!v) continue;
        REQUIRE(v->kind == Js::Bool, name << " is not a boolean");
        (std::string(name) == "fitted" ? r.fitted : r.computed) = v->b;
    }
    const Js* alpha = top.find("alphabet");
    REQUIRE(alpha && (alpha->kind == Js::Array || alpha->kind == Js::Null), "alphabet is not a list");
    size_t texts = 0;
    for (auto& e : alpha->items) {
        REQUIRE(e.kind == Js::Object, "an entry of the alphabet is not an object");
        const Js* f = e.find("freq");
        REQUIRE(f && f->integer(), "freq of an entry is not an integer");
        r.freqs.push_back((int) f->num);
        IntSeq s;
        for (int c : ints(e.find("vec"), "vec")) {
            REQUIRE(c >= 0 && c < (int) r.coder.size(), "vec has " << c << ", coder has " << r.coder.size() << " symbols");
            s.push_back(r.coder[c]);
        }
        r.vecs.push_back(s);
        const Js* text = e.find("text");
        if (!text) continue;
        REQUIRE(text->kind == Js::String, "text is not a string");
        r.texts.push_back(text->text);
        texts++;
    }
    REQUIRE(texts == 0 || texts == alpha->items.size(), "some entries have a text and some have none");
    r.has_text = texts > 0;
    return r;
}
