// A JSON reader which has nothing in common with the one the library saves with.
#pragma once
#include <cstdlib>
#include <map>
#include <string>
#include <vector>
#include "engine.h"

struct Js {
    enum Kind { Null, Bool, Number, String, Array, Object } kind = Null;
    bool b = false;
    double num = 0;
    std::string text;             // strings; the literal of a number
    std::vector<Js> items;
    std::vector<std::pair<std::string, Js>> fields;
    const Js* find(const std::string& key) const {
        for (auto& f : fields) if (f.first == key) return &f.second;
        return nullptr;
    }
    bool integer() const { return kind == Number && text.find_first_of(".eE") == std::string::npos; }
};

class JsReader {
    const std::string& s;
    size_t at = 0;
    void space() { while (at < s.size() && (s[at] == ' ' || s[at] == '\n' || s[at] == '\r' || s[at] == '\t')) at++; }
    [[noreturn]] void bad(const std::string& why) { pbt::fail("the saved file is not JSON: " + why + " at " + std::to_string(at)); }
    char need() { if (at >= s.size()) bad("ends early"); return s[at]; }
    void word(const char* w) { for (; *w; w++) { if (need() != *w) bad("bad literal"); at++; } }
    static void utf8(std::string& out, unsigned c) {
        if (c < 0x80) out += (char) c;
        else if (c < 0x800) { out += (char) (0xC0 | c >> 6); out += (char) (0x80 | (c & 63)); }
        else if (c < 0x10000) { out += (char) (0xE0 | c >> 12); out += (char) (0x80 | (c >> 6 & 63)); out += (char) (0x80 | (c & 63)); }
        else { out += (char) (0xF0 | c >> 18); out += (char) (0x80 | (c >> 12 & 63)); out += (char) (0x80 | (c >> 6 & 63)); out += (char) (0x80 | (c & 63)); }
    }
    unsigned hex4() {
        unsigned r = 0;
        for (int i = 0; i < 4; i++) {
            char c = need();
            r = r * 16 + (c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : (bad("bad escape"), 0));
            at++;
        }
        return r;
    }
    std::string str() {
        std::string r;
        if (need() != '"') bad("string expected");
        at++;
        while (need() != '"') {
            unsigned char c = (unsigned char) s[at++];
            if (c < 0x20) bad("control character in a string");
            if (c != '\\') { r += (char) c; continue; }
            char e = need();
            at++;
            switch (e) {
                case 'n': r += '\n'; break;
                case 't': r += '\t'; break;
                case 'r': r += '\r'; break;
                case 'b': r += '\b'; break;
                case 'f': r += '\f'; break;
                case 'u': {
                    unsigned u = hex4();
                    if (u >= 0xD800 && u < 0xDC00) { word("\\u"); u = 0x10000 + ((u - 0xD800) << 10) + (hex4() - 0xDC00); }
                    utf8(r, u);
                    break;
                }
                case '"': case '\\': case '/': r += e; break;
                default: bad("bad escape");
            }
        }
        at++;
        return r;
    }
    Js value() {
        Js v;
        space();
        char c = need();
        if (c == '{') {
            v.kind = Js::Object;
            at++;
            space();
            if (need() == '}') { at++; return v; }
            for (;;) {
                space();
                std::string key = str();
                if (v.find(key)) bad("field " + key + " is there twice");
                space();
                if (need() != ':') bad("no colon");
                at++;
                v.fields.emplace_back(key, value());
                space();
                if (need() == ',') { at++; continue; }
                if (need() != '}') bad("object does not end");
                at++;
                return v;
            }
        } else if (c == '[') {
            v.kind = Js::Array;
            at++;
            space();
            if (need() == ']') { at++; return v; }
            for (;;) {
                v.items.push_back(value());
                space();
                if (need() == ',') { at++; continue; }
                if (need() != ']') bad("array does not end");
                at++;
                return v;
            }
        } else if (c == '"') { v.kind = Js::String; v.text = str(); }
        else if (c == 't') { word("true"); v.kind = Js::Bool; v.b = true; }
        else if (c == 'f') { word("false"); v.kind = Js::Bool; }
        else if (c == 'n') { word("null"); }
        else {
            size_t from = at;
            while (at < s.size() && (s[at] == '-' || s[at] == '+' || s[at] == '.' || s[at] == 'e' || s[at] == 'E' || (s[at] >= '0' && s[at] <= '9'))) at++;
            if (at == from) bad("value expected");
            v.kind = Js::Number;
            v.text = s.substr(from, at - from);
            v.num = atof(v.text.c_str());
        }
        return v;
    }
public:
    explicit JsReader(const std::string& text) : s(text) {}
    Js read() {
        Js v = value();
        space();
        if (at != s.size()) bad("something follows");
        return v;
    }
};
