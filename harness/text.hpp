// What the library prints, as text and as labels with numbers.
#pragma once
#include "driver.hpp"
#include <cctype>
#include <iostream>
#include <sstream>

struct Capture {                // everything printed to std::cout during its life
    std::ostringstream s; std::streambuf* old;
    Capture() : old(std::cout.rdbuf(s.rdbuf())) {}
    ~Capture() { std::cout.rdbuf(old); }
    std::string text() const { return s.str(); }
};
struct Line { std::string label, raw; std::vector<double> n; };
// The numbers of a line, and what is left of its text (ASCII only, outer blanks of the end dropped).  A digit inside a word is no number.
inline Line line_of(const std::string& l) {
    Line r; r.raw = l;
    auto word = [](unsigned char c) { return std::isalnum(c) || c == '_' || c >= 128; };
    for (size_t i = 0; i < l.size();) {
        unsigned char c = l[i];
        bool start = std::isdigit(c) || ((c == '-' || c == '+' || c == '.') && i + 1 < l.size() && (std::isdigit((unsigned char)l[i + 1]) || l[i + 1] == '.' || !l.compare(i + 1, 3, "inf") || !l.compare(i + 1, 3, "nan"))) ||
                     ((!l.compare(i, 3, "inf") || !l.compare(i, 3, "nan")) && (i + 3 >= l.size() || !word(l[i + 3])));
        if (start && (i == 0 || !word(l[i - 1]))) { char* e; double v = std::strtod(l.c_str() + i, &e); if (e != l.c_str() + i) { r.n.push_back(v); i = e - l.c_str(); continue; } }
        if (c < 128) r.label += char(c);
        i++;
    }
    while (!r.label.empty() && r.label.back() == ' ') r.label.pop_back();
    return r;
}
inline std::vector<Line> lines_of(const std::string& t) { std::vector<Line> r; std::istringstream s(t); std::string l; while (std::getline(s, l)) r.push_back(line_of(l)); return r; }
inline void nums(Out& o, const std::vector<double>& n) { o.sep(); o.open('['); for (double d : n) o.real(d); o.close(']'); }
// "tx": [[label, numbers], ...] of the lines that have numbers or say something
inline void text_out(Out& o, const std::string& t) {
    o.key("tx"); o.sep(); o.open('[');
    for (auto& l : lines_of(t)) if (!l.label.empty() || !l.n.empty()) { o.sep(); o.open('['); o.str(l.label); nums(o, l.n); o.close(']'); }
    o.close(']');
}
