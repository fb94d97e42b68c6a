#pragma once
#include <string>
#include <vector>
struct Plan {
    unsigned scenario, kind, second, type, dest, defaults, n, op[4];
    bool exits, byexit;  // a version option is declared; texts are printed, not thrown
    bool alt, strict, required, valid, again, width;
    std::vector<std::string> tokens, more, last;
    std::string text, text2;
    unsigned long w[4];
};
struct Outcome { std::vector<std::string> text; std::vector<double> nums; };
namespace library { void play(const Plan&, Outcome&); }
namespace amalgam { void play(const Plan&, Outcome&); }
