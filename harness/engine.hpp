// A regular expression engine with a language of its own (spec/VEngine.tla):
// the first character of a pattern says what is asked of the text.
#pragma once
#include <stdexcept>
#include <string>

struct EngineError : std::runtime_error
{
    explicit EngineError(const std::string &s) : std::runtime_error(s) { }
};

struct DrvEngine
{
    static long &thrown()
    {
        static long n = 0;
        return n;
    }

    explicit DrvEngine(const std::string &pattern) : op('\0'), arg(pattern)
    {
        if (!pattern.empty() && std::string("=<>~@!?").find(pattern[0]) != std::string::npos) {
            op = pattern[0];
            arg = pattern.substr(1);
        }
        if (op == '!') {
            ++thrown();
            throw EngineError("not a pattern");
        }
    }

    static bool search(const std::string &s, const DrvEngine &e)
    {
        switch (e.op) {
        case '=':
            return s == e.arg;
        case '<':
            return s.size() >= e.arg.size() && s.compare(0, e.arg.size(), e.arg) == 0;
        case '>':
            return s.size() >= e.arg.size() && s.compare(s.size() - e.arg.size(), e.arg.size(), e.arg) == 0;
        case '@':
            return s.find_first_not_of(e.arg) == std::string::npos;
        case '?':
            ++thrown();
            throw EngineError("too hard");
        default:
            return s.find(e.arg) != std::string::npos;
        }
    }

private:
    char op;
    std::string arg;
};
