#pragma once
#include <clocale>
#include <locale>
#include <stdexcept>
#include <string>

namespace vmon {
// the locale of another application: decimal comma, digits grouped
struct Foreign : std::numpunct<char> {
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\3"; }
    std::string do_truename() const override { return "vrai"; }
    std::string do_falsename() const override { return "faux"; }
};
// kind 1: the C++ locale has its own number formats and the C library counts in another one (when it can)
// kind 2: a named locale, as std::locale::global(std::locale("")) installs
struct InLocale {
    std::locale old;
    explicit InLocale(int kind) {
        if (kind == 1) {
            old = std::locale::global(std::locale(std::locale::classic(), new Foreign));
            std::setlocale(LC_ALL, "de_DE.UTF-8");
        } else if (kind == 2) {
            try {
                old = std::locale::global(std::locale("tr_TR.UTF-8"));
            } catch (const std::runtime_error&) {
                old = std::locale::global(std::locale(std::locale::classic(), new Foreign));
            }
        }
    }
    ~InLocale() {
        std::locale::global(old);
        std::setlocale(LC_ALL, "C");
    }
    InLocale(const InLocale&) = delete;
    InLocale& operator=(const InLocale&) = delete;
    static bool named() {
        try {
            std::locale l("de_DE.UTF-8"), k("tr_TR.UTF-8");
            return true;
        } catch (const std::runtime_error&) {
            return false;
        }
    }
};
}  // namespace vmon
