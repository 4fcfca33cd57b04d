// std::getline for char streams is an explicit specialisation inside libstdc++.so, which the
// instrumentation does not see; the same function is provided here so that symbolic characters survive it.
#pragma once
#include <istream>
#include <string>
namespace std {
    template<> basic_istream<char> &getline(basic_istream<char> &is, basic_string<char> &s, char delim) {
        basic_istream<char>::sentry ok(is, true);
        ios_base::iostate st = ios_base::goodbit; size_t n = 0;
        if (ok) {
            s.erase();
            for (int c = is.rdbuf()->sgetc();; c = is.rdbuf()->snextc()) {
                if (c == char_traits<char>::eof()) { st |= ios_base::eofbit; break; }
                if ((char)c == delim) { n++; is.rdbuf()->sbumpc(); break; }
                s += (char)c; n++;
            }
        }
        if (!n) st |= ios_base::failbit;
        if (st) is.setstate(st);
        return is;
    }
}
