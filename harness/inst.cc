// Explicit instantiations, so that libstdc++'s templates exist as IR (the shared library has none).
#include <string>
#include <sstream>
#include <fstream>
#include <iostream>
#include <streambuf>
#include <ios>
namespace std {
template class basic_string<char>;
template string operator+(const char*, const string&);
template basic_string<char>::basic_string(const char*, const char*, const allocator<char>&);
template class basic_streambuf<char>;
template class basic_ios<char>;
template class basic_istream<char>;
template class basic_ostream<char>;
template class basic_iostream<char>;
template class basic_stringbuf<char>;
template class basic_istringstream<char>;
template class basic_ostringstream<char>;
template class basic_stringstream<char>;
}
// out-of-line in libstdc++: the unformatted line read, as the standard describes it
namespace std {
template<> basic_istream<char>& basic_istream<char>::getline(char* s, streamsize n, char delim) {
  _M_gcount = 0; ios_base::iostate e = ios_base::goodbit; streamsize k = 0; sentry ok(*this, true);
  if (ok) { auto* sb = this->rdbuf(); int c = sb->sgetc();
    while (true) { if (c == EOF) { e |= ios_base::eofbit; break; } if ((char)c == delim) { ++_M_gcount; sb->sbumpc(); break; } if (k + 1 >= n) { e |= ios_base::failbit; break; } s[k++] = (char)c; ++_M_gcount; c = sb->snextc(); } }
  if (n > 0) s[k] = 0; if (!_M_gcount) e |= ios_base::failbit; if (e) this->setstate(e); return *this; }
}
