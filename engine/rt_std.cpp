// Runtime library for the symbolic executor, part 1: the real libstdc++ string/stream templates,
// instantiated here so that their actual code is executed.  Everything they need from the compiled
// part of libstdc++ is modelled in rt_model.cpp.
#include <string>
#include <istream>
#include <ostream>
#include <sstream>
#include <fstream>
#include <iostream>
#include <iomanip>
namespace std {
template class basic_string<char>;
template class basic_ios<char>;
template class basic_istream<char>;
template class basic_ostream<char>;
template class basic_iostream<char>;
template class basic_streambuf<char>;
template class basic_stringbuf<char>;
template class basic_istringstream<char>;
template class basic_ostringstream<char>;
template class basic_stringstream<char>;
template class basic_filebuf<char>;
template class basic_ifstream<char>;
template class basic_ofstream<char>;
template class basic_fstream<char>;
template istream& ws(istream&);
template istream& operator>>(istream&, char&);
template istream& operator>>(istream&, unsigned char&);
template istream& operator>>(istream&, signed char&);
template ostream& endl(ostream&);
template ostream& ends(ostream&);
template ostream& flush(ostream&);
template ostream& operator<<(ostream&, char);
template ostream& operator<<(ostream&, unsigned char);
template ostream& operator<<(ostream&, signed char);
template ostream& operator<<(ostream&, const char*);
template ostream& operator<<(ostream&, const string&);
template ostream& operator<<(ostream&, _Setw);
template ostream& operator<<(ostream&, _Setprecision);
template ostream& operator<<(ostream&, _Setfill<char>);
template ostream& operator<<(ostream&, _Setiosflags);
template ostream& operator<<(ostream&, _Resetiosflags);
template ostream& operator<<(ostream&, _Setbase);
template istream& operator>>(istream&, _Setw);
template istream& operator>>(istream&, _Setbase);
template istream& operator>>(istream&, _Setiosflags);
template istream& operator>>(istream&, _Resetiosflags);
template ostream& __ostream_insert(ostream&, const char*, streamsize);
}  // namespace std
