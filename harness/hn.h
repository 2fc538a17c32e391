// Test driver used for replaying counterexamples and for the checks that are labelled "bounded".
// One command per line, one answer line per command; the real code of /repo is linked in.
#pragma once
#include <string>
#include <vector>
#include <map>
#include <sstream>
#include <iostream>
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <functional>

typedef std::vector<std::string> Args;
typedef std::function<std::string( const Args & )> Cmd;
std::map<std::string, Cmd> &registry();
struct Reg { Reg( const char *n, Cmd c ) { registry()[n] = c; } };

inline std::string unhex( const std::string &s )
{
  std::string r;
  for ( size_t i = 0; i + 1 < s.size(); i += 2 ) r.push_back( ( char ) std::stoi( s.substr( i, 2 ), nullptr, 16 ) );
  return r;
}
inline std::string hex( const std::string &s )
{
  static const char *d = "0123456789abcdef";
  std::string r;
  for ( unsigned char c : s ) { r.push_back( d[c >> 4] ); r.push_back( d[c & 15] ); }
  return r;
}
// strings are passed as 'x' + hex so that they are never empty tokens
inline std::string hx( const std::string &s ) { return "x" + hex( s ); }
inline std::string ux( const std::string &s ) { return unhex( s.substr( 1 ) ); }
