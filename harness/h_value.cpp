#include "hval.h"
// script over 4 slots:  s <slot> <val> | c <dst> <src> | n <dst> <src> (copy construct) | x <slot> (destroy and recreate) | S <slot> | q <a> <b>
static Reg v1( "val", []( const Args &a ) -> std::string
{
  Value *s[4] = { new Value, new Value, new Value, new Value };
  std::string res;
  for ( size_t i = 0; i < a.size(); )
  {
    char c = a[i][0];
    int p = a[i + 1][0] - '0';
    if ( c == 's' )
    {
      const std::string &t = a[i + 2];
      Value &v = *s[p];
      if ( t[0] == 'u' ) v.setUndefined();
      else if ( t[0] == 'n' ) v.setNull();
      else if ( t[0] == 'i' ) v.setInt( std::stoll( t.substr( 1 ) ) );
      else if ( t[0] == 'd' ) { uint64_t b = std::stoull( t.substr( 1 ), nullptr, 16 ); double d; memcpy( &d, &b, 8 ); v.setDouble( d ); }
      else { std::string x = unhex( t.substr( 1 ) ); v.setString( t[0] == 't' ? Value::TypeText : Value::TypeBlob, x.data(), ( int ) x.size() ); }
      i += 3;
    }
    else if ( c == 'c' ) { *s[p] = *s[a[i + 2][0] - '0']; i += 3; }
    else if ( c == 'n' ) { Value *o = s[p]; s[p] = new Value( *s[a[i + 2][0] - '0'] ); delete o; i += 3; }
    else if ( c == 'x' ) { delete s[p]; s[p] = new Value; i += 2; }
    else if ( c == 'S' ) { res += " " + showVal( *s[p] ); i += 2; }
    else if ( c == 'q' )
    {
      int q = a[i + 2][0] - '0';
      bool e = *s[p] == *s[q], ne = *s[p] != *s[q];
      res += e == ne ? " BAD" : e ? " 1" : " 0";
      i += 3;
    }
    else return "syntax";
  }
  for ( Value *v : s ) delete v;
  return res;
} );
