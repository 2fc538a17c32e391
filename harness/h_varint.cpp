#include "hn.h"
#include <assert.h>
#include "geodiff.h"
#include "changesetvarint.h"
static Reg r1( "putv", []( const Args &a ) -> std::string
{
  unsigned char *buf = new unsigned char[9];
  memset( buf, 0xEE, 9 );
  int n = sqlite3PutVarint( buf, std::stoull( a[0] ) );
  std::string s( ( char * ) buf, n < 0 || n > 9 ? 9 : n );
  delete[] buf;
  return std::to_string( n ) + " " + hx( s );
} );
static Reg r1b( "putv32", []( const Args &a ) -> std::string
{
  unsigned char *buf = new unsigned char[9];
  memset( buf, 0xEE, 9 );
  uint32_t v = ( uint32_t ) std::stoull( a[0] );
  int n = putVarint32( buf, v );
  std::string s( ( char * ) buf, n < 0 || n > 9 ? 9 : n );
  delete[] buf;
  return std::to_string( n ) + " " + hx( s );
} );
static Reg r2( "getv", []( const Args &a ) -> std::string      // exact-size heap buffer
{
  std::string s = ux( a[0] );
  unsigned char *buf = new unsigned char[s.size()];
  memcpy( buf, s.data(), s.size() );
  u64 v = 0;
  int n = sqlite3GetVarint( buf, &v );
  delete[] buf;
  return std::to_string( n ) + " " + std::to_string( ( unsigned long long ) v );
} );
static Reg r3( "getv32", []( const Args &a ) -> std::string
{
  std::string s = ux( a[0] );
  unsigned char *buf = new unsigned char[s.size()];
  memcpy( buf, s.data(), s.size() );
  u32 v = 0;
  int n = getVarint32( buf, v );
  delete[] buf;
  return std::to_string( n ) + " " + std::to_string( v );
} );
