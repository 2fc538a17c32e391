#include "hval.h"
#include "geodiffutils.hpp"
#include "changesetutils.h"
#include "3rdparty/base64utils.h"
static Reg u1( "hexenc", []( const Args &a ) { return hx( bin2hex( ux( a[0] ) ) ); } );
static Reg u2( "hexdec", []( const Args &a ) { return hx( hex2bin( ux( a[0] ) ) ); } );
static Reg u3( "b64enc", []( const Args &a ) { std::string s = ux( a[0] ); return hx( base64_encode( ( const unsigned char * ) s.data(), ( unsigned ) s.size() ) ); } );
static Reg u4( "b64dec", []( const Args &a ) { return hx( base64_decode( ux( a[0] ) ) ); } );
static Reg u5( "replace", []( const Args &a ) { return hx( replace( ux( a[0] ), ux( a[1] ), ux( a[2] ) ) ); } );
static Reg u6( "startswith", []( const Args &a ) { return std::string( startsWith( ux( a[0] ), ux( a[1] ) ) ? "1" : "0" ); } );
static Reg u7( "lower", []( const Args &a ) { return hx( lowercaseString( ux( a[0] ) ) ); } );
static Reg u8( "layer", []( const Args &a ) { return std::string( isLayerTable( ux( a[0] ) ) ? "1" : "0" ); } );
static Reg u9( "indexof", []( const Args &a ) { std::vector<std::string> v; for ( size_t i = 1; i < a.size(); ++i ) v.push_back( ux( a[i] ) ); return std::to_string( indexOf( v, ux( a[0] ) ) ); } );
static Reg u10( "concatnames", []( const Args &a ) { std::vector<std::string> v; for ( const std::string &s : a ) v.push_back( ux( s ) ); return hx( concatNames( v ) ); } );
static Reg u11( "filecopy", []( const Args &a ) { filecopy( a[0], a[1] ); return std::string( "done" ); } );
static Reg u12( "flush", []( const Args &a ) { flushString( a[0], ux( a[1] ) ); return std::string( "done" ); } );
static Reg u13( "tmpfile", []( const Args &a ) -> std::string    // path mode(0 = scope end, 1 = exception)
{
  try
  {
    TmpFile t( a[0] );
    FILE *f = fopen( t.c_path(), "wb" );
    if ( f ) { fputs( "x", f ); fclose( f ); }
    if ( t.path() != a[0] ) return "path";
    if ( a[1] == "1" ) throw GeoDiffException( "e" );
  }
  catch ( const GeoDiffException & ) {}
  return fileexists( a[0] ) ? "left" : "gone";
} );
static Reg u14( "bufread", []( const Args &a ) { Buffer b; b.read( a[0] ); return std::to_string( b.size() ) + " " + hx( b.size() ? std::string( b.c_buf(), b.size() ) : std::string() ) + ( b.isEmpty() ? " 1" : " 0" ); } );
