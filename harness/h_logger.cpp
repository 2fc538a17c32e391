#include "hn.h"
#include "geodifflogger.hpp"
#include "geodiff.h"
static std::string seen;
static int cur = 0;
static void cb1( GEODIFF_LoggerLevel l, const char *m ) { seen += " 1:" + std::to_string( ( int ) l ) + ":" + hx( m ); }
static void cb2( GEODIFF_LoggerLevel l, const char *m ) { seen += " 2:" + std::to_string( ( int ) l ) + ":" + hx( m ); }
// script: c0|c1|c2 set callback, l<n> set level, e/w/i/d <hex> log, X <hex> log an exception
static Reg l1( "log", []( const Args &a ) -> std::string
{
  seen.clear();
  Logger &lg = Logger::instance();
  for ( size_t i = 0; i < a.size(); ++i )
  {
    const std::string &t = a[i];
    if ( t[0] == 'c' ) GEODIFF_setLoggerCallback( t[1] == '0' ? nullptr : t[1] == '1' ? cb1 : cb2 );
    else if ( t[0] == 'l' ) GEODIFF_setMaximumLoggerLevel( ( GEODIFF_LoggerLevel ) std::stoi( t.substr( 1 ) ) );
    else
    {
      std::string m = ux( a[++i] );
      if ( t == "e" ) lg.error( m );
      else if ( t == "w" ) lg.warn( m );
      else if ( t == "i" ) lg.info( m );
      else if ( t == "d" ) lg.debug( m );
      else if ( t == "X" ) lg.error( GeoDiffException( m ) );
    }
    seen += " |";
  }
  return seen;
} );
