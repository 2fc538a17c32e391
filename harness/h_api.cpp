#include "hn.h"
#include "geodiff.h"
#include <cstdlib>
static const char *p( const Args &a, size_t i ) { return i >= a.size() || a[i] == "-" ? nullptr : a[i].c_str(); }
// api <function> args ("-" is a null pointer)
static int call( const Args &a )
{
  const std::string &f = a[0];
#define P(i) p( a, i )
  if ( f == "createChangeset" ) return GEODIFF_createChangeset( P( 1 ), P( 2 ), P( 3 ) );
  if ( f == "createChangesetEx" ) return GEODIFF_createChangesetEx( P( 1 ), P( 2 ), P( 3 ), P( 4 ), P( 5 ) );
  if ( f == "invertChangeset" ) return GEODIFF_invertChangeset( P( 1 ), P( 2 ) );
  if ( f == "createRebasedChangeset" ) return GEODIFF_createRebasedChangeset( P( 1 ), P( 2 ), P( 3 ), P( 4 ), P( 5 ) );
  if ( f == "createRebasedChangesetEx" ) return GEODIFF_createRebasedChangesetEx( P( 1 ), P( 2 ), P( 3 ), P( 4 ), P( 5 ), P( 6 ), P( 7 ) );
  if ( f == "rebase" ) return GEODIFF_rebase( P( 1 ), P( 2 ), P( 3 ), P( 4 ) );
  if ( f == "rebaseEx" ) return GEODIFF_rebaseEx( P( 1 ), P( 2 ), P( 3 ), P( 4 ), P( 5 ), P( 6 ) );
  if ( f == "applyChangeset" ) return GEODIFF_applyChangeset( P( 1 ), P( 2 ) );
  if ( f == "applyChangesetEx" ) return GEODIFF_applyChangesetEx( P( 1 ), P( 2 ), P( 3 ), P( 4 ) );
  if ( f == "hasChanges" ) return GEODIFF_hasChanges( P( 1 ) );
  if ( f == "changesCount" ) return GEODIFF_changesCount( P( 1 ) );
  if ( f == "listChanges" ) return GEODIFF_listChanges( P( 1 ), P( 2 ) );
  if ( f == "listChangesSummary" ) return GEODIFF_listChangesSummary( P( 1 ), P( 2 ) );
  if ( f == "makeCopy" ) return GEODIFF_makeCopy( P( 1 ), P( 2 ), P( 3 ), P( 4 ), P( 5 ), P( 6 ) );
  if ( f == "dumpData" ) return GEODIFF_dumpData( P( 1 ), P( 2 ), P( 3 ), P( 4 ) );
  return -999;
}
static Reg a1( "api", []( const Args &a ) { return std::to_string( call( a ) ); } );
static Reg a2( "env", []( const Args &a ) { setenv( a[0].c_str(), a[1].c_str(), 1 ); return std::string( "done" ); } );
static Reg a3( "apiinit", []( const Args & ) { GEODIFF_init(); return std::string( GEODIFF_version() ); } );
extern std::vector<std::string> pqLog;
extern int pqOpenConns, pqOpenResults;
void pqLoad( const std::string &file );
// pg <rules file> <function> args: like api, with the PostgreSQL stand-in; also prints the statements
static Reg a4( "pg", []( const Args &a )
{
  pqLoad( a[0] );
  int c0 = pqOpenConns, r0 = pqOpenResults;
  std::string r = std::to_string( call( Args( a.begin() + 1, a.end() ) ) );
  r += " " + std::to_string( pqOpenConns - c0 ) + " " + std::to_string( pqOpenResults - r0 );
  for ( const std::string &s : pqLog ) r += " " + hx( s );
  return r;
} );
// lim <bytes> <function> args: like api, but no file can grow beyond so many bytes
#include <sys/resource.h>
#include <csignal>
static Reg a5( "lim", []( const Args &a )
{
  struct rlimit o, n;
  getrlimit( RLIMIT_FSIZE, &o );
  n = o; n.rlim_cur = ( rlim_t ) std::stoull( a[0] );
  signal( SIGXFSZ, SIG_IGN );
  setrlimit( RLIMIT_FSIZE, &n );
  std::string r;
  try { r = std::to_string( call( Args( a.begin() + 1, a.end() ) ) ); }
  catch ( ... ) { setrlimit( RLIMIT_FSIZE, &o ); throw; }
  setrlimit( RLIMIT_FSIZE, &o );
  return r;
} );
