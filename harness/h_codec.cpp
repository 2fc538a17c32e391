#include "hval.h"
#include "changesetreader.h"
#include "changesetwriter.h"
#include "changesetutils.h"
#include "geodiffutils.hpp"

static Reg r1( "wr", []( const Args &a ) -> std::string   // wr <file> (T name pk | E ...)*
{
  ChangesetWriter w;
  if ( !w.open( a[0] ) ) return "noopen";
  std::string res;
  for ( size_t i = 1; i < a.size(); )
  {
    if ( a[i] == "T" )
    {
      ChangesetTable t;
      t.name = ux( a[i + 1] );
      for ( char c : a[i + 2].substr( 1 ) ) t.primaryKeys.push_back( c == '1' );
      w.beginTable( t );
      i += 3;
    }
    else
    {
      ++i;
      ChangesetEntry e = parseEntry( a, i );
      try { w.writeEntry( e ); res += "w"; }
      catch ( const GeoDiffException & ) { res += "x"; }
    }
  }
  return "r" + res;
} );

static std::string readAll( ChangesetReader &r, bool &failed )
{
  std::string res;
  failed = false;
  ChangesetEntry e;
  size_t n = 0;
  try
  {
    while ( r.nextEntry( e ) )
    {
      res += " " + showEntry( e );
      if ( ++n > 200000 ) return res + " RUNAWAY";
    }
    res += " END";
    if ( r.nextEntry( e ) ) res += " AGAIN";
  }
  catch ( const GeoDiffException & ) { res += " ERR"; failed = true; }
  return res;
}

static Reg r2( "rd", []( const Args &a ) -> std::string
{
  ChangesetReader r;
  if ( !r.open( a[0] ) ) return "noopen";
  bool empty = r.isEmpty(), f;
  std::string one = readAll( r, f );
  r.rewind();
  std::string two = readAll( r, f );
  return std::string( empty ? "empty" : "data" ) + ( one == two ? " same" : " DIFFERENT" ) + one;
} );

static Reg r2b( "rdp", []( const Args &a ) -> std::string    // read k entries, rewind, read all
{
  ChangesetReader r;
  if ( !r.open( a[0] ) ) return "noopen";
  ChangesetEntry e;
  int k = std::stoi( a[1] );
  try { while ( k-- > 0 && r.nextEntry( e ) ) {} } catch ( const GeoDiffException & ) {}
  r.rewind();
  bool f;
  return readAll( r, f );
} );

static Reg r3( "inv", []( const Args &a ) -> std::string
{
  ChangesetReader r;
  if ( !r.open( a[0] ) ) return "noopen";
  ChangesetWriter w;
  if ( !w.open( a[1] ) ) return "noopen2";
  invertChangeset( r, w );
  return "done";
} );
static Reg r4( "json", []( const Args &a ) -> std::string
{
  ChangesetReader r;
  if ( !r.open( a[0] ) ) return "noopen";
  return hx( changesetToJSON( r ) );
} );
static Reg r5( "summary", []( const Args &a ) -> std::string
{
  ChangesetReader r;
  if ( !r.open( a[0] ) ) return "noopen";
  return hx( changesetToJSONSummary( r ) );
} );
// conflicts: F name pk n (col base theirs ours)*
static Reg r6( "cjson", []( const Args &a ) -> std::string
{
  std::vector<ConflictFeature> cs;
  for ( size_t i = 0; i < a.size(); )
  {
    ++i;
    std::string name = ux( a[i++] );
    int pk = std::stoi( a[i++] );
    ConflictFeature f( pk, name );
    int n = std::stoi( a[i++] );
    while ( n-- > 0 )
    {
      int c = std::stoi( a[i] );
      f.addItem( ConflictItem( c, parseVal( a[i + 1] ), parseVal( a[i + 2] ), parseVal( a[i + 3] ) ) );
      i += 4;
    }
    cs.push_back( f );
  }
  return hx( conflictsToJSON( cs ) );
} );
