#include "hval.h"
#include "geodiffrebase.hpp"
#include "changesetutils.h"
static Reg r1( "rebase", []( const Args &a ) -> std::string   // base_theirs out base_modified
{
  std::vector<ConflictFeature> cs;
  int rc = rebase( a[0], a[1], a[2], cs );
  std::string r = std::to_string( rc );
  for ( const ConflictFeature &f : cs )
  {
    r += " F " + hx( f.tableName() ) + " " + std::to_string( f.pk() ) + " " + std::to_string( f.items().size() );
    for ( const ConflictItem &i : f.items() )
      r += " " + std::to_string( i.column() ) + " " + showVal( i.base() ) + " " + showVal( i.theirs() ) + " " + showVal( i.ours() );
  }
  return r;
} );
static Reg r2( "concat", []( const Args &a ) -> std::string
{
  return concatChangesets( a[0], a[1], a[2], a[3] ) ? "1" : "0";
} );
