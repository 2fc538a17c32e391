PROPERTY = 'C10'
NEEDS = 'a table whose name starts with gpkg_contents (not gpkg_contents itself) with a conflict in its fifth column'
BREAKS = 'a conflict of another table is left out'
EDITS = [('geodiffrebase.cpp', '  if ( ( conflictFeature.tableName() == "gpkg_contents" ) && ( i == 4 ) )', '  if ( ( conflictFeature.tableName().rfind( "gpkg_contents", 0 ) == 0 ) && ( i == 4 ) )')]
DEMO = r'''
#include "demo_common.h"
#include "geodiffrebase.hpp"
typedef std::vector<ChangesetEntry> Es;
static void mk( const std::string &f, const std::string &t, std::vector<bool> pk, const Es &es )
{
  ChangesetWriter w;
  CHECK( w.open( f ) );
  ChangesetTable tb = tab( t, pk );
  w.beginTable( tb );
  for ( const ChangesetEntry &e : es ) w.writeEntry( e );
}
static Es rd( const std::string &f )
{
  Es out;
  ChangesetReader r;
  CHECK( r.open( f ) );
  ChangesetEntry e;
  while ( r.nextEntry( e ) ) out.push_back( e );
  return out;
}

int main()
{
  Value u = vu();
  mk( "theirs", "gpkg_contents_notes", { true, false, false, false, false }, { upd( { vi( 7 ), u, u, u, vt( "a" ) }, { u, u, u, u, vt( "b" ) } ) } );
  mk( "ours", "gpkg_contents_notes", { true, false, false, false, false }, { upd( { vi( 7 ), u, u, u, vt( "a" ) }, { u, u, u, u, vt( "c" ) } ) } );
  std::vector<ConflictFeature> cs;
  CHECK( rebase( "theirs", "out", "ours", cs ) == GEODIFF_SUCCESS );
  CHECK( cs.size() == 1 && cs[0].items().size() == 1 && cs[0].items()[0].column() == 4 );
  return 0;
}
'''
