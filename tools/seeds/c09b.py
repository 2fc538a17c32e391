PROPERTY = 'C09'
NEEDS = 'both users deleted the same row and we have more changes of that table after that delete'
BREAKS = 'the rest of our changes of the table is lost after a dropped change'
EDITS = [('geodiffrebase.cpp', '    if ( writeEntry )\n      tableChanges[tableName].push_back( outEntry );', '    if ( !writeEntry && entry.op == ChangesetEntry::OpDelete )\n      skipped.insert( tableName );\n    if ( skipped.find( tableName ) == skipped.end() && writeEntry )\n      tableChanges[tableName].push_back( outEntry );'), ('geodiffrebase.cpp', '  std::map<std::string, ChangesetTable> tableDefinitions;\n', '  std::map<std::string, ChangesetTable> tableDefinitions;\n  std::set<std::string> skipped;\n')]
DEMO = r'''
#include "demo_common.h"
#include "geodiffrebase.hpp"
typedef std::vector<ChangesetEntry> Es;
static void mk( const std::string &f, const std::string &t, std::vector<bool> pk, const Es &es )
{
  ChangesetWriter w;
  CHECK( w.open( f ) );
  ChangesetTable tb = tab( t, pk );
  w.beginTable( tb );
  for ( const ChangesetEntry &e : es ) w.writeEntry( e );
}
static Es rd( const std::string &f )
{
  Es out;
  ChangesetReader r;
  CHECK( r.open( f ) );
  ChangesetEntry e;
  while ( r.nextEntry( e ) ) out.push_back( e );
  return out;
}

int main()
{
  mk( "theirs", "t", { true, false }, { del( { vi( 1 ), vt( "a" ) } ) } );
  mk( "ours", "t", { true, false }, { del( { vi( 1 ), vt( "a" ) } ), del( { vi( 2 ), vt( "b" ) } ), upd( { vi( 3 ), vt( "c" ) }, { vu(), vt( "d" ) } ) } );
  std::vector<ConflictFeature> cs;
  CHECK( rebase( "theirs", "out", "ours", cs ) == GEODIFF_SUCCESS );
  CHECK( rd( "out" ).size() == 2 );
  return 0;
}
'''
