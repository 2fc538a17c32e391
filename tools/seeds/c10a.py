PROPERTY = 'C10'
NEEDS = 'both users changed the same column of the same row to the same value'
BREAKS = 'no conflict is reported for a column that both sides changed to the same value'
EDITS = [('geodiffrebase.cpp', '    if ( patchedVal.type() != Value::TypeUndefined )\n    {\n      outEntry.oldValues[i] = patchedVal;\n', '    if ( patchedVal.type() != Value::TypeUndefined && patchedVal == entry.newValues[i] )\n    {\n      outEntry.oldValues[i] = patchedVal;\n    }\n    else if ( patchedVal.type() != Value::TypeUndefined )\n    {\n      outEntry.oldValues[i] = patchedVal;\n')]
DEMO = r'''
#include "demo_common.h"
#include "geodiffrebase.hpp"
typedef std::vector<ChangesetEntry> Es;
static void mk( const std::string &f, const std::string &t, std::vector<bool> pk, const Es &es )
{
  ChangesetWriter w;
  CHECK( w.open( f ) );
  ChangesetTable tb = tab( t, pk );
  w.beginTable( tb );
  for ( const ChangesetEntry &e : es ) w.writeEntry( e );
}
static Es rd( const std::string &f )
{
  Es out;
  ChangesetReader r;
  CHECK( r.open( f ) );
  ChangesetEntry e;
  while ( r.nextEntry( e ) ) out.push_back( e );
  return out;
}

int main()
{
  mk( "theirs", "t", { true, false, false }, { upd( { vi( 7 ), vt( "x" ), vi( 1 ) }, { vu(), vt( "n" ), vi( 2 ) } ) } );
  mk( "ours", "t", { true, false, false }, { upd( { vi( 7 ), vt( "x" ), vi( 1 ) }, { vu(), vt( "n" ), vi( 3 ) } ) } );
  std::vector<ConflictFeature> cs;
  CHECK( rebase( "theirs", "out", "ours", cs ) == GEODIFF_SUCCESS );
  CHECK( cs.size() == 1 && cs[0].items().size() == 2 && cs[0].items()[0].column() == 1 && cs[0].items()[1].column() == 2 );
  return 0;
}
'''
