PROPERTY = 'C09'
NEEDS = 'the other user set a column to NULL in a row that we delete'
BREAKS = 'the rebased delete keeps our old value instead of their NULL, so it no longer matches the row'
EDITS = [('geodiffrebase.cpp', '      if ( patchedVal.type() != Value::TypeUndefined )\n      {\n        value = patchedVal;', '      if ( patchedVal.type() != Value::TypeUndefined && patchedVal.type() != Value::TypeNull )\n      {\n        value = patchedVal;')]
DEMO = r'''
#include "demo_common.h"
#include "geodiffrebase.hpp"
typedef std::vector<ChangesetEntry> Es;
static void mk( const std::string &f, const std::string &t, std::vector<bool> pk, const Es &es )
{
  ChangesetWriter w;
  CHECK( w.open( f ) );
  ChangesetTable tb = tab( t, pk );
  w.beginTable( tb );
  for ( const ChangesetEntry &e : es ) w.writeEntry( e );
}
static Es rd( const std::string &f )
{
  Es out;
  ChangesetReader r;
  CHECK( r.open( f ) );
  ChangesetEntry e;
  while ( r.nextEntry( e ) ) out.push_back( e );
  return out;
}

int main()
{
  mk( "theirs", "t", { true, false, false }, { upd( { vi( 7 ), vt( "x" ), vu() }, { vu(), vn(), vu() } ) } );
  mk( "ours", "t", { true, false, false }, { del( { vi( 7 ), vt( "x" ), vi( 1 ) } ) } );
  std::vector<ConflictFeature> cs;
  CHECK( rebase( "theirs", "out", "ours", cs ) == GEODIFF_SUCCESS );
  Es es = rd( "out" );
  CHECK( es.size() == 1 );
  CHECK( es[0].oldValues[0] == vi( 7 ) && es[0].oldValues[1] == vn() && es[0].oldValues[2] == vi( 1 ) );
  return 0;
}
'''
