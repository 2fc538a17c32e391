PROPERTY = 'C08'
NEEDS = 'at least three of our inserts whose keys run up to and beyond the first free key, so that an insert that is moved because of an earlier move lands on the key of a later one'
BREAKS = 'two rebased inserts of one table get the same key'
EDITS = [('geodiffrebase.cpp', '        usedNewPkeys.insert( it->second );\n\n', '')]
DEMO = r'''
#include "demo_common.h"
#include "geodiffrebase.hpp"
typedef std::vector<ChangesetEntry> Es;
static void mk( const std::string &f, const std::string &t, std::vector<bool> pk, const Es &es )
{
  ChangesetWriter w;
  CHECK( w.open( f ) );
  ChangesetTable tb = tab( t, pk );
  w.beginTable( tb );
  for ( const ChangesetEntry &e : es ) w.writeEntry( e );
}
static Es rd( const std::string &f )
{
  Es out;
  ChangesetReader r;
  CHECK( r.open( f ) );
  ChangesetEntry e;
  while ( r.nextEntry( e ) ) out.push_back( e );
  return out;
}

int main()
{
  // they inserted 4,5; ours 4,5 go to 6,7, so 6,7 go to 8,9, so 8 must move as well
  mk( "theirs", "t", { true, false }, { ins( { vi( 4 ), vt( "x" ) } ), ins( { vi( 5 ), vt( "y" ) } ) } );
  Es ours;
  for ( int i = 4; i <= 8; ++i ) ours.push_back( ins( { vi( i ), vt( std::to_string( i ) ) } ) );
  mk( "ours", "t", { true, false }, ours );
  std::vector<ConflictFeature> cs;
  CHECK( rebase( "theirs", "out", "ours", cs ) == GEODIFF_SUCCESS );
  Es es = rd( "out" );
  CHECK( es.size() == 5 );
  for ( size_t i = 0; i < es.size(); ++i )
  {
    CHECK( es[i].newValues[0].getInt() > 5 );
    for ( size_t j = 0; j < i; ++j ) CHECK( es[i].newValues[0].getInt() != es[j].newValues[0].getInt() );
  }
  return 0;
}
'''
