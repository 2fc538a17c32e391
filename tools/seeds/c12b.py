PROPERTY = 'C12'
NEEDS = 'an integer of an untyped (or numeric) column becomes a real number with the same integer part, or the other way round'
BREAKS = 'the changed column is recorded as unchanged'
EDITS = [('drivers/sqlitedriver.cpp', '  if ( type1 != type2 )\n', '  if ( type1 != type2 && ( type1 > SQLITE_FLOAT || type2 > SQLITE_FLOAT ) ) // numbers are compared below\n')]
DEMO = r'''
#include "demo_common.h"
typedef std::vector<ChangesetEntry> Es;
static Es rd( const std::string &f )
{
  Es out;
  ChangesetReader r;
  CHECK( r.open( f ) );
  ChangesetEntry e;
  while ( r.nextEntry( e ) ) out.push_back( e );
  return out;
}

int main()
{
  // an integer becomes a real with the same integer part
  const char *s = "CREATE TABLE t(id INTEGER PRIMARY KEY, a, b); INSERT INTO t VALUES(1, 5, 'x');";
  exec( "b.db", s ); exec( "m.db", s );
  exec( "m.db", "UPDATE t SET a = 5.5 WHERE id = 1" );
  CHECK( GEODIFF_createChangeset( "b.db", "m.db", "c" ) == GEODIFF_SUCCESS );
  Es es = rd( "c" );
  CHECK( es.size() == 1 && es[0].newValues[1] == vd( 5.5 ) && es[0].oldValues[1] == vi( 5 ) );
  return 0;
}
'''
