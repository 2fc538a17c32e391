PROPERTY = 'C12'
NEEDS = 'an integer changes by a multiple of 2^32'
BREAKS = 'the changed column is recorded as unchanged'
EDITS = [('drivers/sqlitedriver.cpp', '    return sqlite3_value_int64( v1 ) == sqlite3_value_int64( v2 );', '    return sqlite3_value_int( v1 ) == sqlite3_value_int( v2 );')]
DEMO = r'''
#include "demo_common.h"
typedef std::vector<ChangesetEntry> Es;
static Es rd( const std::string &f )
{
  Es out;
  ChangesetReader r;
  CHECK( r.open( f ) );
  ChangesetEntry e;
  while ( r.nextEntry( e ) ) out.push_back( e );
  return out;
}

int main()
{
  const char *s = "CREATE TABLE t(id INTEGER PRIMARY KEY, a, b); INSERT INTO t VALUES(1, 5, 'x'), (2, 6, 'y');";
  exec( "b.db", s ); exec( "m.db", s );
  exec( "m.db", "UPDATE t SET a = a + 4294967296 WHERE id = 1" );
  CHECK( GEODIFF_createChangeset( "b.db", "m.db", "c" ) == GEODIFF_SUCCESS );
  Es es = rd( "c" );
  CHECK( es.size() == 1 && es[0].newValues[1] == vi( 4294967301LL ) && es[0].oldValues[1] == vi( 5 ) );
  return 0;
}
'''
