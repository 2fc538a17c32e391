PROPERTY = 'C17'
NEEDS = 'a SQLite table name with a quote, with changes of a CRS-independent kind: the dump of all data'
BREAKS = 'a table name with an embedded double quote breaks out of the quotes'
EDITS = [('drivers/sqlitedriver.cpp', '    statementI.prepare( mDb, "SELECT * FROM \\"%w\\".\\"%w\\"", dbName.c_str(), tableName.c_str() );', '    statementI.prepare( mDb, "SELECT * FROM \\"%w\\".\\"%s\\"", dbName.c_str(), tableName.c_str() );')]
DEMO = r'''
#include "demo_common.h"
int main()
{
  exec( "b.db", "CREATE TABLE \"x\"\"y\"(id INTEGER PRIMARY KEY, a); INSERT INTO \"x\"\"y\" VALUES(1, 2);" );
  CHECK( GEODIFF_dumpData( "sqlite", "", "b.db", "c" ) == GEODIFF_SUCCESS );
  CHECK( GEODIFF_changesCount( "c" ) == 1 );
  return 0;
}
'''
