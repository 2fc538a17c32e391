PROPERTY = 'C14'
NEEDS = 'a changeset whose key columns differ from the table only in the last column'
BREAKS = 'the changeset is applied instead of being refused'
EDITS = [('drivers/sqlitedriver.cpp', '      for ( size_t i = 0; i < entry.table->columnCount(); ++i )\n', '      for ( size_t i = 0; i + 1 < entry.table->columnCount(); ++i )\n')]
DEMO = r'''
#include "demo_common.h"
typedef std::vector<ChangesetEntry> Es;
static Es rd( const std::string &f )
{
  Es out;
  ChangesetReader r;
  CHECK( r.open( f ) );
  ChangesetEntry e;
  while ( r.nextEntry( e ) ) out.push_back( e );
  return out;
}

static void mk( const std::string &f, const std::string &t, std::vector<bool> pk, const Es &es )
{
  ChangesetWriter w;
  CHECK( w.open( f ) );
  ChangesetTable tb = tab( t, pk );
  w.beginTable( tb );
  for ( const ChangesetEntry &e : es ) w.writeEntry( e );
}

int main()
{
  exec( "b.db", "CREATE TABLE t(a INTEGER, b TEXT, c INTEGER, PRIMARY KEY(a)); INSERT INTO t VALUES(1, 'x', 2);" );
  mk( "c", "t", { true, false, true }, { del( { vi( 1 ), vt( "x" ), vi( 2 ) } ) } );
  CHECK( GEODIFF_applyChangeset( "b.db", "c" ) != GEODIFF_SUCCESS );
  CHECK( query( "b.db", "SELECT * FROM t" ) == "1,x,2;" );
  return 0;
}
'''
