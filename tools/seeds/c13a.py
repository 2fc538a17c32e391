PROPERTY = 'C13'
NEEDS = 'a trigger whose SQL contains a percent sign that SQLite takes for a format'
BREAKS = 'the trigger is recreated with another definition after the changes were applied'
EDITS = [('drivers/sqlitedriver.cpp', '    statament.prepare( mDb, "%s", cmd.c_str() );', '    statament.prepare( mDb, cmd.c_str() );')]
DEMO = r'''
#include "demo_common.h"
typedef std::vector<ChangesetEntry> Es;
static Es rd( const std::string &f )
{
  Es out;
  ChangesetReader r;
  CHECK( r.open( f ) );
  ChangesetEntry e;
  while ( r.nextEntry( e ) ) out.push_back( e );
  return out;
}

static void mk( const std::string &f, const std::string &t, std::vector<bool> pk, const Es &es )
{
  ChangesetWriter w;
  CHECK( w.open( f ) );
  ChangesetTable tb = tab( t, pk );
  w.beginTable( tb );
  for ( const ChangesetEntry &e : es ) w.writeEntry( e );
}

int main()
{
  exec( "b.db", "CREATE TABLE t(id INTEGER PRIMARY KEY, a TEXT UNIQUE); INSERT INTO t VALUES(1, 'x'), (2, 'y'); "
        "CREATE TRIGGER trg BEFORE INSERT ON t WHEN new.a LIKE '100%%x' BEGIN SELECT RAISE(ABORT, 'no'); END;" );
  std::string before = query( "b.db", "SELECT sql FROM sqlite_master WHERE type='trigger'" );
  mk( "c", "t", { true, false }, { ins( { vi( 3 ), vt( "z" ) } ) } );
  CHECK( GEODIFF_applyChangeset( "b.db", "c" ) == GEODIFF_SUCCESS );
  CHECK( query( "b.db", "SELECT sql FROM sqlite_master WHERE type='trigger'" ) == before );
  return 0;
}
'''
