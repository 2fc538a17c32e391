PROPERTY = 'C21'
NEEDS = 'a change that matches more than one row (key not enforced by the database, as in a view or inherited tables)'
BREAKS = 'a delete of several rows is accepted and committed'
EDITS = [('drivers/postgresdriver.cpp', '      if ( res.affectedRows() != "1" )\n      {\n        logApplyConflict( "delete_nothing", entry );', '      if ( res.affectedRows() == "0" )\n      {\n        logApplyConflict( "delete_nothing", entry );')]
LIBS = ""
FILES = {"pq_mock.h": open(__file__.rsplit("/", 2)[0] + "/seedlib/pq_mock.h").read()}
DEMO = r'''
#include "demo_common.h"
#include "pq_mock.h"
static void mk( const std::string &f, const std::string &t, std::vector<bool> pk, const std::vector<ChangesetEntry> &es )
{
  ChangesetWriter w;
  CHECK( w.open( f ) );
  ChangesetTable tb = tab( t, pk );
  w.beginTable( tb );
  for ( const ChangesetEntry &e : es ) w.writeEntry( e );
}
static bool schemaAnswer( const std::string &s, MockRes &r, const char *seq )
{
  if ( has( s, "pg_namespace" ) && has( s, "attname" ) ) { r.rows = { { "id", "integer", "t", "t", seq }, { "a", "text", "f", "f", "f" } }; return true; }
  if ( has( s, "EXISTS" ) || has( s, "schemata" ) || has( s, "nspname" ) ) { r.rows = { { "t" } }; return true; }
  return false;
}

int main()
{
  mk( "c", "t", { true, false }, { del( { vi( 1 ), vt( "x" ) } ) } );
  pqAnswer = []( const std::string &s, MockRes &r ) { if ( !schemaAnswer( s, r, "f" ) && has( s, "DELETE" ) ) r.affected = "2"; };
  CHECK( GEODIFF_applyChangesetEx( "postgres", "x", "public", "c" ) != GEODIFF_SUCCESS );
  CHECK( logged( "DELETE" ) == 1 && logged( "COMMIT" ) == 0 && logged( "ROLLBACK" ) == 1 );
  return 0;
}
'''
