PROPERTY = 'C21'
NEEDS = 'a table with an auto-incremented key whose sequence cannot be updated'
BREAKS = 'the changes are committed although the last statement failed'
EDITS = [('drivers/postgresdriver.cpp', '  // at the end, update any SEQUENCE objects if needed\n', '  if ( !conflictCount )\n    transaction.commitChanges();\n\n  // at the end, update any SEQUENCE objects if needed (this is not transactional anyway)\n'), ('drivers/postgresdriver.cpp', '  if ( !conflictCount )\n  {\n    transaction.commitChanges();\n  }\n  else\n  {\n', '  if ( conflictCount )\n  {\n')]
LIBS = ""
FILES = {"pq_mock.h": open(__file__.rsplit("/", 2)[0] + "/seedlib/pq_mock.h").read()}
DEMO = r'''
#include "demo_common.h"
#include "pq_mock.h"
static void mk( const std::string &f, const std::string &t, std::vector<bool> pk, const std::vector<ChangesetEntry> &es )
{
  ChangesetWriter w;
  CHECK( w.open( f ) );
  ChangesetTable tb = tab( t, pk );
  w.beginTable( tb );
  for ( const ChangesetEntry &e : es ) w.writeEntry( e );
}
static bool schemaAnswer( const std::string &s, MockRes &r, const char *seq )
{
  if ( has( s, "pg_namespace" ) && has( s, "attname" ) ) { r.rows = { { "id", "integer", "t", "t", seq }, { "a", "text", "f", "f", "f" } }; return true; }
  if ( has( s, "EXISTS" ) || has( s, "schemata" ) || has( s, "nspname" ) ) { r.rows = { { "t" } }; return true; }
  return false;
}

int main()
{
  mk( "c", "t", { true, false }, { ins( { vi( 5 ), vt( "x" ) } ) } );
  pqAnswer = []( const std::string &s, MockRes &r )
  {
    if ( schemaAnswer( s, r, "t" ) ) return;
    if ( has( s, "pg_get_serial_sequence" ) ) r.rows = { { "seq" } };
    if ( has( s, "last_value" ) ) r.rows = { { "1" } };
    if ( has( s, "setval" ) ) r.st = PGRES_FATAL_ERROR;
  };
  CHECK( GEODIFF_applyChangesetEx( "postgres", "x", "public", "c" ) != GEODIFF_SUCCESS );
  CHECK( logged( "INSERT" ) == 1 && logged( "COMMIT" ) == 0 && logged( "ROLLBACK" ) == 1 );
  return 0;
}
'''
