PROPERTY = 'C13'
NEEDS = 'a delete of a row in which only the geometry differs from the recorded old value'
BREAKS = 'a row that was changed meanwhile is deleted instead of reporting a conflict'
EDITS = [('drivers/sqlitedriver.cpp', '    if ( tbl.columns[i].isPrimaryKey )\n      sql += sqlitePrintf( "\\"%w\\" = ?", tbl', '    if ( tbl.columns[i].isGeometry ) // geometries may be encoded in different ways\n      sql += sqlitePrintf( "( \\"%w\\" IS NULL ) = ( ? IS NULL )", tbl.columns[i].name.c_str() );\n    else if ( tbl.columns[i].isPrimaryKey )\n      sql += sqlitePrintf( "\\"%w\\" = ?", tbl')]
DEMO = r'''
#include "demo_common.h"
typedef std::vector<ChangesetEntry> Es;
static Es rd( const std::string &f )
{
  Es out;
  ChangesetReader r;
  CHECK( r.open( f ) );
  ChangesetEntry e;
  while ( r.nextEntry( e ) ) out.push_back( e );
  return out;
}

static void mk( const std::string &f, const std::string &t, std::vector<bool> pk, const Es &es )
{
  ChangesetWriter w;
  CHECK( w.open( f ) );
  ChangesetTable tb = tab( t, pk );
  w.beginTable( tb );
  for ( const ChangesetEntry &e : es ) w.writeEntry( e );
}

int main()
{
  exec( "b.db", "CREATE TABLE gpkg_spatial_ref_sys(srs_name TEXT, srs_id INTEGER PRIMARY KEY, organization TEXT, organization_coordsys_id INTEGER, definition TEXT, description TEXT);"
        "INSERT INTO gpkg_spatial_ref_sys VALUES('x', 4326, 'EPSG', 4326, 'def', '');"
        "CREATE TABLE gpkg_contents(table_name TEXT PRIMARY KEY, data_type TEXT, identifier TEXT, description TEXT, last_change TEXT, min_x, min_y, max_x, max_y, srs_id INTEGER);"
        "INSERT INTO gpkg_contents VALUES('t', 'features', 't', '', '', 0, 0, 0, 0, 4326);"
        "CREATE TABLE gpkg_geometry_columns(table_name TEXT PRIMARY KEY, column_name TEXT, geometry_type_name TEXT, srs_id INTEGER, z INTEGER, m INTEGER);"
        "INSERT INTO gpkg_geometry_columns VALUES('t', 'geom', 'POINT', 4326, 0, 0);"
        "CREATE TABLE t(id INTEGER PRIMARY KEY, geom POINT, a TEXT); INSERT INTO t VALUES(1, x'47500001e61000000101', 'x');" );
  mk( "c", "t", { true, false, false }, { del( { vi( 1 ), vb( std::string( "GP\0\1\xe6\x10\0\0\1\2", 10 ) ), vt( "x" ) } ) } );
  CHECK( GEODIFF_applyChangeset( "b.db", "c" ) != GEODIFF_SUCCESS );
  CHECK( query( "b.db", "SELECT id FROM t" ) == "1;" );
  return 0;
}
'''
