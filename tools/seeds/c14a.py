PROPERTY = "C14"
NEEDS = "two GeoPackages that differ only in whether a geometry column has M values"
BREAKS = "the schemas count as equal and a changeset is created"
EDITS = [("tableschema.h", "           geomHasZ == other.geomHasZ && geomHasM == other.geomHasM;", "           geomHasZ == other.geomHasZ && geomHasZ == other.geomHasZ;")]
DEMO = r"""
#include "demo_common.h"
static const char *S = "CREATE TABLE gpkg_spatial_ref_sys(srs_name TEXT, srs_id INTEGER PRIMARY KEY, organization TEXT, organization_coordsys_id INTEGER, definition TEXT, description TEXT);"
        "INSERT INTO gpkg_spatial_ref_sys VALUES('x', 4326, 'EPSG', 4326, 'def', '');"
        "CREATE TABLE gpkg_contents(table_name TEXT PRIMARY KEY, data_type TEXT, identifier TEXT, description TEXT, last_change TEXT, min_x, min_y, max_x, max_y, srs_id INTEGER);"
        "INSERT INTO gpkg_contents VALUES('t', 'features', 't', '', '', 0, 0, 0, 0, 4326);"
        "CREATE TABLE gpkg_geometry_columns(table_name TEXT PRIMARY KEY, column_name TEXT, geometry_type_name TEXT, srs_id INTEGER, z INTEGER, m INTEGER);"
        "INSERT INTO gpkg_geometry_columns VALUES('t', 'geom', 'POINT', 4326, 0, 0);"
        "CREATE TABLE t(id INTEGER PRIMARY KEY, geom POINT, a TEXT);";
int main()
{
  exec( "b.db", S );
  exec( "m.db", S );
  CHECK( GEODIFF_createChangeset( "b.db", "m.db", "c" ) == GEODIFF_SUCCESS );
  exec( "m.db", "UPDATE gpkg_geometry_columns SET m = 1" );
  CHECK( GEODIFF_createChangeset( "b.db", "m.db", "c" ) != GEODIFF_SUCCESS );
  return 0;
}
"""
