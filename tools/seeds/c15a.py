PROPERTY = 'C15'
NEEDS = 'an empty changeset is applied to a database that does not exist, or with a driver that does not exist'
BREAKS = 'success is reported for an operation that failed'
EDITS = [('geodiff.cpp', '    std::map<std::string, std::string> conn;\n    conn["base"] = std::string( base );\n    if ( driverExtraInfo )\n      conn["conninfo"] = std::string( driverExtraInfo );\n    std::unique_ptr<Driver> driver( Driver::createDriver( std::string( driverName ) ) );\n    if ( !driver )\n      throw GeoDiffException( "Unable to use driver: " + std::string( driverName ) );\n    driver->open( conn );\n\n    ChangesetReader reader;\n    if ( !reader.open( changeset ) )\n      throw GeoDiffException( "Unable to open changeset file for reading: " + std::string( changeset ) );\n    if ( reader.isEmpty() )\n    {\n      Logger::instance().debug( "--- no changes ---" );\n      return GEODIFF_SUCCESS;\n    }\n', '    ChangesetReader reader;\n    if ( !reader.open( changeset ) )\n      throw GeoDiffException( "Unable to open changeset file for reading: " + std::string( changeset ) );\n    if ( reader.isEmpty() )\n    {\n      Logger::instance().debug( "--- no changes ---" );\n      return GEODIFF_SUCCESS;\n    }\n\n    std::map<std::string, std::string> conn;\n    conn["base"] = std::string( base );\n    if ( driverExtraInfo )\n      conn["conninfo"] = std::string( driverExtraInfo );\n    std::unique_ptr<Driver> driver( Driver::createDriver( std::string( driverName ) ) );\n    if ( !driver )\n      throw GeoDiffException( "Unable to use driver: " + std::string( driverName ) );\n    driver->open( conn );\n')]
DEMO = r'''
#include "demo_common.h"
int main()
{
  put( "empty", "" );
  exec( "b.db", "CREATE TABLE t(a INTEGER PRIMARY KEY)" );
  CHECK( GEODIFF_applyChangeset( "b.db", "empty" ) == GEODIFF_SUCCESS );
  CHECK( GEODIFF_applyChangeset( "missing.db", "empty" ) != GEODIFF_SUCCESS );
  CHECK( GEODIFF_applyChangesetEx( "nodriver", "", "b.db", "empty" ) != GEODIFF_SUCCESS );
  return 0;
}
'''
