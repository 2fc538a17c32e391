PROPERTY = "C07"
NEEDS = "more than 65535 inserts into one table"
BREAKS = "the number of inserts in the summary wraps around"
EDITS = [("changesetutils.cpp", "  int inserts;\n", "  unsigned short inserts;\n")]
DEMO = r'''
#include "demo_common.h"
int main()
{
  {
    ChangesetWriter w;
    CHECK( w.open( "a" ) );
    w.beginTable( tab( "t", { true } ) );
    for ( int i = 0; i < 65537; ++i )
      w.writeEntry( ins( { vi( i ) } ) );
  }
  CHECK( GEODIFF_listChangesSummary( "a", "a.json" ) == GEODIFF_SUCCESS );
  CHECK( get( "a.json" ).find( "\"insert\": 65537" ) != std::string::npos );
  return 0;
}
'''
