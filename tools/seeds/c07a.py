PROPERTY = "C07"
NEEDS = "the changes of a table do not come in one run: the changeset has table a, table b and table a again, as after concatenating or rebasing by hand"
BREAKS = "the summary only counts the last run of changes of the table"
EDITS = [("changesetutils.cpp", "    TableSummary &tableSummary = summary[tableName];\n", "    TableSummary &tableSummary = summary[tableName];\n    if ( tableName != lastTable )\n      tableSummary = TableSummary();\n    lastTable = tableName;\n"),
         ("changesetutils.cpp", "  std::map< std::string, TableSummary > summary;\n", "  std::map< std::string, TableSummary > summary;\n  std::string lastTable;\n")]
DEMO = r'''
#include "demo_common.h"
int main()
{
  {
    ChangesetWriter w;
    CHECK( w.open( "a" ) );
    for ( int i = 0; i < 2; ++i )
    {
      w.beginTable( tab( "t", { true } ) );
      w.writeEntry( ins( { vi( 1 + i ) } ) );
      w.beginTable( tab( "u", { true } ) );
      w.writeEntry( del( { vi( 1 + i ) } ) );
    }
  }
  CHECK( GEODIFF_listChangesSummary( "a", "a.json" ) == GEODIFF_SUCCESS );
  std::string s = get( "a.json" );
  CHECK( s.find( "\"insert\": 2" ) != std::string::npos );
  CHECK( s.find( "\"delete\": 2" ) != std::string::npos );
  return 0;
}
'''
