PROPERTY = 'C15'
NEEDS = 'creating the rebased changeset fails (output not writable, input missing) without any conflict'
BREAKS = 'a failed rebase without conflicts is reported as success'
EDITS = [('geodiff.cpp', '    if ( rc == GEODIFF_SUCCESS )\n    {\n      // output conflicts', '    if ( rc != GEODIFF_SUCCESS )\n      Logger::instance().error( "Unable to rebase" );\n    else\n    {\n      // output conflicts'), ('geodiff.cpp', '        std::string res = conflictsToJSON( conflicts );\n        flushString( conflictfile, res );\n      }\n    }\n    return rc;', '        std::string res = conflictsToJSON( conflicts );\n        flushString( conflictfile, res );\n      }\n    }\n    return conflicts.empty() ? GEODIFF_SUCCESS : rc;')]
DEMO = r'''
#include "demo_common.h"
int main()
{
  {
    ChangesetWriter w; CHECK( w.open( "c" ) );
    ChangesetTable tb = tab( "t", { true } ); w.beginTable( tb ); w.writeEntry( ins( { vi( 1 ) } ) );
  }
  CHECK( GEODIFF_createRebasedChangesetEx( "sqlite", "", "b", "c", "c", "nodir/out", "conf" ) != GEODIFF_SUCCESS );
  CHECK( GEODIFF_createRebasedChangesetEx( "sqlite", "", "b", "missing", "c", "out", "conf" ) != GEODIFF_SUCCESS );
  return 0;
}
'''
