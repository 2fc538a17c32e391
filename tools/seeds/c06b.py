PROPERTY = "C06"
NEEDS = "a conflict in a column whose base value and their value have the same JSON text (for example the text '1' against the integer 1 does not, NULL against NULL does)"
BREAKS = "the base value is missing from the conflict listing of that column"
EDITS = [("changesetutils.cpp", "    if ( !strValueBase.empty() )", "    if ( !strValueBase.empty() && strValueBase != strValueNew )")]
DEMO = r'''
#include "demo_common.h"
int main()
{
  ConflictFeature f( 3, "t" );
  f.addItem( ConflictItem( 1, vi( 1 ), vi( 2 ), vi( 1 ) ) );
  std::string s = conflictsToJSON( { f } );
  CHECK( s.find( "\"base\": 1" ) != std::string::npos );
  CHECK( s.find( "\"old\": 2" ) != std::string::npos );
  CHECK( s.find( "\"new\": 1" ) != std::string::npos );
  return 0;
}
'''
