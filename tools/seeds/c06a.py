PROPERTY = "C06"
NEEDS = "a text value with a zero byte inside"
BREAKS = "the JSON listing shows only the part of the text before the zero byte"
EDITS = [("changesetutils.cpp", "      return escapeJSONString( value.getString() );", "      return escapeJSONString( value.getString().c_str() );")]
DEMO = r'''
#include "demo_common.h"
int main()
{
  {
    ChangesetWriter w;
    CHECK( w.open( "a" ) );
    w.beginTable( tab( "t", { true, false } ) );
    w.writeEntry( ins( { vi( 1 ), vt( std::string( "ab\0cd", 5 ) ) } ) );
  }
  CHECK( GEODIFF_listChanges( "a", "a.json" ) == GEODIFF_SUCCESS );
  CHECK( get( "a.json" ).find( "\"ab\\u0000cd\"" ) != std::string::npos );
  return 0;
}
'''
