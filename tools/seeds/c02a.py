PROPERTY = "C02"
NEEDS = "a real-number column whose value is a negative zero (or any real with only the sign bit set)"
BREAKS = "the writer normalises the bits of a real number that compares equal to zero, so -0.0 is written as 0.0 and the bytes are not those of the value"
EDITS = [("changesetwriter.cpp", "      double v = values[i].getDouble();\n      memcpy( &x, &v, 8 );", "      double v = values[i].getDouble();\n      if ( v == 0 )\n        v = 0;\n      memcpy( &x, &v, 8 );")]
DEMO = r'''
#include "demo_common.h"
int main()
{
  ChangesetWriter *w = new ChangesetWriter;
  CHECK( w->open( "a" ) );
  w->beginTable( tab( "t", { true, false } ) );
  w->writeEntry( ins( { vi( 1 ), vd( -0.0 ) } ) );
  delete w;
  CHECK( get( "a" ) == std::string( "T\x02\x01\x00t\x00\x12\x00\x01\x00\x00\x00\x00\x00\x00\x00\x01\x02\x80\x00\x00\x00\x00\x00\x00\x00", 26 ) );
  return 0;
}
'''
