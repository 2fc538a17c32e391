PROPERTY = "C04"
NEEDS = "a table header whose column count has the highest bit of 32 bits set (2^31 or more)"
BREAKS = "an over-long column count is taken as a table without columns instead of being reported as an error"
EDITS = [("changesetreader.cpp", "if ( nCol < 0 || nCol > 65536 )", "if ( nCol > 65536 )")]
DEMO = r'''
#include "demo_common.h"
int main()
{
  put( "a", std::string( "T\x8f\xff\xff\xff\x7ft\x00\x12\x00", 10 ) );
  ChangesetReader r;
  CHECK( r.open( "a" ) );
  ChangesetEntry e;
  bool failed = false;
  try { r.nextEntry( e ); }
  catch ( const GeoDiffException & ) { failed = true; }
  CHECK( failed );
  return 0;
}
'''
