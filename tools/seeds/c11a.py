PROPERTY = 'C11'
NEEDS = 'the guard is destroyed because of an exception'
BREAKS = 'temporary files stay behind when an operation fails'
EDITS = [('geodiffutils.cpp', '  if ( fileexists( mPath ) )\n  {\n    fileremove( mPath );', '  if ( !std::uncaught_exception() && fileexists( mPath ) )\n  {\n    fileremove( mPath );')]
DEMO = r'''
#include "demo_common.h"
int main()
{
  try { TmpFile f( "tmp1" ); put( "tmp1", "x" ); throw GeoDiffException( "e" ); }
  catch ( GeoDiffException & ) {}
  CHECK( !fileexists( "tmp1" ) );
  { TmpFile f( "tmp2" ); put( "tmp2", "x" ); }
  CHECK( !fileexists( "tmp2" ) );
  return 0;
}
'''
