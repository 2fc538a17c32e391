PROPERTY = "C05"
NEEDS = "an update in a table with a composite primary key, none of whose key columns changed"
BREAKS = "only the first unchanged key column is moved to the old side, so the second key value of the inverted update is lost from the old record"
EDITS = [("changesetutils.cpp", "          out.newValues[i].setUndefined();\n", "          out.newValues[i].setUndefined();\n          break;\n")]
DEMO = r'''
#include "demo_common.h"
int main()
{
  {
    ChangesetWriter w;
    CHECK( w.open( "a" ) );
    w.beginTable( tab( "t", { true, true, false } ) );
    w.writeEntry( upd( { vi( 1 ), vt( "k" ), vi( 10 ) }, { vu(), vu(), vi( 11 ) } ) );
  }
  {
    ChangesetReader r;
    CHECK( r.open( "a" ) );
    ChangesetWriter w;
    CHECK( w.open( "b" ) );
    invertChangeset( r, w );
  }
  ChangesetReader r;
  CHECK( r.open( "b" ) );
  ChangesetEntry e;
  CHECK( r.nextEntry( e ) );
  CHECK( e.oldValues[0] == vi( 1 ) && e.oldValues[1] == vt( "k" ) && e.oldValues[2] == vi( 11 ) );
  CHECK( e.newValues[0] == vu() && e.newValues[1] == vu() && e.newValues[2] == vi( 10 ) );
  return 0;
}
'''
