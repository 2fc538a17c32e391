PROPERTY = "C03"
NEEDS = "two consecutive changes where the second one has an UNDEFINED value in a column in which the first one had a value (an update after an update of other columns)"
BREAKS = "an undefined value leaves the value of the previous change in the record that is reused between calls"
EDITS = [("changesetreader.cpp", "      values[i].setUndefined();", "      if ( values[i].type() == Value::TypeNull )\n        values[i].setUndefined();")]
DEMO = r'''
#include "demo_common.h"
int main()
{
  ChangesetWriter *w = new ChangesetWriter;
  CHECK( w->open( "a" ) );
  w->beginTable( tab( "t", { true, false, false } ) );
  w->writeEntry( upd( { vi( 1 ), vi( 10 ), vu() }, { vu(), vi( 11 ), vu() } ) );
  w->writeEntry( upd( { vi( 2 ), vu(), vi( 20 ) }, { vu(), vu(), vi( 21 ) } ) );
  delete w;
  ChangesetReader r;
  CHECK( r.open( "a" ) );
  ChangesetEntry e;
  CHECK( r.nextEntry( e ) );
  CHECK( r.nextEntry( e ) );
  CHECK( e.oldValues[1].type() == Value::TypeUndefined && e.newValues[1].type() == Value::TypeUndefined );
  CHECK( e.newValues[2].getInt() == 21 );
  CHECK( !r.nextEntry( e ) );
  return 0;
}
'''
