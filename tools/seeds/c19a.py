PROPERTY = "C19"
NEEDS = "a column whose type is not 'integer' by name in lower case letters (for instance TINYINT) and that is an auto-increment key"
BREAKS = "the small integer types are no longer turned into serial columns"
EDITS = [("tableschema.cpp", """    if ( col.type == "int" || col.type == "integer" || col.type == "smallint" ||
         col.type == "mediumint" || col.type == "bigint" || col.type == "tinyint" )
    {
      col.type = "integer";
    }
""", """    if ( col.type == "int" || col.type == "integer" || col.type == "mediumint" )
    {
      col.type = "integer";
    }
    else if ( col.type == "smallint" || col.type == "bigint" || col.type == "tinyint" )
    {
      col.type = "integer";
      continue;
    }
""")]
DEMO = r'''
#include "demo_common.h"
#include "tableschema.h"
int main()
{
  TableSchema t;
  t.name = "t";
  TableColumnInfo c;
  c.name = "fid"; c.type = "BIGINT"; c.isPrimaryKey = true; c.isAutoIncrement = true;
  t.columns.push_back( c );
  tableSchemaConvert( "sqlite", "postgres", t );
  CHECK( t.columns[0].type == "serial" );
  return 0;
}
'''
