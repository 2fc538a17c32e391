PROPERTY = 'C17'
NEEDS = 'a PostgreSQL name that is lower case and a reserved word'
BREAKS = 'names that look simple are not quoted, so reserved words do not denote the table or column'
EDITS = [('drivers/postgresutils.cpp', '  std::string result = replace( ident, "\\"", "\\"\\"" );\n  return "\\"" + result + "\\"";', '  if ( !ident.empty() && !( ident[0] >= \'0\' && ident[0] <= \'9\' ) && ident.find_first_not_of( "abcdefghijklmnopqrstuvwxyz0123456789_" ) == std::string::npos )\n    return ident;\n\n  std::string result = replace( ident, "\\"", "\\"\\"" );\n  return "\\"" + result + "\\"";')]
DEMO = r'''
#include "demo_common.h"
#include "postgresutils.h"
int main()
{
  CHECK( quotedIdentifier( "user" ) == "\"user\"" );
  CHECK( quotedIdentifier( "a\"b" ) == "\"a\"\"b\"" );
  return 0;
}
'''
