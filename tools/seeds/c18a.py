PROPERTY = "C18"
NEEDS = "a text or blob value with a zero byte inside"
BREAKS = "two different texts or blobs that agree up to their first zero byte compare as equal"
EDITS = [("changeset.h", "        return getString() == other.getString();", "        return getString().size() == other.getString().size() && std::string( getString().c_str() ) == other.getString().c_str();")]
DEMO = r'''
#include "demo_common.h"
int main()
{
  CHECK( vb( std::string( "a\0b", 3 ) ) != vb( std::string( "a\0c", 3 ) ) );
  CHECK( vb( std::string( "a\0b", 3 ) ) == vb( std::string( "a\0b", 3 ) ) );
  return 0;
}
'''
