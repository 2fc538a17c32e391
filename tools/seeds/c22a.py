PROPERTY = "C22"
NEEDS = "a replacement text that contains the searched text (as doubling quotes does) and two adjacent occurrences"
BREAKS = "an occurrence directly after a replaced one is skipped when the replacement is longer than the searched text"
EDITS = [("geodiffutils.cpp", "    i = i + replacestr.size();", "    i = i + std::max( replacestr.size(), substr.size() + 2 );")]
DEMO = r"""
#include "demo_common.h"
int main()
{
  CHECK( replace( "ab", "b", "bb" ) == "abb" );
  CHECK( replace( "x''y", "'", "''" ) == "x''''y" );
  return 0;
}
"""
