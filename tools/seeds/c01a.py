PROPERTY = "C01"
NEEDS = "a 64-bit number whose highest bit is bit 56 (2^56 .. 2^57-1), written and read back"
BREAKS = "numbers with 57 bits are written as nine 7-bit groups instead of eight groups and a full byte, so they do not decode to themselves"
EDITS = [("changesetvarint.h", "if ( v & ( ( ( u64 )0xff000000 ) << 32 ) )", "if ( v & ( ( ( u64 )0xfe000000 ) << 32 ) )")]
DEMO = r'''
#include <assert.h>
#include "demo_common.h"
#include "changesetvarint.h"
int main()
{
  for ( int b = 0; b < 64; ++b )
    for ( int d = -1; d <= 1; ++d )
    {
      u64 v = ( ( u64 )1 << b ) + d, r = 0;
      unsigned char buf[16] = { 0 };
      int n = sqlite3PutVarint( buf, v );
      int k = sqlite3GetVarint( buf, &r );
      CHECK( n == k && r == v );
    }
  return 0;
}
'''
