PROPERTY = "C16"
NEEDS = "two or three bytes whose second byte has bit 5 set in the sextet position (0x2? after masking)"
BREAKS = "decoding a padded base64 text loses one bit of the second byte of the last, incomplete group"
EDITS = [("3rdparty/base64utils.cpp", """    char_array_3[1] = ( ( char_array_4[1] & 0xf ) << 4 ) + ( ( char_array_4[2] & 0x3c ) >> 2 );
    char_array_3[2] = ( ( char_array_4[2] & 0x3 ) << 6 ) + char_array_4[3];

    for ( j = 0""", """    char_array_3[1] = ( ( char_array_4[1] & 0xf ) << 4 ) + ( ( char_array_4[2] & 0x1c ) >> 2 );
    char_array_3[2] = ( ( char_array_4[2] & 0x3 ) << 6 ) + char_array_4[3];

    for ( j = 0""")]
DEMO = r'''
#include "demo_common.h"
#include "3rdparty/base64utils.h"
int main()
{
  for ( int a = 0; a < 256; ++a )
  {
    std::string s( "\x11", 1 ); s += ( char ) a;
    CHECK( base64_decode( base64_encode( ( const unsigned char * ) s.data(), ( unsigned ) s.size() ) ) == s );
  }
  return 0;
}
'''
