PROPERTY = "C20"
NEEDS = "the maximum level is raised, then the callback is replaced"
BREAKS = "setting a callback silently lowers the maximum level to errors only"
EDITS = [("geodifflogger.cpp", "  mLoggerCallback = loggerCallback;", "  mLoggerCallback = loggerCallback;\n  if ( !loggerCallback )\n    mMaxLogLevel = GEODIFF_LoggerLevel::LevelError; // nothing is logged any more")]
DEMO = r'''
#include "demo_common.h"
#include "geodifflogger.hpp"
static int n = 0;
static void cb( GEODIFF_LoggerLevel, const char * ) { ++n; }
int main()
{
  GEODIFF_setMaximumLoggerLevel( LevelDebug );
  GEODIFF_setLoggerCallback( nullptr );
  GEODIFF_setLoggerCallback( cb );
  Logger::instance().warn( "w" );
  CHECK( n == 1 );
  return 0;
}
'''
