// Analysis stand-in for easylogging: a failed check or a fatal message ends the program.
#ifndef VP_EASYLOGGING_STUB
#define VP_EASYLOGGING_STUB
#include <cassert>
#include <string>
#include <iostream>
#include <sstream>
#include <iomanip>
#include <fstream>
#include <vector>
#include <map>
#include <set>
#include <list>
#include <memory>
#include <functional>
#include <algorithm>
#include <limits>
#include <cstring>
#include <cstdlib>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/types.h>
extern "C" __attribute__((noreturn)) void __vp_fatal();
struct VpNull {
  template<class T> inline __attribute__((always_inline)) VpNull const & operator<<( T const & ) const { return *this; }
  inline __attribute__((always_inline)) VpNull const & operator<<( std::ostream& (*)(std::ostream&) ) const { return *this; }
};
struct VpFatal: VpNull { inline __attribute__((always_inline)) VpFatal() { __vp_fatal(); } };
static inline __attribute__((always_inline)) VpNull vp_check( bool c ) { if( !c ) __vp_fatal(); return VpNull(); }
#define VP_LOG_INFO    VpNull()
#define VP_LOG_TRACE   VpNull()
#define VP_LOG_DEBUG   VpNull()
#define VP_LOG_ERROR   VpNull()
#define VP_LOG_WARNING VpNull()
#define VP_LOG_VERBOSE VpNull()
#define VP_LOG_FATAL   VpFatal()
#define LOG(l) VP_LOG_##l
#define LOG_IF(c,l) VP_LOG_##l
#define VLOG(x) VpNull()
#define VLOG_IF(c,x) VpNull()
#define VLOG_IS_ON(x) true
#define CHECK(c)      vp_check( (bool) (c) )
#define CHECK_EQ(a,b) vp_check( (a) == (b) )
#define CHECK_NE(a,b) vp_check( (a) != (b) )
#define CHECK_LT(a,b) vp_check( (a) <  (b) )
#define CHECK_GT(a,b) vp_check( (a) >  (b) )
#define CHECK_LE(a,b) vp_check( (a) <= (b) )
#define CHECK_GE(a,b) vp_check( (a) >= (b) )
#define INITIALIZE_EASYLOGGINGPP
#endif
