//@stubs env hash
//@flags -I$REPO/src -fno-access-control
//@repo src/Core/**/*.cpp src/Common/**/*.cpp src/Crypto/*.cpp
#define SIZE 6
#include "C06.h"
HARNESS(cuckaroo6) { auto e = edges(); endpoints(ROO, e); decide(ROO, e, true, 29); REACH("cycle"); REACH("no cycle"); }
HARNESS(cuckarood6) { auto e = edges(); endpoints(ROOD, e); decide(ROOD, e, true); REACH("cycle"); REACH("no cycle"); }
HARNESS(cuckaroom6) { auto e = edges(); endpoints(ROOM, e); decide(ROOM, e, true); REACH("cycle"); REACH("no cycle"); }
HARNESS_T(cuckatoo6) { auto e = edges(); endpoints(TOO, e); decide(TOO, e, true); REACH("cycle"); REACH("no cycle"); }
HARNESS_T(cuckarooz6) { auto e = edges(); endpoints(ROOZ, e); decide(ROOZ, e, true); REACH("cycle"); REACH("no cycle"); }
