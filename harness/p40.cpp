#include "hc.h"
#include "qlpeps/basic.h"
using namespace qlpeps;
static const char *pn(BMPSPOSITION p) { return p == LEFT ? "LEFT" : p == DOWN ? "DOWN" : p == RIGHT ? "RIGHT" : p == UP ? "UP" : "?"; }
static const char *on(BondOrientation o) { return o == HORIZONTAL ? "HORIZONTAL" : o == VERTICAL ? "VERTICAL" : "?"; }
int main() {
  hc::Ev("begin").out();
  for (BMPSPOSITION p : {LEFT, DOWN, RIGHT, UP}) hc::Ev("pos").s("p", pn(p)).s("opp", pn(Opposite(p))).s("oppopp", pn(Opposite(Opposite(p)))).s("orient", on(Orientation(p))).i("leg", MPOIndex(p)).i("val", (int) p).out();
  for (BondOrientation o : {HORIZONTAL, VERTICAL}) hc::Ev("orient").s("o", on(o)).s("rot", on(Rotate(o))).s("rotrot", on(Rotate(Rotate(o)))).out();
}
