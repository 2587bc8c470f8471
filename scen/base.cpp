// Library start-up shared by every scenario, executed once before the runs are forked off.
#include "common.h"

static void warm_up() {
	SFWCore::setup();
	// First-use initialisation of the C++ runtime (locale, iostreams) happens here rather than inside a run.
	String::num(1.5);
	String::num_int64(42);
	(void)String("1.25").to_double();
}
struct SetUp {
	SetUp() { sim::zygote_setup = warm_up; }
};
static SetUp set_up;
