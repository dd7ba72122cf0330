/* the generic library's interface for the harness */
#include "gplib/opensky.hh"
extern "C" {
void lib_init(void) { OpenSky::init(); }
void lib_configure(unsigned type, unsigned serial) { OpenSky::configure((OPENSKY_DEVICE_TYPE)type, serial); }
void lib_enable(void) { OpenSky::enable(); }
void lib_disable(void) { OpenSky::disable(); }
void lib_pos(double a, double b, double c) { OpenSky::setGpsPosition(a, b, c); }
void lib_unset(void) { OpenSky::unsetGpsPosition(); }
void lib_submit(uint64_t ts, bool utc, bool sync, int rssi, const uint8_t * p, size_t n) { OpenSky::submitFrame(ts, utc, sync, (int8_t)rssi, p, n); }
}
