/* the radarcape library's interface for the harness */
#include <cstdint>
#include "radarcape/lib/opensky.hh"
extern "C" {
void lib_init(void) { OpenSky::init(); }
void lib_configure(unsigned type, unsigned serial) { OpenSky::configure(); }
void lib_enable(void) { OpenSky::enable(); }
void lib_disable(void) { OpenSky::disable(); }
void lib_pos(double a, double b, double c) { OpenSky::setGpsPosition(a, b, c); }
void lib_status(int s) { OpenSky::setGpsTimeStatus((GpsTimeStatus_t)s); }
void lib_message(const uint8_t * p, int type) { OpenSky::output_message(p, (MessageType_T)type); }
}
