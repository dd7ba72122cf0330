/* The daemon of a package (its real main program, configuration reader and components) up to the start of the components:
 * tells what it uses. "answer=N": the network answers a request for a serial number by N. */
#include <config.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <unistd.h>
#include <pthread.h>
#include "util/component.h"
#include "util/cfgfile.h"
#include "util/port/socket.h"
#include "core/serial.h"
#include "core/tb.h"
#include "core/gps.h"
#include "core/devicetypes.h"
#include "radarcape/rc-input.h"
extern const struct Component GPS_comp;
static uint32_t answer;
static bool answered, requested;
static void (*response)(const uint8_t *);
static void * answering(void * a)
{
	uint8_t p[4] = { answer >> 24, answer >> 16, answer >> 8, answer };
	response(p);
	return NULL;
}
void __real_TB_register(uint32_t type, size_t size, TB_ProcessorFn f);
void __wrap_TB_register(uint32_t type, size_t size, TB_ProcessorFn f)
{
	if (type == TB_PACKET_TYPE_SERIAL_RES)
		response = f;
	__real_TB_register(type, size, f);
}
bool __wrap_NET_send(const void * buf, size_t len)
{
	requested = true;
	if (!answered || !response)
		return false;
	pthread_t t;
	pthread_create(&t, NULL, answering, NULL);
	return true;
}
bool __wrap_NET_checkConnected(void) { return false; }
void __wrap_LOGIN_setUsername(const char * u) { printf("username=%s\n", u); }
void __wrap_LOGIN_setDeviceType(enum OPENSKY_DEVICE_TYPE t)
{
	printf("device=%s\n", t == OPENSKY_DEVICE_TYPE_FEEDER ? "feeder" : t == OPENSKY_DEVICE_TYPE_FEEDER_HPTOA ? "hptoa" :
		t == OPENSKY_DEVICE_TYPE_FEEDER_DONATED ? "donated" : t == OPENSKY_DEVICE_TYPE_OPENSKY_KIT ? "kit" : "?");
}
void __wrap_GPS_setPositionWithFix(double a, double b, double c) { printf("position=%.17g %.17g %.17g\n", a, b, c); }
sock_t __wrap_NETC_connect(const char * pfx, const char * host, uint_fast16_t port)
{
	printf("input=%u %s\n", (unsigned)port, host);
	int p[2];
	if (pipe(p)) _exit(98);
	return p[0];
}
bool __wrap_COMP_startAll(void)
{
	uint32_t s;
	GPS_comp.main();
	RC_INPUT_connect();
	if (SERIAL_getSerial(&s) == SERIAL_RETURN_SUCCESS)
		printf("serial=%u\n", (unsigned)s);
	printf("requested=%d\n", requested);
	printf("end\n");
	fflush(stdout);
	_exit(0);
}
int __real_main(int argc, char ** argv);
int __wrap_main(int argc, char ** argv)
{
	for (int i = 1; i < argc; ++i)
		if (!strncmp(argv[i], "answer=", 7)) { answered = true; answer = strtoul(argv[i] + 7, NULL, 10); }
	alarm(60);
	return __real_main(1, argv);
}
