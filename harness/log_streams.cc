/* streams whose output goes to the harness */
#include <iostream>
#ifdef RCLIB
#include "radarcape/lib/opensky.hh"
#else
#include "gplib/opensky.hh"
#endif
extern "C" void stream_out(int s, const char * t, unsigned n);
extern "C" void stream_sync(int s);
namespace {
struct Buf : std::streambuf {
	int s;
	explicit Buf(int s) : s(s) {}
	int_type overflow(int_type c) override { char b = c; stream_out(s, &b, 1); return 0; }
	std::streamsize xsputn(const char * t, std::streamsize n) override { stream_out(s, t, n); return n; }
	int sync() override { stream_sync(s); return 0; }
};
Buf b0(0), b1(1);
std::ostream o0(&b0), o1(&b1);
}
extern "C" void streams(int own)
{
	if (own)
		OpenSky::setLogStreams(o0, o1);
	else {
		std::cout.rdbuf(&b0);
		std::cerr.rdbuf(&b1);
	}
}
