"""What is explored for each property."""

# functions of the C library that are replaced by the checker's or by the
# harness' implementation: name -> mc_name
_THREAD = """pthread_mutex_init pthread_mutexattr_init pthread_mutexattr_settype pthread_mutexattr_destroy
pthread_mutexattr_setprotocol pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock
pthread_mutex_timedlock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy pthread_cond_wait
pthread_cond_timedwait pthread_cond_clockwait pthread_cond_broadcast pthread_cond_signal pthread_create
pthread_setname_np pthread_join pthread_timedjoin_np pthread_tryjoin_np pthread_cancel pthread_detach
pthread_exit pthread_self pthread_equal pthread_kill pthread_setcancelstate pthread_setcanceltype
pthread_testcancel pthread_sigmask pthread_once pthread_attr_init pthread_attr_destroy
pthread_attr_setdetachstate pthread_attr_setstacksize pthread_atfork""".split()
_MEM = "malloc calloc realloc reallocarray free strdup strndup".split() + \
    "_Znwm _Znam _ZdlPv _ZdaPv _ZdlPvm _ZdaPvm __strdup".split()
_TIME = "sleep usleep nanosleep time clock_gettime gettimeofday srand rand random srandom".split()
_PROC = ["getpid", "abort", "exit", "_exit", "_Exit", "__assert_fail"]
_IO = """send recv sendto recvfrom sendmsg recvmsg read write readv writev open openat close connect socket shutdown
setsockopt getsockopt bind listen accept fcntl dup dup2 dup3 pipe getaddrinfo freeaddrinfo ioctl poll select
fork vfork setsid setpgid posix_spawn posix_spawnp execve execv execvp execvpe execl execlp waitpid wait mmap munmap fopen fdopen fclose fprintf vfprintf
fputs fputc putc fwrite fread fscanf fgets fgetc getc getline fseek ftell rewind fflush ferror feof scandir mkdir unlink rename rmdir
stat lstat fstat access daemon umask chdir setuid setgid setgroups getuid geteuid tcsetattr tcgetattr tcflush
tcdrain cfsetospeed cfsetispeed sigwait sigaction signal pause kill raise system popen pclose printf
vprintf puts putchar setlinebuf opendir readdir closedir fsync lseek pread pwrite sysconf getpwnam_r getgrnam_r
getgid getegid seteuid setegid setresuid setresgid setreuid setregid initgroups getgroups getpwnam getgrnam getpwuid_r prctl capset
sigwaitinfo sigtimedwait sigprocmask sigsuspend
setvbuf remove alarm setenv putenv getifaddrs freeifaddrs closesocket openlog syslog if_nametoindex""".split() + \
    ["__isoc99_fscanf", "__isoc23_fscanf"]
REDIRECT = _THREAD + _MEM + _TIME + _PROC + _IO + ["main"]

CHECKS = {}


def check(pid, jobs, **kw):
    CHECKS[pid] = dict(jobs=jobs, **kw)


CORE = ["util", "util/port", "core"]

def seq(name, **kw):
    return dict(name=name, harness=["buffer_seq.c"], dirs=CORE, **kw)


check("B01", [
    seq("nohist", cost=3, params=dict(hist=0, stat=[2, 3]), quick=dict(depth=17), thorough=dict(depth=24, max_s=900)),
    seq("hist", cost=5, params=dict(hist=1, stat=2, dyn=[1, 2], inc=[0, 1, 2]),
        quick=dict(depth=16), thorough=dict(depth=22, max_s=900)),
    seq("timed", params=dict(hist=0, stat=2, times=1), quick=dict(depth=10), thorough=dict(depth=14, max_s=900)),
    seq("nomem", cost=5, params=dict(hist=1, stat=2, dyn=1, inc=2, nomem=2),
        quick=dict(depth=13), thorough=dict(depth=17, max_s=900)),
], bounds="all histories of buffer operations up to the depth given per job, 2-3 static frames, up to 2 increments of up to 2 frames")

check("B02", [
    seq("gc", cost=9, params=dict(hist=1, stat=2, gc=1, dyn=[1, 2], inc=[1, 2, 3], gclevel=[1, 2]),
        quick=dict(depth=13), thorough=dict(depth=16, max_s=900)),
    seq("macro", cost=8, params=dict(hist=1, stat=2, gc=1, gclevel=1, macro=1, hold=[0, 1]), quick=dict(dyn=[1, 2], inc=[2, 3], depth=16), thorough=dict(dyn=[1, 2], inc=[2, 3], depth=30, max_s=900)),
    seq("fill", params=dict(fill=1, hist=1, gc=[0, 1]), quick=dict(stat=[2, 300], dyn=[1, 3], inc=[0, 255, 256, 300]), thorough=dict(stat=[2, 200], dyn=[1, 10], inc=[127, 128, 255, 256, 257, 300, 1080])),
    seq("fillbig", params=dict(fill=1), quick=dict(hist=[0, 1], stat=[2, 257, 65537], dyn=[257], inc=[1, 2]), thorough=dict(hist=[0, 1], stat=[2, 65536], dyn=[256, 32769], inc=[1, 2])),
    seq("config", params=dict(hist=[0, 1], gc=[0, 1], depth=3), quick=dict(stat=[0, 1, 3], dyn=[0, 2], inc=[0, 2], gclevel=[0, 3]), thorough=dict(stat=[0, 1, 3], dyn=[0, 2], inc=[0, 2], gclevel=[0, 3], depth=6)),
    seq("counts", cost=4, params=dict(hist=1, stat=2, gc=1, gclevel=1, macro=2, hold=0, dyn=2), quick=dict(inc=[1, 2], depth=12), thorough=dict(inc=[1, 2, 3], depth=17, max_s=900)),
    seq("cycle", cost=5, params=dict(hist=[0, 1], stat=2, gc=1, dyn=1, inc=2, cycle=1, nomem0=1),
        quick=dict(depth=10), thorough=dict(depth=14, max_s=900)),
    seq("nomem", cost=5, params=dict(hist=1, stat=2, gc=1, dyn=2, inc=2, nomem=2),
        quick=dict(depth=10), thorough=dict(depth=13, max_s=900)),
    seq("zero", params=dict(hist=[0, 1], stat=[0, 1, 2], gc=1, dyn=[0, 1], inc=[0, 1], gclevel=[0, 1]),
        quick=dict(depth=7), thorough=dict(depth=10, max_s=900)),
], bounds="as B01, with garbage collector runs (manual and by the background loop) and destruct/construct cycles; buffers of up to 66000 frames and 300 increments filled until the first loss, drained and collected")


def conc(name, tsan=False, **kw):
    return dict(name=name, harness=["buffer_conc.c"], dirs=CORE, tsan=tsan, **kw)


check("B03", [
    conc("cons", cost=5, params=dict(p=4, x=0, mode=[0, 1], put=[0, 1], abort=1, spurious=1),
         quick=dict(preempt=4), thorough=dict(preempt=-1, p=5, max_s=900)),
    conc("timeouts", params=dict(p=2, x=0, mode=1, put=1, abort=1, timeouts=6, spurious=1), quick=dict(preempt=1), thorough=dict(preempt=3, timeouts=9, max_s=900)),
    conc("flush", cost=5, params=dict(p=3, x=[1, 4, 31], mode=[0, 1], put=1, abort=1),
         quick=dict(preempt=3), thorough=dict(preempt=-1, p=4, max_s=900)),
    conc("cancel", cost=5, params=dict(p=3, x=[5, 15], mode=[0, 1], put=1),
         quick=dict(preempt=3), thorough=dict(preempt=-1, p=4, max_s=900)),
    conc("gc", cost=5, params=dict(p=4, x=[2, 22], hist=1, dyn=[1, 2], inc=1, put=1, mode=[0, 1]),
         quick=dict(preempt=3), thorough=dict(preempt=-1, p=5, max_s=900)),
    conc("race", tsan=True, cost=5, params=dict(p=3, x=[1, 2, 3, 5], hist=[0, 1], dyn=1, inc=1, put=1, mode=[0, 1], race=1, abort=1),
         quick=dict(preempt=1), thorough=dict(preempt=3, max_s=900)),
    conc("racegc", tsan=True, cost=4, params=dict(p=3, x=[6, 7], hist=1, dyn=1, inc=1, put=1, mode=[0, 1], race=1, abort=1),
         quick=dict(preempt=1), thorough=dict(preempt=3, max_s=900)),
    conc("gcloop", cost=4, params=dict(p=4, x=[6, 7, 37], hist=1, dyn=[1, 2], inc=1, put=1, mode=[0, 1]),
         quick=dict(preempt=2), thorough=dict(preempt=4, max_s=900)),
    conc("race2", tsan=True, cost=4, params=dict(p=2, x=[0, 2], hist=[0, 1], dyn=1, inc=1, put=[0, 1], mode=[0, 1], race=1, abort=1),
         quick=dict(preempt=2), thorough=dict(preempt=4, p=3, max_s=900)),
], bounds="one producer, one consumer and a third thread with the operations given per job, preemption bound per job (-1: none); "
   "data races by happens-before analysis of every access in every schedule of job 'race'")

RCF = ["-DSYSCONFDIR=\"/etc\"", "-DFWDIR=\"/lib\""]
RCNET = RCF + ["-DINPUT_RADARCAPE_NETWORK"]


def rcp(name, **kw):
    return dict(name=name, harness=["rc_parser.c"], dirs=CORE + ["radarcape"], flags=RCNET, **kw)


check("R01", [
    rcp("any", cost=5, params=dict(gen=0, chunk=0, alpha=3, fill=[26]), quick=dict(len=12, maxchunk=2), thorough=dict(len=17, maxchunk=3, max_s=900)),
    rcp("anychunk", cost=5, params=dict(gen=0, chunk=1, alpha=[3, 4]), quick=dict(len=10, splits=0), thorough=dict(len=15, splits=3, max_s=900)),
    rcp("reconnect", cost=4, params=dict(gen=0, chunk=0, alpha=3, recon=1, fill=[0, 26]), quick=dict(len=9, maxchunk=2), thorough=dict(len=15, maxchunk=2, recon=2, max_s=900)),
    rcp("frames", cost=5, params=dict(gen=1, chunk=1, frames=2, types=[3, 5, 9, 12], fill=26), quick=dict(errs=1, esc=1, splits=1), thorough=dict(errs=2, esc=2, splits=2, max_s=1500)),
    rcp("bytewise", cost=5, params=dict(gen=1, chunk=2, frames=3, types=[2, 4, 9], fill=26), quick=dict(errs=1, esc=2), thorough=dict(errs=3, esc=3, max_s=1500)),
    rcp("escapes", cost=5, params=dict(gen=1, chunk=[1, 2], frames=1, types=[1, 2, 4, 8], errs=0, esc=21, splits=0), quick=dict(esc=4), thorough=dict(esc=21, max_s=1500)),
    rcp("long", cost=5, params=dict(gen=1, chunk=1, frames=9, types=4, fill=26, recon=1), quick=dict(errs=1, esc=0, splits=0), thorough=dict(errs=1, esc=1, splits=1, max_s=1500)),
], bounds="all byte streams over small alphabets up to the length given per job in all chunkings; all sequences of well-formed frames with the given numbers of escapes, errors, splits and reconnections at all positions")

check("R02", [
    dict(name="uart", harness=["rc_config.c"], dirs=CORE + ["radarcape"], flags=RCF + ["-DINPUT_RADARCAPE_UART"], params=dict(uart=1),
         quick=dict(ops=5, fails=3), thorough=dict(ops=7, fails=5, max_s=900)),
    dict(name="net", harness=["rc_config.c"], dirs=CORE + ["radarcape"], flags=RCF + ["-DINPUT_RADARCAPE_NETWORK"], params=dict(uart=0),
         quick=dict(ops=6, fails=0), thorough=dict(ops=8, max_s=900)),
], bounds="all filter settings, write failures and operation sequences up to the given numbers")

check("F01", [
    dict(name="seq", harness=["filter.c"], dirs=CORE, quick=dict(ops=5), thorough=dict(ops=7, max_s=1500)),
], rule="frames that pass", bounds="all sequences of settings up to the depth given, followed by all 4 types x 256 first bytes")

check("E01", [
    dict(name="any", harness=["beast.c"], dirs=CORE, params=dict(alpha=[2, 3]), quick=dict(len=10), thorough=dict(len=13, max_s=1500)),
    dict(name="long", harness=["beast.c"], dirs=CORE, params=dict(len=0)),
], rule="strings with at least one escape byte", bounds="all strings over 2-3 symbols up to the given length; longer strings with up to 3 escapes at all positions")


def tp(name, **kw):
    return dict(name=name, harness=["trimble_parser.c"], dirs=CORE + ["trimble"], **kw)


check("T01", [
    tp("any", cost=5, params=dict(gen=0, chunk=0, alpha=3, buf=[3, 6], fill=16), quick=dict(len=9, maxchunk=3), thorough=dict(len=13, maxchunk=3, max_s=1500)),
    tp("anychunk", cost=4, params=dict(gen=0, chunk=1, alpha=[3, 4], buf=[2, 4]), quick=dict(len=10), thorough=dict(len=12, splits=2, max_s=1500)),
    tp("reconnect", cost=5, params=dict(gen=0, chunk=0, alpha=3, buf=4, recon=1, wfails=1, fill=[3, 16]), quick=dict(len=8, maxchunk=2), thorough=dict(len=11, maxchunk=2, recon=2, wfails=2, max_s=1500)),
    tp("config", params=dict(gen=0, chunk=2, alpha=2, buf=4, recon=2), quick=dict(len=4, wfails=4), thorough=dict(len=6, wfails=6, max_s=600)),
    tp("frames", cost=5, params=dict(gen=1, chunk=[1, 2], frames=2, buf=[69, 131], fill=16), quick=dict(errs=1, esc=[0, 1], plen=[9, 69], splits=0), thorough=dict(errs=1, esc=2, plen=[0, 69, 70], splits=1, max_s=1500)),
    tp("lens", cost=3, params=dict(gen=1, chunk=[1, 2], frames=3, buf=[69, 131, 1024], fill=16), quick=dict(errs=1, esc=0, splits=0), thorough=dict(errs=1, esc=1, splits=0, max_s=900)),
    tp("long", cost=5, params=dict(gen=1, chunk=1, frames=2, plen=130, buf=[130, 131], fill=16), quick=dict(errs=0, esc=1, splits=1), thorough=dict(errs=1, esc=2, splits=1, max_s=1500)),
], bounds="all byte streams over small alphabets up to the length given per job in all chunkings; all sequences of packets with the given numbers of escapes, errors, splits, failing writes and reconnections at all positions")


def tr(name, **kw):
    return dict(name=name, harness=["trimble_recv.c"], dirs=CORE + ["trimble"], **kw)


check("T02", [
    tr("single", params=dict(dev=1, full=1, steps=1, asks=[1, 2], split=[0, 1])),
    tr("pairs", params=dict(dev=2, full=0, steps=1, asks=1), thorough=dict(dev=3, max_s=900)),
    tr("pairsfull", tiers=("thorough",), params=dict(dev=2, full=1, steps=1, asks=1), thorough=dict(max_s=1500)),
    tr("repeat", params=dict(dev=0, full=0, recon=4, sfail=2), quick=dict(steps=6, asks=6), thorough=dict(steps=10, asks=10, max_s=900)),
    tr("seq", cost=5, params=dict(dev=1, full=0, asks=[1, 2], recon=[0, 1, 2], sfail=1), quick=dict(steps=2), thorough=dict(steps=3, max_s=1500)),
], rule="trusted packets", bounds="packets differing from a valid one in the given number of places; sequences of the given length with reconnections, requests and failing transmissions at all places")


def gps(name, **kw):
    return dict(name=name, harness=["gps.c"], dirs=CORE, **kw)


check("G01", [
    gps("seq", params=dict(seq=1), quick=dict(ops=6, fails=2), thorough=dict(ops=9, fails=3, max_s=1500)),
    gps("repeat", params=dict(seq=1), quick=dict(ops=9, fails=5), thorough=dict(ops=11, fails=8, max_s=900)),
    gps("conc", cost=3, params=dict(seq=0, kind=[0, 1, 2], unfix=[0, 1]), quick=dict(logins=2, updates=2, fails=[0, 1], preempt=4), thorough=dict(logins=3, updates=3, fails=[1, 2], preempt=-1, max_s=1500)),
    gps("race", tsan=True, params=dict(seq=0, kind=[0, 1, 2], unfix=1, race=1), quick=dict(logins=2, updates=2, fails=1, preempt=2), thorough=dict(logins=2, updates=2, preempt=4, max_s=900)),
], rule="operations that send the position", bounds="all operation sequences up to the given length; all interleavings up to the given preemption bound")


def net(name, **kw):
    return dict(name=name, harness=["net.c"], dirs=CORE, **kw)


check("N01", [
    net("fail", cost=5, params=dict(ops=[0, 2], breaks=2, cfails=1, data=0, sends=3), quick=dict(preempt=[1, 2]), thorough=dict(preempt=4, breaks=3, max_s=1500)),
    net("extra", cost=5, params=dict(extra=2, cfails=0, sends=2, early=[0, 1]), quick=dict(preempt=1, breaks=2), thorough=dict(preempt=3, breaks=3, max_s=1500)),
    net("extra1", cost=4, params=dict(extra=1, cfails=0, sends=1), quick=dict(preempt=2, breaks=1), thorough=dict(preempt=4, breaks=3, max_s=1500)),
    net("spurious", cost=4, params=dict(spurious=2, breaks=1, cfails=1, sends=1), quick=dict(preempt=1), thorough=dict(preempt=2, breaks=2, max_s=900)),
    net("long", cost=3, params=dict(breaks=[4, 6], cfails=[0, 4], sends=5), quick=dict(preempt=0), thorough=dict(preempt=1, max_s=900)),
    net("access", tsan=True, cost=5, params=dict(access=1, ops=[0, 2], breaks=1, cfails=0, data=0, sends=1), quick=dict(preempt=1), thorough=dict(preempt=2, max_s=900)),
    net("accessx", tsan=True, cost=5, params=dict(access=1, extra=1, cfails=0, sends=1), quick=dict(preempt=1, breaks=1), thorough=dict(preempt=2, breaks=1, max_s=900)),
    net("stuck", params=dict(stuck=1, breaks=2, sends=2), quick=dict(preempt=2), thorough=dict(preempt=4, max_s=1500)),
    net("stop", cost=5, params=dict(stop=8, breaks=1, cfails=1, sends=2, extra=0, again=1), quick=dict(preempt=1), thorough=dict(preempt=2, breaks=2, max_s=1500)),
    net("stopx", cost=5, params=dict(stop=5, breaks=1, cfails=0, sends=1, extra=1), quick=dict(preempt=0, again=1), thorough=dict(preempt=2, again=[0, 1], cfails=1, breaks=2, max_s=1500)),
    net("stopx1", cost=5, params=dict(stop=4, breaks=1, cfails=0, sends=1, extra=1, again=0, preempt=1), tiers=("quick",)),
], rule="messages sent completely", bounds="all interleavings up to the given preemption bound of the network thread, the relaying thread, the receiving thread and (extra) a second sender, with connections breaking and connection attempts failing at all points up to the given numbers, and cancellation after each system call")

check("N02", [
    net("chunks", cost=5, params=dict(chunk=1, breaks=1, data=2, sends=2, zero=[0, 1]), quick=dict(preempt=1), thorough=dict(preempt=3, sends=3, max_s=1500)),
    net("big", cost=3, params=dict(big=1, data=2, sends=2), quick=dict(preempt=0, breaks=[0, 1], cuts=1), thorough=dict(preempt=1, breaks=1, cuts=1, max_s=900)),
    net("senders", cost=5, params=dict(chunk=1, breaks=1, extra=2, sends=2), quick=dict(preempt=1), thorough=dict(preempt=3, max_s=1500)),
], rule="messages sent completely", bounds="messages of 1-3 bytes, all ways to split the transfers (and of 2-65539 bytes with one split at a power of two), all interleavings up to the given preemption bound, with connections breaking at all points")


def tb(name, **kw):
    return dict(name=name, harness=["tb.c"], dirs=CORE, **kw)


check("K01", [
    tb("any", cost=5, params=dict(gen=0, chunk=0, recon=[0, 1], noreg=8), quick=dict(len=8, alpha=3, maxchunk=3), thorough=dict(len=12, alpha=6, maxchunk=4, max_s=1500)),
    tb("anychunk", cost=3, params=dict(gen=0, chunk=1, recon=0, alpha=5), quick=dict(len=7, splits=1), thorough=dict(len=11, splits=3, max_s=1500)),
    tb("packets", cost=5, params=dict(gen=1, chunk=1, masks=2), quick=dict(len=2, splits=1, recon=[0, 1]), thorough=dict(len=3, splits=2, recon=1, max_s=1500)),
    tb("bytewise", params=dict(gen=1, chunk=2, lens=3, recon=0), quick=dict(len=2), thorough=dict(len=3, max_s=1500)),
    tb("filter", params=dict(gen=1, chunk=1, types=5, lens=1), quick=dict(len=3, splits=0), thorough=dict(len=5, splits=0, max_s=1500)),
    dict(name="net", harness=["tbnet.c"], dirs=CORE, cost=5, params=dict(packets=2, sends=2), quick=dict(breaks=[1, 2], preempt=1), thorough=dict(breaks=2, preempt=3, packets=3, chunks=4, max_s=1500)),
    tb("repeat", params=dict(gen=1, chunk=1, types=5, lens=1, masks=2), quick=dict(len=6, splits=0, recon=0), thorough=dict(len=7, splits=0, recon=[0, 2], max_s=900)),
    dict(name="netaccess", harness=["tbnet.c"], dirs=CORE, cost=5, tsan=True, params=dict(access=1, packets=2, sends=1), quick=dict(breaks=1, preempt=1), thorough=dict(breaks=1, preempt=2, max_s=900)),
    tb("all", params=dict(gen=1, chunk=1, types=3, lens=3), quick=dict(len=4, splits=0), thorough=dict(len=6, splits=1, max_s=1500)),
    tb("reg", params=dict(gen=1, chunk=1, types=6, lens=1, uses=2, masks=3), quick=dict(len=3, splits=0), thorough=dict(len=4, splits=1, uses=3, max_s=1500)),
], rule="packets dispatched", bounds="all byte streams over a small alphabet up to the given length in all chunkings; all sequences of packets of 9 types with 8 kinds of length fields, with the given number of splits and reconnections at all places, all 64 combinations of filter masks and values")


def relay(name, **kw):
    return dict(name=name, harness=["relay.c"], dirs=CORE, **kw)


def relaynet(name, **kw):
    return dict(name=name, harness=["relaynet.c"], dirs=CORE, **kw)


check("L01", [
    relay("fail", cost=5, params=dict(hist=[0, 1], frames=3, breaks=2, tmo=1), quick=dict(preempt=4), thorough=dict(preempt=-1, tmo=2, breaks=3, frames=4, stat=5, max_s=1500)),
    relay("login", params=dict(hist=[0, 1], frames=2, breaks=1, sfails=2, pos=1, tmo=2, timeout=[0, 2500]), quick=dict(preempt=3), thorough=dict(preempt=5, max_s=1500)),
    relay("access", tsan=True, cost=5, params=dict(access=1, hist=[0, 1], breaks=1, tmo=0), quick=dict(preempt=2, frames=3), thorough=dict(preempt=3, frames=3, max_s=900)),
    relaynet("netrepeat", cost=3, params=dict(hist=1, frames=0, pos=1, tmo=0, recv=0), quick=dict(preempt=0, breaks=5), thorough=dict(preempt=1, breaks=5, max_s=900)),
    relaynet("netaccess", tsan=True, cost=5, params=dict(access=1, hist=1, frames=1, pos=0, tmo=0, breaks=1), quick=dict(preempt=1), thorough=dict(preempt=1, pos=1, max_s=900)),
    relay("repeat", params=dict(hist=[0, 1], frames=3, breaks=5, tmo=4, stat=5), quick=dict(preempt=1), thorough=dict(preempt=2, breaks=6, tmo=6, max_s=900)),
    relay("idle", params=dict(hist=[0, 1], frames=1, breaks=1, tmo=5), quick=dict(preempt=1), thorough=dict(preempt=3, tmo=8, max_s=900)),
    relay("full", params=dict(hist=[0, 1], frames=4, stat=2, breaks=1, tmo=0), quick=dict(preempt=2), thorough=dict(preempt=4, breaks=2, max_s=1500)),
    relay("stop", cost=4, params=dict(hist=[0, 1], frames=3, breaks=1, tmo=1, stop=8, again=[0, 1]), quick=dict(preempt=2), thorough=dict(preempt=4, stop=12, breaks=2, max_s=1500)),
    relaynet("net", cost=5, params=dict(hist=[0, 1], frames=2, pos=0, tmo=0), quick=dict(preempt=1, breaks=1), thorough=dict(preempt=2, breaks=2, tmo=1, max_s=1500)),
    relaynet("netgps", cost=5, params=dict(hist=1, frames=1, pos=1, tmo=0), quick=dict(preempt=1, breaks=1), thorough=dict(preempt=2, breaks=2, pos=2, max_s=1500)),
    relaynet("netpos", cost=5, params=dict(hist=1, frames=0, pos=1, tmo=0), quick=dict(preempt=2, breaks=1, recv=0), thorough=dict(preempt=3, breaks=2, recv=[0, 1], max_s=1500)),
], rule="frames sent", bounds="real RELAY, LOGIN, BUF (and in the net jobs NET and GPS) with producer, receiver and position threads; <=4 frames, 1-3 broken connections at any send, <=2 serial failures, <=2 early timeouts, stop and restart at any of the first 8-12 sends, buffers with and without history and with discarding; preemption bound 1-4 (quick), 2-unbounded (thorough)")

check("L02", [
    dict(name="any", harness=["login.c"], dirs=CORE, quick=dict(logins=1, bytes=3, fails=1), thorough=dict(logins=2, bytes=4, fails=2, devs=3, max_s=1500)),
    dict(name="repeat", harness=["login.c"], dirs=CORE, params=dict(devs=1, bytes=1), quick=dict(logins=2, fails=1), thorough=dict(logins=3, fails=2, max_s=1500)),
], rule="login messages", bounds="serial numbers over 3-4 byte values including the escape byte, 6 device types, user names of 8 lengths and 3 characters at the ends, failures at every step, repeated logins")


def recv(name, **kw):
    return dict(name=name, harness=["recv.c"], dirs=CORE, **kw)


check("P01", [
    recv("drain", quick=dict(len=6, fails=2, cancels=1), thorough=dict(len=7, fails=3, cancels=1, max_s=1500)),
    recv("hold", params=dict(hold=1, stat=[3, 9]), quick=dict(len=6, fails=1, cancels=1), thorough=dict(len=6, fails=2, cancels=1, max_s=1500)),
    recv("cycles", params=dict(cycles=2), quick=dict(len=3, fails=1, cancels=1), thorough=dict(len=4, fails=2, cancels=1, max_s=1500)),
], rule="frames accepted", bounds="all sequences of input events (9 kinds of frames, 3 timestamps, failures) up to the given length in all filter configurations, with cancellation at every input call")


def cn(name, **kw):
    return dict(name=name, harness=["connect.c"], dirs=CORE, **kw)


check("N03", [
    cn("any", quick=dict(hosts=3, rand=6), thorough=dict(hosts=4, rand=12, max_s=1500)),
    cn("repeat", params=dict(rounds=2, randmax=0), quick=dict(hosts=2, rand=2), thorough=dict(hosts=3, rand=6, max_s=1500)),
    cn("nomem", params=dict(nomem=2, cancel=1, randmax=0, hosts=2, rand=2), min_outcomes=2),
    cn("many", params=dict(many=[6, 255, 256, 257, 300], cancel=0, randmax=0), min_outcomes=7),
    cn("order", params=dict(order=1, cancel=0, randmax=0, hosts=4, rand=12), min_outcomes=1 + 1 + 2 + 6 + 24),
], rule="address lists of which at least one was tried", bounds="all lists of up to 3 addresses (4 in the order job and in thorough mode) of 3 kinds, all random numbers modulo 12, all results of each call, cancellation in each call; failing allocations; up to 300 addresses of which any or none answers")


def comp(name, **kw):
    return dict(name=name, harness=["comp.c"], dirs=CORE, **kw)


check("C01", [
    comp("graph3", cost=5, params=dict(n=3, self=1), quick=dict(defers=3, fails=2), thorough=dict(defers=4, fails=3, rounds=2, starts=2, max_s=900)),
    comp("graph4", cost=5, params=dict(n=4), quick=dict(fails=1, defers=1), thorough=dict(fails=2, defers=3, self=1, max_s=1500)),
    comp("dag5", cost=5, params=dict(n=5, acyclic=2), quick=dict(fails=1, defers=1), thorough=dict(fails=2, defers=3, max_s=1500)),
    comp("flags", cost=4, params=dict(flags=1, silent=1), quick=dict(n=[1, 2], fails=2, defers=2), thorough=dict(n=3, fails=1, defers=1, max_s=1500)),
    comp("flagsdag", cost=4, params=dict(flags=1, n=3, acyclic=2), quick=dict(fails=1, defers=0), thorough=dict(fails=2, defers=2, max_s=1500)),
    comp("kinds", cost=4, params=dict(all=0, acyclic=1), quick=dict(n=[1, 2], fails=2, defers=2), thorough=dict(n=3, fails=2, defers=2, max_s=1500)),
    comp("dup", params=dict(n=3, dup=1, fix2=1, fails=0, defers=0, regs=2)),
    comp("cycles", cost=4, params=dict(acyclic=1, rounds=2, starts=2), quick=dict(n=3, fails=2, defers=2), thorough=dict(n=4, fails=2, defers=3, max_s=1500)),
    comp("long", params=dict(n=3, acyclic=1, fails=0, defers=9, dlen=[300, 334, 600, 1200])),
], rule="components registered only through dependencies", bounds="all dependency graphs on 3 components (with self-dependencies) and 4 components, all acyclic ones on 5, all numbers of explicitly registered components, all callbacks failing or deferring up to the given numbers; on up to 3 components all combinations of enabled and start flags and of missing callbacks")

check("C02", [
    comp("threads", cost=5, params=dict(threads=1, acyclic=1, silent=[0, 1], fails=0), quick=dict(n=3, tfails=1, tmo=2, preempt=1), thorough=dict(n=3, tfails=2, tmo=3, preempt=3, max_s=1500)),
    comp("threads2", cost=5, params=dict(threads=1, acyclic=1, fails=0), quick=dict(n=2, tfails=1, tmo=4, preempt=3), thorough=dict(n=2, tfails=2, tmo=6, preempt=-1, max_s=1500)),
    comp("cycles", cost=4, params=dict(threads=1, acyclic=1, fails=0, rounds=2, starts=2), quick=dict(n=[1, 2], tfails=1, tmo=2, preempt=2), thorough=dict(n=2, tfails=2, tmo=3, preempt=3, max_s=1500)),
    comp("mixed", cost=5, params=dict(threads=1, acyclic=1, all=0), quick=dict(n=2, tfails=1, fails=1, tmo=1, defers=1, preempt=1), thorough=dict(n=3, tfails=1, tmo=1, fails=1, defers=1, preempt=1, max_s=1500)),
], rule="components registered only through dependencies", bounds="up to 3 components whose threads return, wait at a cancellation point or never end; all interleavings up to the preemption bound, with up to the given number of joins timing out early")


def lst(name, kind, *flags, **kw):
    return dict(name=name, harness=["list.c"], dirs=[], flags=["-DKIND=%d" % kind] + list(flags), **kw)


check("X01", [
    lst("double", 0, quick=dict(depth=6), thorough=dict(depth=9, elems=5, max_s=1500)),
    lst("counted", 1, cost=5, params=dict(lazy=1, fill=[0, 221]), quick=dict(depth=6, elems=3), thorough=dict(depth=8, elems=[3, 4], max_s=1500)),
    lst("eager", 1, cost=5, params=dict(lazy=0), quick=dict(depth=6), thorough=dict(depth=10, elems=5, max_s=1500)),
    lst("lazy", 1, cost=5, params=dict(lazy=1), quick=dict(depth=5), thorough=dict(depth=7, elems=5, max_s=1500)),
    lst("single", 2, quick=dict(depth=8), thorough=dict(depth=12, elems=5, max_s=1500)),
    lst("singlecounted", 3, quick=dict(depth=8), thorough=dict(depth=12, elems=5, max_s=1500)),
    lst("generic", 1, "-DECLIPSE", cost=5, quick=dict(depth=5), thorough=dict(depth=7, elems=[4, 5], max_s=1500)),
], rule="operations after which a list has at least two elements", bounds="all histories of all operations on two lists and 4 (thorough: 5) elements up to the given depth")


def cfg(name, h, **kw):
    return dict(name=name, harness=[h], dirs=["util", "util/port"], flags=["-DHAVE_SCANDIR"], **kw)


check("O01", [
    cfg("chars", "cfg_read.c", cost=5, params=dict(table=[0, 1], parts=2, part=[0, 1]), quick=dict(len=5), thorough=dict(len=7, max_s=1500)),
    cfg("body", "cfg_read.c", cost=5, params=dict(table=1, pre="[s]+k="), quick=dict(len=4), thorough=dict(len=6, max_s=1500)),
    cfg("tokens", "cfg_read.c", cost=5, params=dict(table=2, pre=["", "[net]+"], parts=2, part=[0, 1]), quick=dict(len=4), thorough=dict(len=6, max_s=1500)),
    cfg("lines", "cfg_read.c", cost=5, params=dict(table=3), quick=dict(len=3), thorough=dict(len=5, max_s=1500)),
    cfg("grid", "cfg_read.c", cost=9, params=dict(grid=1, parts=8, part=[0, 1, 2, 3, 4, 5, 6, 7])),
    cfg("faults", "cfg_read.c", params=dict(table=3, faults=1, len=1)),
], rule="files that assign at least one option", bounds="all files of up to the given number of tokens from four alphabets; all combinations of 19 headers, 15 keys, 5 separators, 59 values and 13 line ends; every byte at every place of a file and every truncation; each in strict and lenient mode")

check("O02", [
    cfg("roundtrip", "cfg_write.c", cost=5, params=dict(reg=[0, 1, 2, 3, 4]), quick=dict(full=0), thorough=dict(full=1, max_s=1500)),
    cfg("set", "cfg_write.c", params=dict(set=1), quick=dict(ops=2), thorough=dict(ops=3, max_s=1500)),
], rule="configurations restored", bounds="all combinations of 11 strings, 6 integers, 5 ports, both booleans, 7 numbers and 8 (thorough: 256) sets of given options, in 5 sets of registered sections, all sections or one of them; every output call failing; all sequences of setting options, defaults and checks up to the given length")

check("O03", [
    cfg("files", "cfg_dir.c", cost=5, quick=dict(files=[0, 1, 2, 3]), thorough=dict(files=[0, 1, 2, 3], max_s=1500)),
    cfg("more", "cfg_dir.c", tiers=("thorough",), params=dict(files=4, parts=22, part=list(range(22))), thorough=dict(max_s=1500)),
    cfg("paths", "cfg_dir.c", params=dict(paths=1)),
], rule="directories of which more than one file is read", bounds="all directories of up to 3 (thorough: 4) entries of 22 names and types, in every order, each file good, malformed, unreadable, with an invalid value or empty, in strict and lenient mode, stopping on errors or not; path lengths around the limit")


def inp(name, *flags, **kw):
    d, u = ("trimble", "trimble_input_") if "-DMC_GPS" in flags else ("radarcape", "")
    f = "%s/%s%s.c" % (d, u, "uart" if "-DMC_UART" in flags else "network")
    return dict(name=name, harness=["input.c"], dirs=["util", "util/port", d], flags=list(flags) + RCF + ["-DINPUT_RADARCAPE_UART"],
                exclude=[d + "/dummy.c", d + "/trimble_input_dummy.c"] + ["%s/%s%s.c" % (d, u, x) for x in ("uart", "network") if not f.endswith(x + ".c")], **kw)


check("I01", [
    inp("rcuart", "-DMC_UART", quick=dict(ops=6, budget=3, cancel=1), thorough=dict(ops=9, budget=5, cancel=1, rounds=2, max_s=900)),
    inp("rcnet", params=dict(cfg=[0, 1]), quick=dict(ops=6, budget=3, cancel=1), thorough=dict(ops=9, budget=5, cancel=1, rounds=2, max_s=900)),
    inp("gpsuart", "-DMC_UART", "-DMC_GPS", quick=dict(ops=6, budget=3, cancel=1), thorough=dict(ops=9, budget=5, cancel=1, rounds=2, max_s=900)),
    inp("gpsnet", "-DMC_GPS", params=dict(cfg=[0, 1]), quick=dict(ops=6, budget=3, cancel=1), thorough=dict(ops=9, budget=5, cancel=1, rounds=2, max_s=900)),
    inp("rcuart2", "-DMC_UART", params=dict(rounds=2), quick=dict(ops=3, budget=2, cancel=1), thorough=dict(ops=5, budget=3, cancel=1, max_s=900)),
    inp("gpsuart2", "-DMC_UART", "-DMC_GPS", params=dict(rounds=2), quick=dict(ops=3, budget=2, cancel=1), thorough=dict(ops=5, budget=3, cancel=1, max_s=900)),
], rule="reads that deliver data", bounds="all sequences of calls up to the given length with up to the given number of failing, short or empty system calls at all places, and cancellation in every blocking call")


def srq(name, **kw):
    return dict(name=name, harness=["serialreq.c"], dirs=["util", "util/port", "dump1090"], exclude=["util/serial_eth.c"], flags=["-DLOCALSTATEDIR=\"/var\"", "-DSYSCONFDIR=\"/etc\""], **kw)


check("S01", [
    srq("answer", params=dict(conf=[0, 1], spurious=1, wfail=1), quick=dict(logins=1, answers=[0, 1], breaks=1, preempt=3), thorough=dict(logins=3, answers=[1, 2, 3], breaks=2, preempt=-1, max_s=900)),
    srq("again", cost=4, params=dict(conf=0, wfail=0), quick=dict(logins=2, answers=[1, 2], breaks=1, preempt=2), thorough=dict(logins=2, answers=[1, 2, 3], breaks=2, preempt=3, max_s=900)),
    srq("prompt", params=dict(conf=0, eager=0), quick=dict(logins=2, answers=[1, 2], breaks=1, preempt=3), thorough=dict(logins=3, answers=[1, 2, 3], breaks=2, preempt=-1, max_s=900)),
    srq("repeat", params=dict(conf=0, wfail=0), quick=dict(logins=4, answers=[0, 1], breaks=1, preempt=0), thorough=dict(logins=6, answers=[0, 1], breaks=2, preempt=1, max_s=900)),
    srq("access", tsan=True, params=dict(access=1, conf=0, wfail=0), quick=dict(logins=1, answers=[0, 1], breaks=1, preempt=2), thorough=dict(logins=2, answers=1, breaks=1, preempt=2, max_s=900)),
    srq("cancel", params=dict(kill=1), quick=dict(logins=1, answers=1, breaks=1, preempt=2), thorough=dict(logins=2, answers=2, breaks=1, preempt=4, max_s=900)),
], rule="logins that requested a number", bounds="all interleavings up to the given preemption bound of repeated logins, answers, connection losses, cancellation, time-outs and spurious wake-ups")


def prc(name, **kw):
    return dict(name=name, harness=["proc.c"], dirs=["util", "util/port", "radarcape"], extra=["util/log_stdio.c"], logstub=False,
                exclude=["radarcape/%s.c" % x for x in ("dummy", "uart", "network", "fpga", "gpio", "watchdog", "main", "wd-main", "rc-parser")],
                flags=['-DWITH_SYSTEMD="/sysd"', "-DWITH_PACMAN", "-DSTANDALONE", "-DINPUT_RADARCAPE_UART", '-DSYSCONFDIR="/etc"', '-DFWDIR="/lib/fw"'], **kw)


check("K02", [
    prc("commands", quick=dict(logs=1, preempt=2), thorough=dict(logs=3, preempt=-1, max_s=900)),
    prc("addresses", params=dict(addr=1, logs=0, preempt=0)),
    prc("line", params=dict(line=1)),
], rule="commands executed or command lines that had to be shortened", bounds="all outcomes of all system calls and all interleavings up to the preemption bound with a thread that logs; 3 x 121 addresses x 64 ports of boundary octets; command lines of 1 to 4 arguments with all total lengths around the size of the log buffer")


def eth(name, *flags, **kw):
    return dict(name=name, harness=["serial_eth.c"], dirs=["util", "util/port"], flags=list(flags), **kw)


check("S02", [
    eth("eth0", params=dict(fail=0), quick=dict(vals=3), thorough=dict(vals=5)),
    eth("faults", params=dict(vals=1, queries=3), quick=dict(fail=4), thorough=dict(fail=6, queries=5, vals=2)),
    eth("cancel", params=dict(vals=1, queries=2, cancel=1), quick=dict(fail=3), thorough=dict(fail=4, queries=3, vals=2)),
    eth("longname", '-DETHER_DEV="enx0123456789ab"', params=dict(vals=1, queries=2, dev="enx0123456789ab", fail=2)),
], rule="addresses that come from the device file", bounds="all combinations of boundary values of the address bytes, all sequences of up to 3 (thorough: 5) queries with up to the given number of failures in all calls")


def lib(name, gp, **kw):
    return dict(name=name, harness=["lib.c", "lib_gp.cc" if gp else "lib_rc.cc"], dirs=CORE + ["gplib" if gp else "radarcape/lib"],
                exclude=["util/serial_eth.c"] + ["%s/%s" % (d, x) for d in ("gplib", "radarcape/lib") for x in ("log_lib.cc", "opensky-example.cc", "opensky-test.cc")],
                flags=['-DPREFIX="OpenSky"', "-DLIB"] + ([] if gp else ["-DRCLIB"]), **kw)


check("A01", [
    lib("histories", True, cost=5, quick=dict(depth=7), thorough=dict(depth=10, max_s=900)),
    lib("kept", True, cost=5, params=dict(hist=1, confs=2), quick=dict(depth=5), thorough=dict(depth=8, max_s=900)),
    lib("sched", True, cost=5, params=dict(hist=1, preempt=1), quick=dict(depth=5), thorough=dict(depth=6, max_s=900)),
    lib("inputs", True, params=dict(inputs=1)),
], rule="frames sent on", bounds="all histories of calls of the library and of server commands up to the given depth, without and with history, at depth 5 also with a preemption (thorough: 6); all combinations of boundary timestamps, all lengths, signal levels and first bytes, escape bytes at all pairs of places")

check("A02", [
    lib("histories", False, cost=5, quick=dict(depth=7), thorough=dict(depth=10, max_s=900)),
    lib("kept", False, cost=5, params=dict(hist=1), quick=dict(depth=5), thorough=dict(depth=8, max_s=900)),
    lib("sched", False, cost=5, params=dict(hist=1, preempt=1), quick=dict(depth=5), thorough=dict(depth=6, max_s=900)),
    lib("noserial", False, params=dict(noserial=1, hist=0), quick=dict(depth=3), thorough=dict(depth=5)),
    lib("inputs", False, params=dict(inputs=1)),
], rule="messages sent on", bounds="all histories of calls of the library and of server commands up to the given depth, without and with history, at depth 5 also with a preemption (thorough: 6); all types, all values of each byte, escape bytes at all pairs of places")


def fpga(name, **kw):
    return dict(name=name, harness=["fpga.c"], dirs=["util", "util/port", "radarcape"], flags=RCF + ["-DINPUT_RADARCAPE_UART", "-DSTANDALONE"],
                exclude=["util/serial_eth.c", "util/statistics.c"] + ["radarcape/%s.c" % x for x in ("dummy", "uart", "network", "gpio", "watchdog", "main", "wd-main", "rc-parser", "tb-misc", "tb-rshell")], **kw)


check("H01", [
    fpga("faults", cost=5, params=dict(alpha=2), quick=dict(size=2, faults=4, iofails=1), thorough=dict(size=4, alpha=3, faults=6, delays=6, max_s=900)),
    fpga("bytes", params=dict(alpha=256, faults=0, iofails=0), quick=dict(size=1), thorough=dict(size=2, max_s=900)),
    fpga("names", params=dict(names=1, alpha=1, size=1, faults=1, iofails=1)),
    fpga("again", params=dict(alpha=2, size=1, rounds=2, iofails=1), quick=dict(faults=2), thorough=dict(faults=3, rounds=3, max_s=900)),
], rule="files accepted after more than one attempt", bounds="all files of up to 2 (thorough: 4) bytes over a small alphabet, all files of 1 (2) bytes, both boards, all ways to deviate from immediate success up to the given number of times (late or missing readiness, lasting or passing errors after each byte, late or missing completion), all failures of system calls, file names at the limits of length")


def gpio(name, wd=0, **kw):
    ex = ["dummy", "uart", "network", "fpga", "main", "rc-parser", "tb-misc", "tb-rshell"] + (["gpio"] if wd else ["watchdog"]) + ([] if wd == 2 else ["wd-main"])
    return dict(name=name, harness=["gpio.c"], dirs=["util", "util/port", "radarcape"], flags=RCF + ["-DINPUT_RADARCAPE_UART", "-DSTANDALONE"] + ["-DMC_WD", "-DMC_WDMAIN"][:wd],
                exclude=["util/serial_eth.c", "util/statistics.c"] + (["util/util.c"] if wd == 2 else []) + ["radarcape/%s.c" % x for x in ex], **kw)


check("H02", [
    gpio("pins"),
    gpio("faults", params=dict(pins=0, fails=5, cycles=3)),
    gpio("watchdog", 1, quick=dict(intervals=8), thorough=dict(intervals=200)),
    gpio("program", 2, quick=dict(intervals=8), thorough=dict(intervals=200)),
], rule="operations that change the pin's level or direction, reads of set pins, intervals after the first", bounds="all 128 pins, all operations, 64 combinations of register contents; all sequences of failing open and mmap calls in 3 construct/destruct cycles; up to 8 (thorough: 200) watchdog intervals")


def stat(name, **kw):
    return dict(name=name, harness=["stat.c"], dirs=["util", "util/port"], exclude=["util/serial_eth.c"], **kw)


check("D01", [
    stat("values", params=dict(inputs=1, reports=1, intervals=1, cancel=0)),
    stat("history", quick=dict(reports=2, intervals=2, cancel=0), thorough=dict(reports=3, cancel=0, max_s=1500)),
    stat("many", params=dict(inputs=0, intervals=1, cancel=0, kinds=2, times=2), quick=dict(reports=5), thorough=dict(reports=7, max_s=900)),
    stat("cancel", params=dict(reports=2, intervals=1, inputs=0, kinds=2, times=1)),
    net("online", params=dict(cfails=1, data=1, sends=2, ticks=1, preempt=1, breaks=1), tiers=("quick",)),
    net("online2", cost=5, params=dict(cfails=0, data=0, sends=2, ticks=2, breaks=2), quick=dict(preempt=0), thorough=dict(preempt=2, breaks=2, ticks=3, max_s=1500)),
    seq("buffer", params=dict(hist=[0, 1], stat=2, gc=1, dyn=1, inc=2), quick=dict(depth=9), thorough=dict(depth=13, max_s=900)),
    dict(name="filter", harness=["filter.c"], dirs=CORE, quick=dict(ops=4), thorough=dict(ops=6, max_s=900)),
], rule="reports with frames and elapsed time, counters asked for", bounds="all sequences of up to 2 (thorough: 3) reports with 6 kinds of elapsed times and 3 kinds of changes of the counters, 3 intervals; each single counter with 5 boundary values; cancellation in each output call; connection histories with time passing at all events, buffer and filter histories up to the given depth")


def daemon(name, **kw):
    return dict(name=name, harness=["daemon.c"], dirs=CORE, **kw)


check("Z01", [
    daemon("run", cost=5, params=dict(hist=[0, 1], rejects=1), quick=dict(preempt=1, frames=2, breaks=1), thorough=dict(preempt=2, breaks=2, frames=2, max_s=1500)),
    daemon("breaks", cost=5, params=dict(hist=[0, 1], cfails=1, ifails=1), quick=dict(preempt=0, frames=3, breaks=3), thorough=dict(preempt=1, breaks=3, frames=3, max_s=1500)),
    daemon("commands", cost=5, params=dict(hist=1, cmds=2), quick=dict(preempt=1, frames=1, breaks=1), thorough=dict(preempt=2, breaks=2, frames=1, max_s=1500)),
    daemon("stop", cost=5, params=dict(hist=[0, 1], stop=12, ifails=1), quick=dict(preempt=0, frames=2, breaks=1), thorough=dict(preempt=1, breaks=2, max_s=1500)),
    daemon("again", cost=5, params=dict(hist=[0, 1], stop=12, again=[1, 2]), quick=dict(preempt=0, frames=1, breaks=1), thorough=dict(preempt=1, breaks=2, max_s=1500)),
    daemon("stopearly", cost=5, params=dict(hist=1, stop=1, cmds=1, cfails=1, frames=1), quick=dict(preempt=1, breaks=1), thorough=dict(preempt=3, breaks=1, max_s=1500)),
    daemon("gc", cost=5, params=dict(hist=1, gc=1), quick=dict(preempt=0, frames=2, breaks=1), thorough=dict(preempt=1, breaks=1, frames=2, stop=8, again=1, max_s=1500)),
    daemon("gcstop", cost=5, params=dict(hist=1, gc=1), quick=dict(preempt=0, frames=1, breaks=0, stop=2), thorough=dict(preempt=1, breaks=1, frames=1, stop=6, max_s=1500)),
    daemon("timeouts", cost=5, params=dict(hist=[0, 1], stop=8, tmo=2), quick=dict(preempt=0, frames=1, breaks=1), thorough=dict(preempt=1, breaks=1, max_s=1500)),
], rule="runs in which frames reached the server", bounds="real COMP, RECV, BUF, FILTER, RELAY, LOGIN, GPS, TB, NET together (up to 6 threads incl. garbage collector) over mocked input and sockets; <=3 frames, <=3 connection losses, <=1 failing connect, <=1 failing input, <=2 server commands, <=2 early timeouts; stop requested at any of the first 12 blocking points, optionally restart with or without destruct/init; preemption bound 0-1 (quick), 1-3 (thorough)")


MAIN = ["-DLOCALSTATEDIR=\"/v\"", "-DSYSCONFDIR=\"/e\"", "-DHAVE_SCANDIR"]

def feeder(name, *flags, **kw):
    return dict(name=name, harness=["feeder.c"], dirs=["util", "util/port", "core"], exclude=["util/net_common-posix.c", "util/serial_eth.c", "util/proc.c"],
                extra=["dump1090/dump1090.c", "dump1090/req-serial.c", "dump1090/position.c", "dump1090/devtype.c", "radarcape/network.c", "radarcape/rc-parser.c", "radarcape/tb-rshell.c"],
                objs=["dump1090/dump1090.c"], flags=MAIN + list(flags), restart=True, **kw)


check("M01", [
    feeder("position", cost=5, params=dict(vary=7)),
    feeder("identity", params=dict(vary=56)),
    feeder("donated", "-DDUMP1090_DONATED", params=dict(vary=40)),
    feeder("kit", "-DDUMP1090_KIT", params=dict(vary=40)),
    feeder("network", params=dict(vary=960)),
    feeder("filter", params=dict(vary=3072, frames=2)),
    feeder("cmds", params=dict(cmds=2, vary=3072, stats=1, frames=1)),
    feeder("donatedcmds", "-DDUMP1090_DONATED", params=dict(cmds=2, vary=3072, stats=[0, 1], frames=1)),
    feeder("dirs", params=dict(vary=33, dirs=1)),
    feeder("badfile", params=dict(vary=49, badfile=1)),
    feeder("sched", params=dict(breaks=0, fixed=0, frames=0, preempt=1, noserial=[0, 1])),
    feeder("nomem", params=dict(nomem=1, noserial=[0, 1])),
    feeder("nothread", params=dict(nothreads=1, noserial=[0, 1], stats=1)),
    feeder("breaks", params=dict(breaks=1, ibreaks=1, cfails=1, noserial=[0, 1], fixed=0), thorough=dict(breaks=2, preempt=1, max_s=1500)),
    feeder("restart", params=dict(runs=2, noserial=1, stop=60, kill=1, breaks=1), thorough=dict(runs=3, stop=80, breaks=2)),
    feeder("restartsched", params=dict(breaks=0, fixed=0, frames=0), quick=dict(runs=1, stop=14), thorough=dict(runs=2, stop=60, noserial=[0, 1], max_s=1500)),
    feeder("diskfull", params=dict(runs=2, noserial=1, stop=60, kill=1, wfails=1), thorough=dict(runs=3, stop=80, wfails=2)),
], rule="runs in which the daemon refused to work, or worked and delivered a frame", bounds="the unmodified main() of dump1090 (3 build variants) with the real components over mocked file system, sockets and signals: every value class of every option in either configuration directory or both, states of the 3 directories (missing, not accessible, a file, a device), one unreadable or malformed file, 1 allocation or thread creation failing at any point, 1 lost server and receiver connection, 1 failing connect, SIGINT or kill at any of the first 60 system calls followed by a restart, 1 failed write of the serial number file; all schedules at blocking points for the connection losses, with one preemption for the plain run")


def rcd(name, variant, *flags, **kw):
    extra = ["radarcape/main.c", "radarcape/rc-parser.c", "trimble/trimble_parser.c", "trimble/trimble_recv.c", "util/serial_eth.c"]
    f = ["-DSYSCONFDIR=\"/e\"", "-DFWDIR=\"/f\"", "-DINPUT_RADARCAPE_" + variant] + list(flags)
    extra += dict(UART=["radarcape/uart.c", "trimble/trimble_input_uart.c", "radarcape/fpga.c", "radarcape/watchdog.c", "radarcape/tb-misc.c", "radarcape/tb-rshell.c"],
                  NETWORK=["radarcape/network.c", "trimble/trimble_input_network.c"], DUMMY=["radarcape/dummy.c", "trimble/trimble_input_dummy.c"])[variant]
    if variant == "UART":
        f.append("-DSTANDALONE")
    return dict(name=name, harness=["radarcape.c"], dirs=["util", "util/port", "core"], exclude=["util/net_common-posix.c", "util/proc.c"], extra=extra, flags=f, restart=True, **kw)


SYSD = ["-DWITH_SYSTEMD=\"/bin\"", "-DWITH_PACMAN"]
check("M02", [
    rcd("uartcfg", "UART", params=dict(vary=0x3c0 | 1 << 11, unsync=1, args=3)),
    rcd("uartid", "UART", params=dict(vary=0x3430, args=3)),
    rcd("uarthw", "UART", params=dict(vary=0xc00, hw=1, args=[2, 3], runs=2)),
    rcd("netpeers", "NETWORK", params=dict(vary=0x3f)),
    rcd("netcfg", "NETWORK", params=dict(vary=0x7c0, unsync=1, hw=1)),
    rcd("dummy", "DUMMY", params=dict(vary=0x730, hw=1)),
    rcd("args", "UART", params=dict(args=1, runs=2)),
    rcd("argsnet", "NETWORK", params=dict(args=1, runs=2)),
    rcd("argsdummy", "DUMMY", params=dict(args=1, runs=2)),
    rcd("nofile", "UART", params=dict(nofile=1, args=[0, 2], runs=2)),
    rcd("nofilenet", "NETWORK", params=dict(nofile=1, args=[0, 2], runs=2)),
    rcd("save", "UART", params=dict(args=2, runs=2, wfails=1, vary=0x2400)),
    rcd("saved", "UART", params=dict(args=2, runs=2), quick=dict(vary=0x36c0), thorough=dict(vary=0x3ff0)),
    rcd("savednet", "NETWORK", params=dict(args=2, runs=2), quick=dict(vary=0x3f), thorough=dict(vary=0x37ff)),
    rcd("cmds", "UART", *SYSD, params=dict(args=3, runs=2, ibreaks=1), quick=dict(cmds=2), thorough=dict(cmds=3, breaks=1)),
    rcd("cmdsbare", "UART", params=dict(args=3, runs=2), quick=dict(cmds=2), thorough=dict(cmds=3)),
    rcd("cmdsnet", "NETWORK", *SYSD, params=dict(ibreaks=1), quick=dict(cmds=2), thorough=dict(cmds=3, breaks=1)),
    rcd("breaks", "UART", params=dict(breaks=1, ibreaks=1, gbreaks=1, fixed=0), quick=dict(frames=0), thorough=dict(breaks=2, ibreaks=2, frames=1, max_s=1500)),
    rcd("breaksnet", "NETWORK", params=dict(breaks=1, ibreaks=1, gbreaks=1, cfails=1, fixed=0), quick=dict(frames=0), thorough=dict(breaks=2, cfails=2, frames=1, max_s=1500)),
    rcd("stop", "UART", params=dict(args=3, runs=2, early=1, frames=1), quick=dict(stop=40), thorough=dict(stop=80, breaks=1, ibreaks=1, gbreaks=1)),
    rcd("stopnet", "NETWORK", params=dict(runs=2, early=1, frames=1), quick=dict(stop=40), thorough=dict(stop=80, breaks=1, ibreaks=1, gbreaks=1, cfails=1)),
    rcd("stopsched", "UART", params=dict(early=1, frames=0, fixed=0), tiers=("thorough",), thorough=dict(stop=30, max_s=1500)),
    rcd("stopnetsched", "NETWORK", params=dict(early=1, frames=0, fixed=0), quick=dict(stop=2), thorough=dict(stop=30, max_s=1500)),
    rcd("stats", "UART", params=dict(vary=0x2000, args=3)),
    rcd("statsnet", "NETWORK", params=dict(vary=0x2000)),
    rcd("nomem", "UART", params=dict(nomem=1, args=[0, 2])),
    rcd("nothread", "NETWORK", params=dict(nothreads=1, vary=0x2000)),
], rule="runs in which the daemon refused to work, saved its configuration, or worked and delivered a frame", bounds="the unmodified main() of the radarcape daemon in its 3 variants with the real components, drivers and parsers over mocked devices, sockets, GPIO and signals: all 11 kinds of command lines, every value class of every option (alone or together, in up to 7 options at once), missing configuration, 4 ways to get a serial number, missing bitstream, dead FPGA, receiver with and without time, 1 failed output call while saving, up to 2 (thorough: 3) remote commands of 9 kinds, 1 (thorough: 2) lost connection to server, receiver and GPS receiver each, 1 failing connect, SIGINT at any of the first 40 (thorough: 80) system calls followed by another run, 1 failing allocation or thread creation; all schedules at blocking points for the connection losses, with one preemption for the plain run")


def log(name, lib=None, **kw):
    src = {None: "util/log_stdio.c", "gp": "gplib/log_lib.cc", "rc": "radarcape/lib/log_lib.cc"}[lib]
    return dict(name=name, harness=["log.c"] + (["log_streams.cc"] if lib else []), dirs=[], extra=[src], logstub=False,
                flags=(["-DLOGLIB", "-DLIB", '-DPREFIX="OpenSky"'] if lib else []) + (["-DRCLIB"] if lib == "rc" else []) + ([] if lib else ["-U_GNU_SOURCE"]), **kw)


check("U01", [
    log("texts", params=dict(threads=1, msgs=1, rich=1)),
    log("gptexts", "gp", params=dict(threads=1, msgs=1, rich=1, own=[0, 1])),
    log("rctexts", "rc", params=dict(threads=1, msgs=1, rich=1, own=[0, 1])),
    log("two", params=dict(threads=2, rich=0, emerg=1, cancel=[0, 1]), quick=dict(msgs=1, preempt=2), thorough=dict(msgs=2, preempt=2, max_s=1500)),
    log("locked", params=dict(threads=2, rich=0, locks=1), quick=dict(msgs=1, preempt=2), thorough=dict(msgs=2, preempt=2, max_s=1500)),
    log("gptwo", "gp", params=dict(threads=2, rich=0, emerg=1, cancel=[0, 1]), quick=dict(msgs=1, preempt=2), thorough=dict(msgs=2, preempt=2, max_s=1500)),
    log("rctwo", "rc", params=dict(threads=2, rich=0, emerg=1, cancel=[0, 1]), quick=dict(msgs=1, preempt=2), thorough=dict(msgs=2, preempt=2, max_s=1500)),
], rule="runs in which something was logged", bounds="every log function, level, 4 prefixes, 4 texts and 5 errors for a single message; 2 threads with 1 (thorough: 2) messages each, flushing, cancelling one of them at any point, locking the log, all interleavings of the output operations up to 2 (thorough: 3) preemptions")


def util(name, **kw):
    return dict(name=name, harness=["util.c"], dirs=[], extra=["util/util.c"], **kw)


check("U02", [
    util("drop", params=dict(what=0)),
    util("nomem", params=dict(what=0, nomem=1)),
    util("refused", params=dict(what=0, refuse=[1, 2])),
    util("sigint", params=dict(what=1, fails=[0, 1], threads=[0, 1])),
    util("blocked", params=dict(what=1, fails=[0, 1], blocked=1)),
    util("random", params=dict(what=2), quick=dict(n=300), thorough=dict(n=20000)),
], rule="runs in which privileges were dropped, SIGINT arrived or a number was drawn", bounds="all user IDs and results of the look-ups, sizes of buffers, failing allocation and refused changes; SIGINT (blocked before or not) arriving at any point, or a failing call; all ranges up to 300 (thorough: 20000) and near the maximum, with every value of the generator near 0, its maximum and the limit of rejection")


SCRIPTS = "explicit-state model checking of the real package scripts and the real daemon (own explorer: every history of operations, answers and interruptions within the bounds, states stored and compared, each step executed by the shell)"


def pkg(name, mode, **kw):
    kw["params"] = dict(kw.get("params", {}), mode=mode)
    kw["quick"] = dict(dict(max_s=300), **kw.get("quick", {}))
    return dict(name=name, harness=[], dirs=[], script="pkg/pkg.py", **kw)


check("W01", [
    pkg("answers", "dialogue", params=dict(pkg=[0, 1, 2], key=["latitude", "longitude", "altitude", "username", "serial", "port", "host"]), quick=dict(len=1), thorough=dict(len=2)),
    pkg("branch", "dialogue", params=dict(pkg=0, key="dump1090branch"), quick=dict(len=1), thorough=dict(len=2)),
    pkg("again", "dialogue", cost=3, params=dict(pkg=[0, 1, 2], key=["longitude", "port"]), quick=dict(len=2), thorough=dict(len=3)),
    pkg("combos", "combos", cost=2, params=dict(pkg=[0, 1, 2]), quick=dict(times=1), thorough=dict(times=2)),
    pkg("silent", "preseed", cost=3, params=dict(pkg=[0, 1, 2], parts=3, part=[0, 1, 2]), quick=dict(bad=1, miss=2), thorough=dict(bad=6, miss=6, max_s=1500)),
], technique=SCRIPTS, rule="starts of the daemon with what was entered", bounds="each question with all sequences of up to 1 (two of them: 2; thorough: 2, 3) answers of its alphabet and an accepted one; all subsets of questions answered wrongly once (thorough: up to twice); front ends that ask nothing, or only what is critical, with all combinations of valid, invalid and missing values; 3 packages")

check("W02", [
    pkg("life", "life", cost=4, params=dict(pkgs=["0", "1", "2"], depth=30), quick=dict(rich=0), thorough=dict(rich=1, max_s=1500)),
    pkg("override", "life", cost=3, params=dict(pkgs="0", override=1, depth=30), quick=dict(rich=0), thorough=dict(rich=1, max_s=1500)),
    pkg("switch", "life", cost=5, quick=dict(depth=5, pkgs=["0+1", "2+1"]), thorough=dict(depth=30, pkgs=["0+1+2", "0+2"], max_s=3000)),
    pkg("crash", "crash", cost=4, params=dict(pkgs=["0", "1", "2"]), quick=dict(max=24), thorough=dict(max=40)),
], technique=SCRIPTS, rule="starts of the daemon, purges and completed interruptions", bounds="all histories (until no new state appears) of one package, and those of up to 5 steps (thorough: all) of packages which replace each other, of installations, upgrades, reconfigurations, starts, removals and purges; all interruptions at a command of the scripts by a kill or a failing command, completed or given up (purged)")

check("W03", [
    pkg("board", "board"),
    pkg("opkg", "service", params=dict(kind="opkg", name="openskyd")),
    pkg("arch", "service", params=dict(kind="arch", name=["openskyd", "openskyd-wd"])),
], technique=SCRIPTS, rule="boards the daemon is started on; installations, upgrades and removals", bounds="8 kernels x 4 device trees x 4 boot logs x all states of the slots, with a daemon that fails; all reachable states of the service under installation, upgrade, removal, reboot and the administrator's start, stop, enable and disable")
