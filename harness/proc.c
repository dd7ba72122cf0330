/* K02: remote commands start exactly the intended programs */
#include "common.h"
#include "fmt.h"
#include <errno.h>
#include <fcntl.h>
#include <arpa/inet.h>
#include "core/tb.h"
#include "util/log.h"
#include "util/proc.h"
#include "radarcape/tb-misc.h"
#include "radarcape/tb-rshell.h"

bool FPGA_bbwhite;
const char * MAIN_progName = "/usr/bin/openskyd";

enum Cmd { RSHELL, RESTART, REBOOT, UPGRADE, NCMD, LINE };
static enum Cmd cmd;
static int level;                 /* generations of forks since the daemon */
static bool detached, daemon_tried;
static int did, forkfailed;       /* programs started and failed forks of the current process */
static bool null_stdin, stdin_open = true;
static int kids;                  /* children the current process has started */
static int awaited;               /* last child whose end was awaited */
static bool ok[8];                /* ... and has succeeded */
static int execs, forkfails;
static uint8_t payload[6];
static char want[100];
static int logs;
static char line[4096]; static unsigned nline;
static bool capture;

/* output of the log */
static void emit(const char * s, unsigned n)
{
	if (!capture) return;
	mc_assert(nline + n < sizeof line, "more is logged than there is");
	memcpy(line + nline, s, n);
	nline += n;
	line[nline] = 0;
}
static char tasks[20]; static unsigned ntasks; static bool cgroup_tried, cgroup_open;
static void emit_file(FILE * f, const char * s, unsigned n)
{
	mc_assert(f == (FILE *)4 && cgroup_open && ntasks + n < sizeof tasks, "strange file");
	memcpy(tasks + ntasks, s, n);
	ntasks += n;
}
static int pid(void) { return 4711 + 10 * level + detached; }
int mc_getpid(void) { return pid(); }
#define OUT_POINT mc_sched("print")
#include "stdout.h"

int mc_fflush(FILE * f) { return 0; }

/* processes */
static void (*atf[3])(void);
int mc_pthread_atfork(void (*a)(void), void (*b)(void), void (*c)(void)) { atf[0] = a; atf[1] = b; atf[2] = c; return 0; }
int mc_fork(void)
{
	mc_assert(cmd != RESTART, "a child is started");
	if (atf[0]) atf[0]();
	mc_sched("fork");
	int r = mc_choose(3, "fork: parent, child, failure");
	if (r == 2) {
		if (atf[1]) atf[1]();
		++forkfails;
		++forkfailed;
		mc_outcome("fork failed", level);
		errno = EAGAIN;
		return -1;
	}
	if (r == 0) {
		mc_assert(kids < 7, "too many children");
		if (atf[1]) atf[1]();
		return 100 + ++kids;
	}
	mc_kill_others();
	++level;
	kids = awaited = did = forkfailed = 0;
	if (atf[2]) atf[2]();
	return 0;
}
int mc_vfork(void) { return mc_fork(); }
int mc_waitpid(int pid, int * status, int fl)
{
	mc_assert(level || cmd != UPGRADE, "the daemon waits for the command");
	mc_sched("waitpid");
	mc_assert(fl == 0, "does not wait for the end of the command");
	if (pid > 100 && pid <= 100 + kids) awaited = pid - 100;
	if (pid <= 100 || pid > 100 + kids || mc_choose(2, "waitpid fails")) {
		mc_outcome("waitpid failed", pid > 100);
		errno = ECHILD;
		return -1;
	}
	static const int st[] = { 0, 1 << 8, 9, 255 << 8 };
	int r = mc_choose(4, "status of child");
	ok[pid - 100] = r == 0;
	if (status) *status = st[r];
	return pid;
}
int mc_daemon(int nochdir, int noclose)
{
	mc_assert(level, "the daemon itself goes to the background");
	daemon_tried = true;
	if (mc_choose(2, "daemon fails")) return -1;
	detached = true;
	if (!noclose) null_stdin = stdin_open = true;
	return 0;
}
int mc_setsid(void) { detached = level > 0; return 1; }
static int fd0(const char * path)
{
	if (!stdin_open) {
		stdin_open = true;
		null_stdin = !strcmp(path, "/dev/null");
		return 0;
	}
	return 3;
}
int mc_close(int fd)
{
	if (fd == 0) {
		mc_assert(level, "standard input of the daemon is closed");
		stdin_open = null_stdin = false;
	}
	return 0;
}
int mc_open(const char * path, int fl, ...) { return fd0(path); }
int mc_openat(int d, const char * path, int fl, ...) { return fd0(path); }
int mc_dup2(int a, int b)
{
	mc_assert(a == 3, "strange dup2");
	if (b == 0) { mc_assert(level, "standard input of the daemon is replaced"); stdin_open = null_stdin = true; }
	return b;
}
int mc_umask(int m) { mc_assert(level, "umask of the daemon is changed"); return 0; }
FILE * mc_fopen(const char * path, const char * mode)
{
	mc_assert(level, "the daemon changes its control group");
	mc_assert(!strcmp(path, "/sys/fs/cgroup/systemd/tasks"), "'%s' is opened", path);
	cgroup_tried = true;
	if (mc_choose(2, "fopen fails")) { errno = ENOENT; return NULL; }
	mc_assert(mode[0] == 'a' || mode[0] == 'w' || !strncmp(mode, "r+", 2), "the control group is opened in mode '%s'", mode);
	cgroup_open = true;
	return (FILE *)4;
}
int mc_fclose(FILE * f)
{
	mc_assert(f == (FILE *)4 && cgroup_open, "strange file is closed");
	cgroup_open = false;
	char w[20];
	snprintf(w, sizeof w, "%d", pid());
	mc_assert(ntasks >= strlen(w) && !memcmp(tasks, w, strlen(w)) && (ntasks == strlen(w) || (ntasks == strlen(w) + 1 && tasks[ntasks - 1] == '\n')),
		"'%s' is written as process id instead of '%s'", tasks, w);
	return 0;
}

static bool is(char * const argv[], const char * const w[])
{
	int i;
	for (i = 0; w[i]; ++i)
		if (!argv[i] || strcmp(argv[i], w[i])) return false;
	return !argv[i];
}
int mc_execve(const char * path, char * const argv[], char * const envp[])
{
	mc_assert(argv[0] && !strcmp(path, argv[0]), "program and first argument differ");
	if (cmd == LINE) { errno = ENOENT; return -1; }
	mc_assert(envp && !envp[0], "the environment is not empty");
	++execs;
	++did;
	const char * progs[4][8] = {
		[RSHELL] = { "/usr/bin/rcc", "-t", ":22", "-r", want, "-n" },
		[RESTART] = { MAIN_progName, FPGA_bbwhite ? NULL : "--black" },
		[REBOOT] = { "/sysd/systemctl", "reboot" },
	};
	static const char * up[3][8] = {
		{ "/usr/bin/pacman", "--noconfirm", "--needed", "-Sy", "openskyd", "rcc" },
		{ "/sysd/systemctl", "daemon-reload" },
		{ "/sysd/systemctl", "restart", "openskyd" },
	};
	if (cmd != RESTART) {
		mc_assert(level, "the daemon is replaced by '%s'", argv[0]);
		mc_assert(stdin_open && null_stdin, "standard input of '%s' is not /dev/null", argv[0]);
	} else mc_assert(!level, "a child restarts");
	if (cmd == RSHELL || cmd == REBOOT) mc_assert(detached, "'%s' is not detached", argv[0]);
	if (cmd == RSHELL || cmd == REBOOT) mc_assert(cgroup_tried && !cgroup_open, "'%s' remains in the control group of the daemon", argv[0]);
	if (cmd != UPGRADE) {
		mc_assert(is(argv, progs[cmd]), "wrong command line: %s %s %s %s %s", argv[0], argv[1], argv[1] ? argv[2] : "", argv[1] && argv[2] ? argv[3] : "", argv[1] && argv[2] && argv[3] ? argv[4] : "");
		mc_outcome("exec", cmd);
		mc_sample("%s %s", argv[0], cmd == RSHELL ? want : argv[1] ? argv[1] : "");
	} else {
		int i;
		for (i = 0; i < 3 && !is(argv, up[i]); ++i) ;
		mc_assert(i < 3, "wrong command line: %s %s", argv[0], argv[1]);
		static const int lv[] = { 2, 2, 1 };
		mc_assert(level == lv[i], "'%s %s' is executed by the wrong process", argv[0], argv[1]);
		/* results of the commands before were passed on through fork */
		if (i) mc_assert(ok[1], "'%s %s' is run although the upgrade has failed", argv[0], argv[1]);
		if (i == 2) mc_assert(awaited == 2 || forkfails, "restarts before systemd was reloaded");
		mc_outcome("exec", 10 + i);
	}
	mc_eval(true);
	if (mc_choose(2, "execve fails") == 0) {
		mc_assert(cmd == RESTART || mc_locks_held(mc_self()) == 0, "locks held");
		mc_end();
	}
	errno = ENOEXEC;
	return -1;
}
static void on_abort(const char * why)
{
	mc_assert(level, "the daemon is terminated: %s", why);
	if (cmd == RSHELL || cmd == REBOOT) mc_assert(did || (daemon_tried && !detached), "the command was not executed");
	if (cmd == UPGRADE && level == 2) mc_assert(did, "the command was not executed");
	if (cmd == UPGRADE && level == 1) {
		mc_assert(kids || forkfailed, "the upgrade was not started");
		mc_assert(!ok[1] || !awaited || did, "no restart after the upgrade");
	}
	mc_outcome("child terminated", cmd);
	mc_end();
}
static void logger(void * a)
{
	while (logs-- > 0) LOG_log(LOG_LEVEL_INFO, "OTHER", "x");
}
static void tb(void * a)
{
	switch (cmd) {
	case RSHELL: TB_reverseShell(payload); break;
	case RESTART: TB_restartDaemon(payload); break;
	case REBOOT: TB_rebootSystem(payload); break;
	case UPGRADE: TB_upgradeDaemon(payload); break;
	default: ;
	}
	mc_assert(!level, "a child continues as a second daemon");
	mc_assert(cmd == RESTART ? execs == 1 : kids <= 1 && execs == 0, "the command is run %d times", cmd == RESTART ? execs : kids);
	mc_assert(mc_locks_held(mc_self()) == 0, "a lock is still held");
	mc_outcome("daemon continues", cmd * 2 + kids);
}
static bool all_done(void * a)
{
	for (int i = 0; i < 2; ++i) if (!mc_thread_done(((int *)a)[i])) return false;
	return true;
}

/* command lines around the size of the buffer */
static char args[4][1400];
static void one_line(int n, const int * len)
{
	char * argv[5] = {};
	static char full[4096];
	unsigned l = 0;
	for (int i = 0; i < n; ++i) {
		memset(args[i], 'a' + i, len[i]);
		args[i][len[i]] = 0;
		argv[i] = args[i];
		full[l++] = ' ';
		memcpy(full + l, args[i], len[i]);
		l += len[i];
	}
	full[l] = 0;
	nline = 0;
	capture = true;
	PROC_execRaw(argv);
	capture = false;
	char * p = strstr(line, "Executing");
	mc_assert(p, "the command is not logged");
	p += 9;
	char * e = strchr(p, '\n');
	mc_assert(e, "the line is not terminated");
	unsigned m = e - p;
	bool exact = m == l && !memcmp(p, full, l);
	bool cut = m >= 500 && m < l && m >= 3 && !memcmp(e - 3, "...", 3) && !memcmp(p, full, m - 3);
	mc_assert(exact || cut, "arguments of lengths %d %d %d are logged as '%.*s'", len[0], n > 1 ? len[1] : -1, n > 2 ? len[2] : -1, m > 1500 ? 1500 : (int)m, p);
	mc_eval(cut);
	mc_outcome("line", cut);
	memset(line, 0, sizeof line);
	memset(full, 0, sizeof full);
	nline = 0;
}
void mc_harness(void)
{
	mc_on_abort = on_abort;
	mc_preempt_budget = mc_param("preempt", 2);
	if (mc_param("line", 0)) {
		cmd = LINE;
		mc_preempt_budget = 0;
		int n = mc_choose(4, "number of arguments") + 1;
		int first = n == 1 ? 1 : mc_choose(5, "first argument");
		static const int f[] = { 1, 500, 990, 997, 998 };
		for (int total = 980; total <= 1010; ++total)
			for (int split = 0; split < (n > 2 ? 20 : 1); ++split) {
				int len[4] = { f[first], 0, 0, 0 };
				int rest = total - n - f[first];
				if (n == 1) len[0] = total - 1;
				else if (rest < 0) continue;
				else if (n == 2) len[1] = rest;
				else {
					int s = split < 10 ? split : rest - (split - 10);
					if (s < 0 || s > rest) continue;
					len[1] = s; len[2] = rest - s;
					if (n == 4) { len[3] = len[2] > 1 ? 1 : 0; len[2] -= len[3]; }
				}
				one_line(n, len);
			}
		static const int spec[][3] = { { 0, 0, 0 }, { 1, 0, 0 }, { 1300, 1, 1 }, { 999, 0, 0 }, { 998, 0, 0 }, { 998, 1, 0 }, { 1, 1300, 1300 } };
		for (int i = 0; i < 7; ++i) one_line(n < 4 ? n : 3, spec[i]);
		return;
	}
	if (mc_param("addr", 0)) {
		static const uint8_t b[] = { 0, 1, 9, 10, 99, 100, 127, 128, 199, 200, 255 };
		static const uint8_t pb[] = { 0, 1, 22, 0x27, 0x10, 0x80, 0x7f, 0xff };
		cmd = RSHELL;
		int k = mc_choose(3, "octets varied");
		int i = mc_choose(11, "octet"), j = mc_choose(11, "octet");
		for (int n = 0; n < 4; ++n) payload[n] = k == 0 ? (n & 1 ? b[i] : b[j]) : k == 1 ? (n & 2 ? b[i] : b[j]) : n == 0 ? b[i] : n == 3 ? b[j] : 255;
		payload[4] = pb[mc_choose(8, "port")];
		payload[5] = pb[mc_choose(8, "port")];
	} else {
		cmd = mc_choose(NCMD, "command");
		static const uint8_t p[6] = { 192, 168, 1, 200, 0xfe, 0x01 };
		memcpy(payload, p, 6);
		FPGA_bbwhite = mc_choose(2, "board");
	}
	snprintf(want, sizeof want, "%d.%d.%d.%d:%d", payload[0], payload[1], payload[2], payload[3], payload[4] << 8 | payload[5]);
	logs = mc_param("logs", 1);
	int t[2];
	t[0] = mc_thread(tb, NULL, "tb");
	t[1] = mc_thread(logger, NULL, "logger");
	mc_block(all_done, t, false, "wait");
}
