/* Stand-in for the commands which the package scripts call: the name it is called by tells which. It runs unprivileged,
 * below the scratch directory $PKG_ROOT, and writes what was asked for into $PKG_ROOT/log. Commands which change accounts or
 * owners are only recorded (in $PKG_ROOT/accounts, owners); others are passed on to the real program if all paths in their
 * arguments are inside the scratch directory. At the command number $PKG_STOP the script is killed ($PKG_HOW=kill) or the
 * command fails. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <limits.h>
#include <ftw.h>
#include <fnmatch.h>
static char root[PATH_MAX];
static char path[PATH_MAX];
static const char * in(const char * f) { snprintf(path, sizeof path, "%s/%s", root, f); return path; }
static bool has(const char * kind, const char * name)
{
	FILE * f = fopen(in("accounts"), "r");
	char l[256], w[256];
	bool r = false;
	snprintf(w, sizeof w, "%s %s\n", kind, name);
	while (f && fgets(l, sizeof l, f))
		if (!strcmp(l, w)) r = true;
	if (f) fclose(f);
	return r;
}
static void add(const char * kind, const char * name)
{
	FILE * f = fopen(in("accounts"), "a");
	if (f && !has(kind, name)) { f = freopen(in("accounts"), "a", f); fprintf(f, "%s %s\n", kind, name); }
	if (f) fclose(f);
}
static void del(const char * kind, const char * name)
{
	char all[4096] = "", l[256], w[256];
	FILE * f = fopen(in("accounts"), "r");
	snprintf(w, sizeof w, "%s %s\n", kind, name);
	while (f && fgets(l, sizeof l, f))
		if (strcmp(l, w)) strcat(all, l);
	if (f) fclose(f);
	f = fopen(in("accounts"), "w");
	if (f) { fputs(all, f); fclose(f); }
}
static const char * owner;
static int own(const char * p, const struct stat * st, int t, struct FTW * b)
{
	FILE * f = fopen(in("owners"), "a");
	if (f) { fprintf(f, "%s %s\n", owner, p + strlen(root)); fclose(f); }
	return 0;
}
static bool outside(const char * a)
{
	/* an option or an absolute path elsewhere, or a way up */
	if (a[0] == '/')
		return strncmp(a, root, strlen(root)) || a[strlen(root)] != '/' || strstr(a, "..");
	return strstr(a, "..") != NULL;
}
/* The service manager: one unit per file in $PKG_ROOT/units: "loaded enabled active version" */
static int unit(const char * op, const char * name, bool now)
{
	char n[128], f[PATH_MAX], v[64] = "0";
	snprintf(n, sizeof n, "%s", name);
	char * p = strstr(n, ".service");
	if (p) *p = 0;
	int loaded = 0, enabled = 0, active = 0;
	char ver[64] = "0";
	bool there = false;
	static const char * dirs[] = { "lib", "usr/lib", "etc" };
	for (int i = 0; i < 3; ++i) {
		snprintf(f, sizeof f, "%s/systemd/system/%s.service", dirs[i], n);
		FILE * u = fopen(in(f), "r");
		if (u) { there = true; if (fscanf(u, "%*s %63s", v) != 1) strcpy(v, "?"); fclose(u); }
	}
	snprintf(f, sizeof f, "units/%s", n);
	FILE * u = fopen(in(f), "r");
	if (u) { if (fscanf(u, "%d %d %d %63s", &loaded, &enabled, &active, ver) != 4) return 99; fclose(u); }
	int rc = 0;
	if (!strcmp(op, "reload")) loaded = there;
	else if (!strcmp(op, "is-enabled")) rc = !(there && enabled);
	else if (!strcmp(op, "is-active")) rc = active ? 0 : 3;
	else if (!strcmp(op, "enable")) { if (there) enabled = 1; else rc = 1; if (now && there) goto start; }
	else if (!strcmp(op, "disable")) { if (there) enabled = 0; else rc = 1; if (now) active = 0; }
	else if (!strcmp(op, "start")) { start: if (!there && !loaded) rc = 5; else if (!active) { active = 1; strcpy(ver, v); } }
	else if (!strcmp(op, "restart")) { if (!there && !loaded) rc = 5; else { active = 1; strcpy(ver, v); } }
	else if (!strcmp(op, "try-restart")) { if (active) strcpy(ver, v); }
	else if (!strcmp(op, "stop")) { if (!there && !loaded) rc = 5; active = 0; }
	else rc = 1;
	if (!active) strcpy(ver, "0");
	u = fopen(in(f), "w");
	if (!u) return 99;
	fprintf(u, "%d %d %d %s\n", loaded, enabled, active, ver);
	fclose(u);
	return rc;
}
static int systemctl(int argc, char ** argv)
{
	const char * op = NULL;
	bool now = false;
	int rc = 0;
	for (int i = 1; i < argc; ++i) now |= !strcmp(argv[i], "--now");
	for (int i = 1; i < argc; ++i) {
		if (*argv[i] == '-') continue;
		if (!op) {
			op = argv[i];
			if (!strcmp(op, "daemon-reload")) { unit("reload", "openskyd", 0); unit("reload", "openskyd-wd", 0); return 0; }
			continue;
		}
		int r = unit(op, argv[i], now);
		if (r) rc = r;
	}
	return op ? rc : 1;
}
int main(int argc, char ** argv)
{
	const char * r = getenv("PKG_ROOT");
	if (!r) return 99;
	snprintf(root, sizeof root, "%s", r);
	const char * me = strrchr(argv[0], '/') ? strrchr(argv[0], '/') + 1 : argv[0];
	FILE * f = fopen(in("log"), "a+");
	int n = 0, c;
	rewind(f);
	while ((c = getc(f)) != EOF)
		n += c == '\n';
	fprintf(f, "%s", me);
	for (int i = 1; i < argc; ++i) fprintf(f, " %s", argv[i]);
	fprintf(f, "\n");
	fclose(f);
	const char * stop = getenv("PKG_STOP");
	if (stop && atoi(stop) == n) {
		if (!strcmp(getenv("PKG_HOW"), "kill")) { kill(0, SIGKILL); for (;;) pause(); }
		return 1;
	}
	/* the argument that is the account: the last one which is neither an option nor an option's value */
	const char * last = "";
	for (int i = 1; i < argc; ++i) {
		static const char * val[] = { "--ingroup", "--home", "--gid", "--uid", "--shell", "--gecos", "--comment", "-g", "-G", "-c", "-d", "-s", "-u", "--groups" };
		bool v = false;
		for (size_t k = 0; k < sizeof val / sizeof *val; ++k) v |= !strcmp(argv[i - 1], val[k]);
		if (*argv[i] != '-' && !(i > 1 && v)) last = argv[i];
	}
	const char * group = NULL;
	for (int i = 1; i + 1 < argc; ++i)
		if (!strcmp(argv[i], "--ingroup") || !strcmp(argv[i], "-g") || !strcmp(argv[i], "--gid")) group = argv[i + 1];
	if (!strcmp(me, "getent")) {
		const char * kind = argc > 1 ? argv[1] : "";
		if (argc > 2) {
			if (!has(kind, argv[2])) return 2;
			printf("%s:x:123:456::/nonexistent:/bin/false\n", argv[2]);
			return 0;
		}
		printf("root:x:0:0::/root:/bin/sh\nopenskydx:x:77:77::/:/bin/false\nxopenskyd:x:78:78::/:/bin/false\n");
		if (has(kind, "openskyd")) printf("openskyd:x:123:456::/nonexistent:/bin/false\n");
		return 0;
	}
	if (!strcmp(me, "addgroup") || !strcmp(me, "groupadd")) {
		if (has("group", last)) return 1;
		add("group", last);
		return 0;
	}
	if (!strcmp(me, "adduser") || !strcmp(me, "useradd")) {
		if (has("passwd", last) || (group && !has("group", group))) return 1;
		add("passwd", last);
		return 0;
	}
	if (!strcmp(me, "usermod"))
		return !has("passwd", last);
	if (!strcmp(me, "deluser") || !strcmp(me, "userdel")) {
		if (!has("passwd", last)) return 1;
		del("passwd", last);
		del("group", last);   /* adduser removes the user's primary group with it if it is empty */
		return 0;
	}
	if (!strcmp(me, "delgroup") || !strcmp(me, "groupdel")) {
		if (!has("group", last)) return 1;
		del("group", last);
		return 0;
	}
	if (!strcmp(me, "id"))
		return !has("passwd", last);
	if (!strcmp(me, "dpkg-statoverride")) {
		FILE * o = fopen(in("override"), "r");
		if (!o) return 1;
		fclose(o);
		snprintf(path, sizeof path, "%s/var/lib/openskyd", root);
		if (*last && fnmatch(last, path, 0)) return 1;
		printf("root adm 750 %s\n", path);
		return 0;
	}
	if (!strcmp(me, "uname")) { puts(getenv("PKG_KERNEL") ? getenv("PKG_KERNEL") : "?"); return 0; }
	if (!strcmp(me, "openskyd-rc")) return getenv("PKG_DAEMON") ? atoi(getenv("PKG_DAEMON")) : 0;
	if (!strcmp(me, "systemctl")) return systemctl(argc, argv);
	if (!strcmp(me, "dmesg")) {
		f = fopen(in("dmesg"), "r");
		while (f && (c = getc(f)) != EOF) putchar(c);
		return 0;
	}
	/* what is read from the list of slots is in another file: what is written to it is collected */
	if (strcmp(me, "tee"))
		for (int i = 1; i < argc; ++i)
			if (*argv[i] == '/' && strlen(argv[i]) > 6 && !strcmp(argv[i] + strlen(argv[i]) - 6, "/slots")) {
				static char b[PATH_MAX];
				snprintf(b, sizeof b, "%s.content", argv[i]);
				argv[i] = b;
			}
	bool bad = false;
	for (int i = 1; i < argc; ++i) bad |= outside(argv[i]);
	if (bad) {
		f = fopen(in("outside"), "a");
		fprintf(f, "%s", me);
		for (int i = 1; i < argc; ++i) fprintf(f, " %s", argv[i]);
		fprintf(f, "\n");
		fclose(f);
		return 0;
	}
	if (!strcmp(me, "chown") || !strcmp(me, "chgrp")) {
		bool rec = false;
		char user[64] = "";
		for (int i = 1; i < argc; ++i) {
			if (argv[i][0] == '-') { if (strchr(argv[i], 'R') || !strcmp(argv[i], "--recursive")) rec = true; continue; }
			if (!*user) {
				snprintf(user, sizeof user, "%s", argv[i]);
				char * p = strpbrk(user, ":.");
				if (p) *p = 0;
				if (!has("passwd", user)) return 1;
				owner = user;
			} else if (access(argv[i], F_OK)) {
				return 1;
			} else if (rec) {
				nftw(argv[i], own, 8, FTW_PHYS);
			} else {
				own(argv[i], NULL, 0, NULL);
			}
		}
		return 0;
	}
	if (!strcmp(me, "mv") && argc > 2) {
		f = fopen(in("owners"), "a");   /* the owner goes with the file */
		for (int i = 1; i + 1 < argc; ++i)
			if (argv[i][0] != '-' && !strncmp(argv[i], root, strlen(root)) && !strncmp(last, root, strlen(root)))
				fprintf(f, "> %s %s\n", argv[i] + strlen(root), last + strlen(root));
		fclose(f);
	}
	char real[PATH_MAX];
	snprintf(real, sizeof real, "/usr/bin/%s", me);
	execv(real, argv);
	return 127;
}
