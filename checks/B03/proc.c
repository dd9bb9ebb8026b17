// preloaded into the compiler and everything it starts: every process that starts writes its command line
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <unistd.h>
__attribute__((constructor)) static void start(void)
{
	const char *log = getenv("VPROC_LOG");
	if (!log) return;
	char buf[4096];
	int f = open("/proc/self/cmdline", O_RDONLY);
	if (f < 0) return;
	ssize_t n = read(f, buf, sizeof(buf) - 2);
	close(f);
	if (n <= 0) return;
	for (ssize_t i = 0; i < n; i++) if (!buf[i] || buf[i] == '\n') buf[i] = i == n - 1 ? 0 : '\x1f';
	buf[n - 1] = '\n';
	f = open(log, O_WRONLY | O_APPEND | O_CREAT, 0666);
	if (f < 0) return;
	if (write(f, buf, n) < 0) {}
	close(f);
}
