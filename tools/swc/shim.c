// Shifts the clocks of the web service by the number of milliseconds in a file.
#define _GNU_SOURCE
#include <fcntl.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
static volatile long *offset;
__attribute__((constructor)) static void init(void) {
	const char *p = getenv("SWC_CLOCK");
	int fd = p ? open(p, O_RDONLY | O_CLOEXEC) : -1;
	if (fd < 0) return;
	void *m = mmap(0, 8, PROT_READ, MAP_SHARED, fd, 0);
	if (m != MAP_FAILED) offset = m;
	close(fd);
}
int clock_gettime(clockid_t id, struct timespec *ts) {
	int r = syscall(SYS_clock_gettime, id, ts);
	if (r == 0 && offset && id != CLOCK_PROCESS_CPUTIME_ID && id != CLOCK_THREAD_CPUTIME_ID) {
		long ms = *offset;
		ts->tv_sec += ms / 1000;
		ts->tv_nsec += ms % 1000 * 1000000;
		if (ts->tv_nsec >= 1000000000) { ts->tv_nsec -= 1000000000; ts->tv_sec++; }
	}
	return r;
}
