/* The child of the process monitor: behaves as told and reports what it was given.
 *
 * argv: vpchild <report file> <script> [anything...]
 * The script is a sequence of: r<n> read n bytes (R: to end-of-file), o<n>/e<n> write n bytes of the pattern to
 * standard output/error, x<n> the same in turns of odd sizes, c<fd> close, s<us> sleep, t echo input to output to
 * end-of-file, q<code> exit, k<signal> kill oneself.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <unistd.h>

extern char** environ;
static uint64_t fnv(uint64_t h, void const* p, size_t n)
{
	unsigned char const* b = p;
	while(n--) { h = (h ^ *b++) * 1099511628211ull; }
	return h;
}
static unsigned char pat(unsigned stream, unsigned long long i)
{
	unsigned long long x = i * 2654435761u + stream * 40503u;
	return (unsigned char)(x >> 11 ^ x >> 3);
}
static unsigned long long pos[3];
static int emit(int fd, unsigned long long n)
{
	static unsigned char buf[70000];
	while(n)
	{
		size_t k = n < sizeof(buf) ? n : sizeof(buf);
		for(size_t i = 0; i < k; ++i) { buf[i] = pat(fd, pos[fd] + i); }
		size_t w = 0;
		while(w < k)
		{
			ssize_t z = write(fd, buf + w, k - w);
			if(z <= 0) { return -1; }
			w += z;
		}
		pos[fd] += k;
		n -= k;
	}
	return 0;
}

int main(int argc, char** argv)
{
	struct rlimit rl;
	getrlimit(RLIMIT_NOFILE, &rl);
	rl.rlim_cur = rl.rlim_max;
	setrlimit(RLIMIT_NOFILE, &rl);
	rl.rlim_cur = 0;
	getrlimit(RLIMIT_CORE, &rl);
	rl.rlim_cur = 0;
	setrlimit(RLIMIT_CORE, &rl);

	char fds[2000] = "";
	DIR* d = opendir("/proc/self/fd");
	for(struct dirent* e; d && (e = readdir(d));)
	{
		if(e->d_name[0] != '.' && atoi(e->d_name) != dirfd(d) && strlen(fds) < 1900) { strcat(fds, " "); strcat(fds, e->d_name); }
	}
	if(d) { closedir(d); }
	// the signals that are ignored or blocked from the beginning
	unsigned long long ign = 0, blk = 0;
	FILE* st = fopen("/proc/self/status", "re");
	char l[300];
	while(st && fgets(l, sizeof(l), st)) { (void)(sscanf(l, "SigIgn: %llx", &ign) || sscanf(l, "SigBlk: %llx", &blk)); }
	if(st) { fclose(st); }
	uint64_t ha = 14695981039346656037ull, he = ha, hi = ha;
	for(int i = 3; i < argc; ++i) { ha = fnv(ha, argv[i], strlen(argv[i]) + 1); }
	int ne = 0;
	for(char** e = environ; *e; ++e, ++ne) { he = fnv(he, *e, strlen(*e) + 1); }
	int rep = open(argv[1], O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
	if(rep == -1) { return 222; }
	{
		int hi = fcntl(rep, F_DUPFD_CLOEXEC, 900);
		if(hi == -1) { return 221; }
		close(rep);
		rep = hi;
	}
	unsigned long long nin = 0;
	int eof = 0, code = 0, sig = 0;
	static char buf[65536];
	for(char* s = argv[2]; *s;)
	{
		char op = *s++;
		unsigned long long n = strtoull(s, &s, 10);
		ssize_t k;
		switch(op)
		{
			case 'r':
				while(n && (k = read(0, buf, n < sizeof(buf) ? n : sizeof(buf))) > 0) { hi = fnv(hi, buf, k); nin += k; n -= k; }
				if(n) { eof = 1; }
				break;
			case 'R':
				while((k = read(0, buf, sizeof(buf))) > 0) { hi = fnv(hi, buf, k); nin += k; }
				eof = k == 0 ? 1 : -1;
				break;
			case 't':
				while((k = read(0, buf, 5000)) > 0) { hi = fnv(hi, buf, k); nin += k; emit(1, k); }
				eof = k == 0 ? 1 : -1;
				break;
			case 'o': emit(1, n); break;
			case 'e': emit(2, n); break;
			case 'x':
				for(unsigned long long i = 0; i < n;)
				{
					unsigned long long m = 1 + (i * 7) % 13;
					if(m > n - i) { m = n - i; }
					emit(1, m);
					emit(2, m);
					i += m;
				}
				break;
			case 'c': close((int)n); break;
			case 's': usleep(n); break;
			case 'q': code = (int)n; break;
			case 'k': sig = (int)n; break;
		}
		if(*s == ',') { ++s; }
	}
	char line[4000];
	int n = snprintf(line, sizeof(line), "%d %llx %d %llx %llu %llx %d %llx %llx|%s\n", argc, (unsigned long long)ha, ne, (unsigned long long)he, nin, (unsigned long long)hi, eof, ign, blk, fds);
	if(write(rep, line, n) != n) { return 223; }
	close(rep);
	if(sig && getpid() % 2)
	{
		// let there be a core dump, in the scratch directory, if it is a signal that causes one
		char* slash = strrchr(argv[1], '/');
		if(slash)
		{
			*slash = 0;
			getrlimit(RLIMIT_CORE, &rl);
			rl.rlim_cur = rl.rlim_max;
			if(chdir(argv[1]) == 0) { setrlimit(RLIMIT_CORE, &rl); }
		}
	}
	if(sig) { signal(sig, SIG_DFL); kill(getpid(), sig); pause(); }
	_exit(code);
}
