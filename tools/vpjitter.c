/* Preloaded into maike2 (not into its recipes): random delays around file access, locking and process
 * creation, and a random order of directory entries.  VP_JITTER=seed:permille:max_us */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

static unsigned g_seed, g_permille, g_max, g_shuffle;
static unsigned g_ctr;

__attribute__((constructor)) static void init(void)
{
	char const* e = getenv("VP_JITTER");
	if(e) sscanf(e, "%u:%u:%u:%u", &g_seed, &g_permille, &g_max, &g_shuffle);
	unsetenv("LD_PRELOAD");
}

static uint64_t mix(uint64_t x)
{
	x += 0x9e3779b97f4a7c15ull;
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
	return x ^ (x >> 31);
}

static void jitter(void)
{
	if(!g_permille) return;
	uint64_t r = mix(g_seed * 1000003ull + __atomic_add_fetch(&g_ctr, 1, __ATOMIC_RELAXED));
	if(r % 1000 < g_permille)
	{
		struct timespec t = {0, (long)((r >> 20) % (g_max + 1)) * 1000};
		if(t.tv_nsec) nanosleep(&t, NULL);
		else sched_yield();
	}
}

#define REAL(name) ((__typeof__(&name))dlsym(RTLD_NEXT, #name))
#define CACHED(name) static __typeof__(&name) real_; if(!real_) real_ = REAL(name)

int pthread_mutex_lock(pthread_mutex_t* m)
{
	CACHED(pthread_mutex_lock);
	jitter();
	return real_(m);
}

int pthread_mutex_unlock(pthread_mutex_t* m)
{
	CACHED(pthread_mutex_unlock);
	int r = real_(m);
	jitter();
	return r;
}

pid_t fork(void)
{
	CACHED(fork);
	jitter();
	return real_();
}

int pipe2(int fds[2], int flags)
{
	CACHED(pipe2);
	int r = real_(fds, flags);
	jitter();
	return r;
}

int pipe(int fds[2])
{
	CACHED(pipe);
	int r = real_(fds);
	jitter();
	return r;
}

pid_t waitpid(pid_t p, int* s, int o)
{
	CACHED(waitpid);
	jitter();
	return real_(p, s, o);
}

ssize_t read(int fd, void* b, size_t n)
{
	CACHED(read);
	jitter();
	return real_(fd, b, n);
}

FILE* fopen(char const* p, char const* m)
{
	CACHED(fopen);
	jitter();
	return real_(p, m);
}

/* directory entries in random order */
#define MAXD 64
static struct { DIR* d; struct dirent64** e; size_t n, i; } g_dirs[MAXD];
static pthread_mutex_t g_dmtx = PTHREAD_MUTEX_INITIALIZER;

static struct dirent64* next_entry(DIR* d)
{
	static struct dirent64* (*real_)(DIR*);
	static int (*lk)(pthread_mutex_t*);
	static int (*ul)(pthread_mutex_t*);
	if(!real_) real_ = dlsym(RTLD_NEXT, "readdir64");
	if(!lk) lk = dlsym(RTLD_NEXT, "pthread_mutex_lock");
	if(!ul) ul = dlsym(RTLD_NEXT, "pthread_mutex_unlock");
	if(!g_shuffle) return real_(d);
	lk(&g_dmtx);
	int k = -1, freek = -1;
	for(int j = 0; j < MAXD; ++j)
	{
		if(g_dirs[j].d == d) k = j;
		if(!g_dirs[j].d && freek < 0) freek = j;
	}
	if(k < 0)
	{
		if(freek < 0) { ul(&g_dmtx); return real_(d); }
		k = freek;
		g_dirs[k].d = d;
		g_dirs[k].n = g_dirs[k].i = 0;
		size_t cap = 16;
		g_dirs[k].e = malloc(cap * sizeof(void*));
		struct dirent64* x;
		while((x = real_(d)))
		{
			if(g_dirs[k].n == cap) g_dirs[k].e = realloc(g_dirs[k].e, (cap *= 2) * sizeof(void*));
			struct dirent64* y = malloc(sizeof(*y));
			memcpy(y, x, x->d_reclen < sizeof(*y) ? x->d_reclen : sizeof(*y));
			g_dirs[k].e[g_dirs[k].n++] = y;
		}
		for(size_t j = g_dirs[k].n; j > 1; --j)
		{
			size_t r = mix(g_seed + 77 * j + g_dirs[k].n) % j;
			struct dirent64* t = g_dirs[k].e[j - 1];
			g_dirs[k].e[j - 1] = g_dirs[k].e[r];
			g_dirs[k].e[r] = t;
		}
	}
	struct dirent64* ret = g_dirs[k].i < g_dirs[k].n ? g_dirs[k].e[g_dirs[k].i++] : NULL;
	ul(&g_dmtx);
	return ret;
}

struct dirent64* readdir64(DIR* d) { return next_entry(d); }
struct dirent* readdir(DIR* d) { return (struct dirent*)next_entry(d); }

int closedir(DIR* d)
{
	CACHED(closedir);
	static int (*lk)(pthread_mutex_t*);
	static int (*ul)(pthread_mutex_t*);
	if(!lk) lk = dlsym(RTLD_NEXT, "pthread_mutex_lock");
	if(!ul) ul = dlsym(RTLD_NEXT, "pthread_mutex_unlock");
	lk(&g_dmtx);
	for(int j = 0; j < MAXD; ++j) if(g_dirs[j].d == d)
	{
		for(size_t q = 0; q < g_dirs[j].n; ++q) free(g_dirs[j].e[q]);
		free(g_dirs[j].e);
		g_dirs[j].d = NULL;
	}
	ul(&g_dmtx);
	return real_(d);
}
