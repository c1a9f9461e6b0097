/* The monitor's recipe program.
 *
 * maike2 runs it as a recipe (configure/get_tags/compile) or as an executable source file.
 * Every invocation is recorded as one atomic O_APPEND write per event in $VP_TRACE:
 *   S <seq-ns> <pid> <json: {"argv":[...], ...}>     before anything is done
 *   E <seq-ns> <pid> <json>                          as the last thing
 * $VP_BEH names a JSON file that maps a source file (or "*") to the behaviour to show:
 *   delay_us, pre_us, exit, signal, stdout, stderr (text), out_n/err_n (bytes of pattern),
 *   no_write (targets are not produced), tags (object printed for get_tags),
 *   configure (object printed for configure), read_stdin, partial, gate (a directory: wait until it has a file named
 *   like the own process id)
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <jansson.h>
#include <libgen.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

static long long now(void)
{
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec * 1000000000LL + t.tv_nsec;
}

static void emit(char kind, json_t* obj)
{
	char const* path = getenv("VP_TRACE");
	if(!path) return;
	char* txt = json_dumps(obj, JSON_COMPACT | JSON_SORT_KEYS | JSON_ENCODE_ANY);
	char* line = NULL;
	int n;
	int fd = open(path, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0666);
	if(fd == -1) { free(txt); return; }
	n = asprintf(&line, "%c %lld %d %s\n", kind, now(), (int)getpid(), txt);
	if(write(fd, line, n) != n) { _exit(99); }
	close(fd);
	free(txt);
	free(line);
}

static size_t chunk = 0;

static void put(int fd, char const* p, size_t n)
{
	while(n)
	{
		ssize_t k = write(fd, p, chunk && chunk < n ? chunk : n);
		if(chunk) usleep(chunk < 64 ? 1 : 50);
		if(k <= 0) return;
		p += k;
		n -= k;
	}
}

static void pattern(int fd, long long n, unsigned seed)
{
	char buf[3001];
	long long i = 0;
	while(i < n)
	{
		size_t k = 0;
		for(; k < sizeof(buf) && i < n; ++k, ++i)
		{
			seed = seed * 1103515245u + 12345u;
			buf[k] = (i % 61 == 60) ? '\n' : (char)('a' + (seed >> 16) % 26);
		}
		put(fd, buf, k);
	}
}

static long long geti(json_t* o, char const* k, long long d)
{
	json_t* v = json_object_get(o, k);
	return json_is_integer(v) ? json_integer_value(v) : d;
}

/* a digest of everything that the task is made from */
static unsigned long long mix(unsigned long long h, char const* p, size_t n)
{
	for(size_t i = 0; i < n; ++i) h = (h ^ (unsigned char)p[i]) * 1099511628211ull;
	return h;
}

static unsigned long long mix_file(unsigned long long h, char const* path)
{
	struct stat st;
	if(!path || stat(path, &st) == -1) return mix(h, "?", 1);
	if(S_ISDIR(st.st_mode)) return mix(h, "d", 1);
	int fd = open(path, O_RDONLY | O_CLOEXEC);
	char b[4096];
	ssize_t n;
	while((n = read(fd, b, sizeof(b))) > 0) h = mix(h, b, (size_t)n);
	close(fd);
	return mix(h, "f", 1);
}

static int by_text(void const* a, void const* b)
{
	return strcmp(*(char* const*)a, *(char* const*)b);
}

static unsigned long long digest(json_t* arg)
{
	unsigned long long h = 14695981039346656037ull;
	char* t = json_dumps(json_object_get(arg, "compiler_cfg"), JSON_SORT_KEYS | JSON_COMPACT);
	h = mix(h, t, strlen(t));
	h = mix_file(h, json_string_value(json_object_get(arg, "source_file")));
	json_t* deps = json_object_get(arg, "dependencies");
	size_t n = json_array_size(deps), i, k = 0;
	char** names = malloc((n + 1) * sizeof(char*));
	json_t* d;
	json_array_foreach(deps, i, d)
	{
		char const* o = json_string_value(json_object_get(d, "origin"));
		if(o && (strcmp(o, "generated") == 0 || strcmp(o, "project") == 0)) names[k++] = (char*)json_string_value(json_object_get(d, "ref"));
	}
	qsort(names, k, sizeof(char*), by_text);
	for(i = 0; i < k; ++i) { h = mix(h, names[i], strlen(names[i])); h = mix_file(h, names[i]); }
	free(names);
	return h;
}

int main(int argc, char** argv)
{
	json_t* ev = json_object();
	json_t* av = json_array();
	for(int i = 0; i < argc; ++i)
	{
		json_t* s = json_string(argv[i]);
		json_array_append_new(av, s ? s : json_string("<non-utf8>"));
	}
	json_object_set_new(ev, "argv", av);
	/* started as interpreter of an executable source file: skip the name of the script */
	if(argc == 4) { ++argv; --argc; }

	json_t* arg = argc > 2 ? json_loads(argv[2], JSON_REJECT_DUPLICATES, NULL) : NULL;
	char const* action = argc > 1 ? argv[1] : "";
	char const* src = json_string_value(json_object_get(arg, "source_file"));
	json_t* beh_all = NULL;
	if(getenv("VP_BEH")) beh_all = json_load_file(getenv("VP_BEH"), 0, NULL);
	json_t* beh = NULL;
	if(beh_all)
	{
		char key[4096];
		snprintf(key, sizeof(key), "%s:%s", action, src ? src : "");
		beh = json_object_get(beh_all, key);
		if(!beh && src) beh = json_object_get(beh_all, src);
		if(!beh) { snprintf(key, sizeof(key), "%s:*", action); beh = json_object_get(beh_all, key); }
		if(!beh) beh = json_object_get(beh_all, "*");
	}
	/* state of the inputs as this recipe sees them on start */
	if(arg && strcmp(action, "compile") == 0)
	{
		json_t* seen = json_object();
		size_t i;
		json_t* d;
		json_array_foreach(json_object_get(arg, "dependencies"), i, d)
		{
			char const* ref = json_string_value(json_object_get(d, "ref"));
			char const* o = json_string_value(json_object_get(d, "origin"));
			struct stat st;
			if(ref && o && (strcmp(o, "generated") == 0 || strcmp(o, "project") == 0))
				json_object_set_new(seen, ref, stat(ref, &st) == 0 ? json_integer((long long)st.st_mtim.tv_sec * 1000000000LL + st.st_mtim.tv_nsec) : json_null());
		}
		json_object_set_new(ev, "seen", seen);
	}
	chunk = (size_t)geti(beh, "chunk", 0);
	if(geti(beh, "fds", 0))
	{
		json_t* fds = json_array();
		for(int i = 0; i < 256; ++i) if(fcntl(i, F_GETFD) != -1) json_array_append_new(fds, json_integer(i));
		json_object_set_new(ev, "fds", fds);
	}
	emit('S', ev);

	if(geti(beh, "read_stdin", 0))
	{
		char b[512];
		while(read(0, b, sizeof(b)) > 0);
	}
	if(json_is_string(json_object_get(beh, "gate")))
	{
		/* wait until somebody opens the gate */
		char g[4200];
		snprintf(g, sizeof(g), "%s/%d", json_string_value(json_object_get(beh, "gate")), (int)getpid());
		for(int k = 0; k < 150000 && access(g, F_OK) == -1; ++k) usleep(2000);
	}
	if(geti(beh, "delay_us", 0)) usleep(geti(beh, "delay_us", 0));
	{
		json_t* v = json_object_get(beh, "stdout");
		if(json_is_string(v)) put(1, json_string_value(v), json_string_length(v));
		v = json_object_get(beh, "stderr");
		if(json_is_string(v)) put(2, json_string_value(v), json_string_length(v));
		if(geti(beh, "out_n", 0)) pattern(1, geti(beh, "out_n", 0), (unsigned)geti(beh, "seed", 1));
		if(geti(beh, "err_n", 0)) pattern(2, geti(beh, "err_n", 0), (unsigned)geti(beh, "seed", 1) + 7);
	}
	if(strcmp(action, "get_tags") == 0 && json_object_get(beh, "tags"))
	{
		char* t = json_dumps(json_object_get(beh, "tags"), (size_t)geti(beh, "indent", 0));
		put(1, t, strlen(t));
	}
	if(strcmp(action, "configure") == 0 && json_object_get(beh, "configure"))
	{
		char* t = json_dumps(json_object_get(beh, "configure"), (size_t)geti(beh, "indent", 0));
		put(1, t, strlen(t));
	}
	int rc = (int)geti(beh, "exit", 0);
	int sig = (int)geti(beh, "signal", 0);
	if(arg && strcmp(action, "compile") == 0 && !geti(beh, "no_write", 0) && (rc == 0 || geti(beh, "partial", 0)) && (sig == 0 || geti(beh, "partial", 0)))
	{
		size_t i;
		json_t* t;
		json_array_foreach(json_object_get(arg, "targets"), i, t)
		{
			char const* p = json_string_value(t);
			struct stat st;
			if(!p) continue;
			if(src && stat(src, &st) == 0 && S_ISDIR(st.st_mode))
			{
				char tmp[4096];
				snprintf(tmp, sizeof(tmp), "%s", p);
				size_t l = strlen(tmp);
				if(l > 2 && strcmp(tmp + l - 2, "/.") == 0) tmp[l - 2] = 0;
				if(mkdir(tmp, 0777) == -1 && errno != EEXIST) { fprintf(stderr, "vprecipe: mkdir %s: %s\n", tmp, strerror(errno)); rc = 97; }
			}
			else
			{
				char tmp[4400];
				int const atomic = (int)geti(beh, "atomic", geti(json_object_get(beh_all, "all"), "atomic", 0));
				snprintf(tmp, sizeof(tmp), "%s.vptmp.%d", p, (int)getpid());
				int fd = open(atomic ? tmp : p, O_WRONLY | O_CREAT | O_TRUNC, 0666);
				if(fd == -1) { fprintf(stderr, "vprecipe: open %s: %s\n", p, strerror(errno)); rc = 98; }
				else
				{
					if(atomic) dprintf(fd, "%s %llx\n", p, digest(arg));
					else dprintf(fd, "%d %lld\n", (int)getpid(), now());
					if(geti(beh, "mid_us", 0)) usleep(geti(beh, "mid_us", 0));
					struct timespec ts[2];
					clock_gettime(CLOCK_REALTIME, &ts[1]);
					ts[0] = ts[1];
					if(!geti(beh, "coarse", 0)) futimens(fd, ts);
					close(fd);
					if(atomic && rename(tmp, p) == -1) { fprintf(stderr, "vprecipe: rename %s: %s\n", p, strerror(errno)); rc = 96; }
				}
			}
		}
	}
	json_t* fin = json_object();
	json_object_set_new(fin, "rc", json_integer(rc));
	json_object_set_new(fin, "signal", json_integer(sig));
	emit('E', fin);
	if(sig) { signal(sig, SIG_DFL); kill(getpid(), sig); usleep(1000000); }
	fflush(NULL);
	_exit(rc);
}
