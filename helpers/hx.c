// The program that commands under test run: every argument is an operation, done in order.
//   o:TEXT  write TEXT to standard output         e:TEXT  to standard error
//   n:N:C   write N times C to standard output    N:N:C   to standard error
//   i       read standard input to its end, then write it all to standard output
//   p:TEXT  as i, after writing TEXT in front     I       read it to its end, and drop it
//   c       copy standard input to standard output as it comes
//   h       read it to its end, and write its length and a checksum
//   r:N     copy N bytes of it (less if it ends)
//   x:N     exit with status N                    k:N     end by signal N
//   a       write the arguments that are left, with their lengths, and exit
//   v:NAME  write an environment variable         d       write the working directory
//   0       write argv[0]                         w:MS    wait that long
//   t:NAME  create a file                         g:NAME  wait until a file exists
// It ends with status 0 after the last operation, and 99 when waiting took too long.
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static void put(int fd, const char *p, size_t n) {
	while (n > 0) {
		ssize_t w = write(fd, p, n);
		if (w < 0) {
			if (errno == EINTR) continue;
			_exit(98);
		}
		p += w;
		n -= (size_t) w;
	}
}

static char *all(const char *prefix, size_t *len) {
	size_t n = strlen(prefix), cap = 1 << 16;
	char *b = malloc(cap + n);
	memcpy(b, prefix, n);
	cap += n;
	for (;;) {
		if (n == cap) b = realloc(b, cap *= 2);
		ssize_t r = read(0, b + n, cap - n);
		if (r < 0 && errno == EINTR) continue;
		if (r < 0) _exit(97);
		if (r == 0) break;
		n += (size_t) r;
	}
	*len = n;
	return b;
}

static void fill(int fd, const char *s) {
	size_t n = strtoul(s, (char **) &s, 10);
	char *b = malloc(n + 1);
	memset(b, s[1], n);
	put(fd, b, n);
	free(b);
}

int main(int argc, char **argv) {
	char *b, buf[4096];
	size_t n;
	for (int i = 1; i < argc; i++) {
		char op = argv[i][0];
		const char *s = argv[i][0] && argv[i][1] ? argv[i] + 2 : "";
		switch (op) {
		case 'o': put(1, s, strlen(s)); break;
		case 'e': put(2, s, strlen(s)); break;
		case 'n': fill(1, s); break;
		case 'N': fill(2, s); break;
		case 'i': b = all("", &n); put(1, b, n); free(b); break;
		case 'I': b = all("", &n); free(b); break;
		case 'p': b = all(s, &n); put(1, b, n); free(b); break;
		case 'c': for (;;) {
				ssize_t r = read(0, buf, sizeof buf);
				if (r < 0 && errno == EINTR) continue;
				if (r <= 0) break;
				put(1, buf, (size_t) r);
			}
			break;
		case 'h': {
				unsigned long sum = 0;
				b = all("", &n);
				for (size_t j = 0; j < n; j++) sum = (sum * 31 + (unsigned char) b[j]) % 32749;
				n = (size_t) sprintf(buf, "%zu:%lu\n", n, sum);
				put(1, buf, n);
				free(b);
			}
			break;
		case 'r': {
				size_t left = strtoul(s, 0, 10), at = 0;
				while (at < left) {
					ssize_t r = read(0, buf + at, left - at);
					if (r < 0 && errno == EINTR) continue;
					if (r < 0) _exit(97);
					if (r == 0) break;
					at += (size_t) r;
				}
				put(1, buf, at);
			}
			break;
		case 'x': _exit(atoi(s));
		case 'k': signal(atoi(s), SIG_DFL); kill(getpid(), atoi(s)); for (;;) pause();
		case 'a':
			b = malloc(1 << 20);
			n = 0;
			for (i++; i < argc; i++) {
				size_t len = strlen(argv[i]);
				n += (size_t) sprintf(b + n, "[%zu:", len);
				memcpy(b + n, argv[i], len);
				n += len;
				b[n++] = ']';
			}
			b[n++] = '\n';
			put(1, b, n);
			_exit(0);
		case 'v':
			b = malloc(1 << 20);
			n = (size_t) (getenv(s) ? sprintf(b, "%s=%s\n", s, getenv(s)) : sprintf(b, "%s\n", s));
			put(1, b, n);
			free(b);
			break;
		case 'd':
			if (getcwd(buf, sizeof buf - 1)) {
				strcat(buf, "\n");
				put(1, buf, strlen(buf));
			}
			break;
		case '0':
			b = malloc(strlen(argv[0]) + 2);
			n = (size_t) sprintf(b, "%s\n", argv[0]);
			put(1, b, n);
			free(b);
			break;
		case 'w': usleep((unsigned) atoi(s) * 1000); break;
		case 't': {
				int fd = open(s, O_CREAT | O_WRONLY, 0644);
				if (fd < 0) _exit(96);
				close(fd);
			}
			break;
		case 'g':
			for (int k = 0; access(s, F_OK) != 0; k++) {
				if (k > 5000) _exit(99);
				usleep(2000);
			}
			break;
		default: _exit(95);
		}
	}
	_exit(0);
}
