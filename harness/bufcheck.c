/* C30: random and enumerated operations on the byte queue, compared with a plain reference.
 * usage: bufcheck SEED SECONDS [exhaust] */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>

#include "buffer.h"
#include "log.h"

static uint64_t rng;
static uint64_t rnd(void)
{
	rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
	return rng * 0x2545F4914F6CDD1DULL;
}
static size_t below(size_t n) { return n ? (size_t)(rnd() % n) : 0; }

/* The reference: everything appended, and the position of the reader. */
typedef struct {
	buffer *buf;
	unsigned char *data;
	size_t start, end, cap;
} queue;

static unsigned long n_ops, n_hist, n_lines, n_chunks, n_none, n_cross, n_whole, n_over, n_bytes;
static char trace[65536];
static size_t tlen;
static unsigned char seen[1 << 21];	/* (operation, read offset within a block, bytes queued) met */

static void meet(unsigned what, size_t start, size_t size)
{
	uint64_t h = ((uint64_t)what * 128 + start % 128) * 2048 + (size < 2047 ? size : 2047);

	h = (h * 0x9E3779B97F4A7C15ULL) >> 40;
	seen[h >> 3] |= (unsigned char)(1u << (h & 7));
}

static void note(const char *what, size_t a, long b)
{
	int n;

	if (tlen > sizeof(trace) - 200) {	/* Keep the latest part. */
		memmove(trace, trace + sizeof(trace) / 2, tlen - sizeof(trace) / 2);
		tlen -= sizeof(trace) / 2;
	}
	n = snprintf(trace + tlen, 100, " %s(%lu,%ld)", what, (unsigned long)a, b);
	tlen += (size_t)n;
}

static void fail(const char *what, queue *q, const void *got, size_t gsize)
{
	size_t i;

	printf("%s\nhistory of the queue (operation(size,argument)):%s\n%lu bytes expected to be left; got %lu bytes:", what, trace,
	    (unsigned long)(q->end - q->start), (unsigned long)gsize);
	for (i = 0; got != NULL && i < gsize && i < 200; i++)
		printf(" %02x", ((const unsigned char *)got)[i]);
	printf("\nexpected:");
	for (i = 0; i < 200 && q->start + i < q->end; i++)
		printf(" %02x", q->data[q->start + i]);
	printf("\n");
	fflush(stdout);
	_Exit(77);
}

static void q_new(queue *q)
{
	memset(q, 0, sizeof(*q));
	q->cap = 4096;
	if ((q->data = malloc(q->cap)) == NULL)
		abort();
	q->buf = buffer_new();
	note("new", 0, 0);
}

static void check_size(queue *q, const char *what)
{
	if (buffer_size(q->buf) != q->end - q->start)
		fail(what, q, NULL, buffer_size(q->buf));
}

static const size_t edges[] = { 0, 1, 2, 3, 126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 383, 384, 385, 511, 512, 513, 1000, 1023, 1024, 1025 };
#define N_EDGES (sizeof(edges) / sizeof(edges[0]))

static size_t some_size(int big)
{
	switch (below(6)) {
	case 0: return edges[below(N_EDGES)];
	case 1: return below(4);
	case 2: return below(40);
	case 3: return 100 + below(60);
	case 4: return below(300);
	default: return big ? below(6000) : below(700);
	}
}

/* kind 0: few terminators; 1: many; 2: any byte; 3: a counter. */
static void fill(unsigned char *p, size_t n, int kind)
{
	static const unsigned char many[] = "\n\n\r\r\na\0b\xff;\x80", few[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789\r;\0\xff";
	static uint32_t count;
	size_t i;

	for (i = 0; i < n; i++)
		switch (kind) {
		case 0: p[i] = below(90) == 0 ? '\n' : few[below(sizeof(few) - 1)]; break;
		case 1: p[i] = many[below(sizeof(many) - 1)]; break;
		case 2: p[i] = (unsigned char)rnd(); break;
		default: p[i] = (unsigned char)(count * 2654435761u >> 13); count++; break;
		}
}

static void q_append(queue *q, size_t n, int kind)
{
	unsigned char *in;

	if (q->end + n > q->cap) {
		size_t left = q->end - q->start;

		memmove(q->data, q->data + q->start, left);
		q->start = 0;
		q->end = left;
		if (q->end + n > q->cap) {
			q->cap = (q->end + n) * 2 + 4096;
			if ((q->data = realloc(q->data, q->cap)) == NULL)
				abort();
		}
	}
	/* An exact allocation, so that reading too much of it is noticed; changed and freed at once. */
	if ((in = malloc(n ? n : 1)) == NULL)
		abort();
	fill(in, n, kind);
	memcpy(q->data + q->end, in, n);
	note("append", n, kind);
	buffer_append(q->buf, in, n);
	memset(in, 0xEE, n);
	free(in);
	q->end += n;
	n_bytes += n;
	check_size(q, "the size reported after appending is wrong");
}

static void took(queue *q, const void *got, size_t gsize, const char *what)
{
	if (gsize > q->end - q->start || (gsize && memcmp(got, q->data + q->start, gsize) != 0))
		fail(what, q, got, gsize);
	q->start += gsize;
	if (gsize > 128)
		n_cross++;
}

static void q_read(queue *q, size_t n)
{
	size_t avail = q->end - q->start, want = n < avail ? n : avail, got;
	unsigned char *out = malloc(n ? n : 1);

	note("read", n, 0);
	got = buffer_read(q->buf, out, n);
	if (got != want)
		fail("reading returned another number of bytes than asked for and available", q, out, got < n ? got : n);
	if (n > avail)
		n_over++;
	took(q, out, got, "the bytes read are not those appended");
	free(out);
	check_size(q, "the size reported after reading is wrong");
}

static void q_read_alloc(queue *q, size_t n)
{
	size_t avail = q->end - q->start, want = n < avail ? n : avail, got = n;
	unsigned char *out;

	note("read_alloc", n, 0);
	out = buffer_read_alloc(q->buf, &got);
	if (out == NULL)
		fail("reading into new memory returned nothing", q, NULL, 0);
	if (got != want)
		fail("reading into new memory reported another number of bytes than asked for and available", q, out, got < n ? got : n);
	if (n > avail)
		n_over++;
	took(q, out, got, "the bytes read into new memory are not those appended");
	if (got)		/* It's ours. */
		memset(out, 0xDD, got);
	free(out);
	check_size(q, "the size reported after reading into new memory is wrong");
}

static void q_slurp(queue *q)
{
	size_t got = below(2) ? 0 : 12345;
	unsigned char *out;

	note("slurp", 0, 0);
	out = buffer_slurp(q->buf, &got);
	if (got != q->end - q->start)
		fail("reading everything reported another size", q, out, 0);
	if (got && out == NULL)
		fail("reading everything returned nothing", q, NULL, 0);
	took(q, out, got, "the bytes read are not everything appended");
	if (got)
		memset(out, 0xDD, got);
	free(out);
	n_whole++;
	check_size(q, "the size reported after reading everything is wrong");
}

static void q_record(queue *q, int is_line, char term)
{
	unsigned char *p = q->start < q->end ? memchr(q->data + q->start, (unsigned char)(is_line ? '\n' : term), q->end - q->start) : NULL;
	char *got;
	size_t len, cut;

	note(is_line ? "read_line" : "read_chunk", 0, is_line ? 0 : (unsigned char)term);
	got = is_line ? buffer_read_line(q->buf) : buffer_read_chunk(q->buf, term);
	if (p == NULL) {
		if (got != NULL)
			fail(is_line ? "a line was returned without its end" : "a chunk was returned without its terminator", q, got, 1);
		n_none++;
		check_size(q, "the size changed although nothing was returned");
		return;
	}
	if (got == NULL)
		fail(is_line ? "a complete line was not returned" : "a complete chunk was not returned", q, NULL, 0);
	len = (size_t)(p - (q->data + q->start));
	cut = len;
	if (is_line && len > 0 && p[-1] == '\r')
		cut--;
	if (memcmp(got, q->data + q->start, cut) != 0)
		fail(is_line ? "a line is not what was appended" : "a chunk is not what was appended", q, got, cut);
	if (got[cut] != '\0')
		fail(is_line ? "the end of a line was not removed" : "the terminator of a chunk was not removed", q, got, cut + 1);
	q->start += len + 1;
	if (len + 1 > 128)
		n_cross++;
	memset(got, 0xDD, cut + 1);
	free(got);
	if (is_line)
		n_lines++;
	else
		n_chunks++;
	check_size(q, is_line ? "the size reported after reading a line is wrong" : "the size reported after reading a chunk is wrong");
}

static void q_free(queue *q)
{
	note("free", q->end - q->start, 0);
	buffer_free(q->buf);
	free(q->data);
	memset(q, 0, sizeof(*q));
}

static void op(queue *q, int kind, int style)
{
	static const char terms[] = "\n\r;\0\x80\xff" "a ";
	size_t avail = q->end - q->start;

	unsigned what;

	n_ops++;
	meet(what = (unsigned)below(style == 0 ? 12 : 16), q->start, avail);
	switch (what) {
	case 0: case 1: case 2: case 3:
		if (avail > 60000)
			q_slurp(q);
		else
			q_append(q, some_size(style == 2), kind);
		break;
	case 4: q_read(q, below(3) ? some_size(0) : below(3) ? avail : avail + below(3)); break;
	case 5: q_read_alloc(q, below(3) ? some_size(0) : below(3) ? avail : avail + below(3)); break;
	case 6: case 7: q_record(q, 1, 0); break;
	case 8: case 9: q_record(q, 0, terms[below(sizeof(terms) - 1)]); break;
	case 10: if (avail) q_read(q, below(avail) + 1); break;
	case 11: if (below(4) == 0) q_slurp(q); break;
	case 12:	/* Leave the reader right at, before or after a block boundary. */
		if (avail > 128) q_read(q, avail - (127 + below(3)));
		break;
	case 13: if (avail > 1) q_read(q, avail - 1); break;
	case 14:	/* Fill up to a boundary. */
		q_append(q, 128 - (q->end - q->start) % 128 + below(3) - 1, kind);
		break;
	default: while (q->end > q->start && below(30)) q_record(q, 1, 0); break;
	}
}

/* Every sequence of up to four appends and reads with boundary sizes. */
static void exhaust(void)
{
	static const size_t s[] = { 0, 1, 127, 128, 129, 255, 256, 257 };
	size_t a, b, c, d;
	int last;

	for (a = 0; a < 8; a++) for (b = 0; b < 8; b++) for (c = 0; c < 8; c++) for (d = 0; d < 8; d++)
		for (last = 0; last < 5; last++) {
			queue q;

			tlen = 0; trace[0] = '\0';
			q_new(&q);
			q_append(&q, s[a], 3);
			if (last & 1) q_read(&q, s[b]); else q_read_alloc(&q, s[b]);
			q_append(&q, s[c], 1);
			switch (last) {
			case 0: q_read(&q, s[d]); break;
			case 1: q_read_alloc(&q, s[d]); break;
			case 2: q_record(&q, 1, 0); q_append(&q, s[d], 1); q_record(&q, 1, 0); break;
			case 3: q_record(&q, 0, (char)0xff); q_append(&q, s[d], 1); q_record(&q, 0, (char)0xff); break;
			default: q_append(&q, s[d], 3); break;
			}
			q_slurp(&q);
			q_append(&q, s[b], 1);
			q_record(&q, 1, 0);
			q_slurp(&q);
			q_slurp(&q);
			q_free(&q);
			n_hist++;
			n_ops += 9;
		}
	/* A record ending at each position around the first blocks, read from each offset. */
	for (a = 0; a < 400; a++)
		for (b = 0; b < 3; b++) {
			queue q;
			size_t i;

			tlen = 0; trace[0] = '\0';
			q_new(&q);
			for (i = 0; i < 3; i++)
				q_append(&q, 133, 3);
			for (i = 0; i < q.end; i++)
				q.data[i] = 'x';
			q.data[a < q.end ? a : q.end - 1] = '\n';
			if (a > 0 && b == 1)
				q.data[a - 1] = '\r';
			/* Fill it again with that. */
			i = q.end;
			buffer_free(q.buf);
			q.buf = buffer_new();
			note("refill: end of line at", a, (long)b);
			buffer_append(q.buf, q.data, i);
			if (b == 2)
				q_read(&q, below(a + 1));
			q_record(&q, 1, 0);
			q_record(&q, 1, 0);
			q_slurp(&q);
			q_free(&q);
			n_hist++;
			n_ops += 5;
		}
}

int main(int argc, char **argv)
{
	double secs = atof(argv[2]);
	struct timespec t0, t;
	queue q[4];
	int i, n, style, kind;
	unsigned long states = 0;

	rng = strtoull(argv[1], NULL, 10) * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL;
	for (i = 0; i < 20; i++)
		rnd();
	if (argc > 3)
		exhaust();
	clock_gettime(CLOCK_MONOTONIC, &t0);
	do {
		tlen = 0; trace[0] = '\0';
		style = (int)below(3);
		kind = (int)below(4);
		for (i = 0; i < 4; i++)
			memset(&q[i], 0, sizeof(q[i]));
		n = 1 + (int)below(3) / 2 * 3;
		for (i = 0; i < n; i++)
			q_new(&q[i]);
		for (i = 5 + (int)below(200); i > 0; i--)
			op(&q[below((size_t)n)], kind, style);
		for (i = 0; i < n; i++) {
			if (below(3))
				q_slurp(&q[i]);
			q_free(&q[i]);
		}
		n_hist++;
		clock_gettime(CLOCK_MONOTONIC, &t);
	} while ((double)(t.tv_sec - t0.tv_sec) + (double)(t.tv_nsec - t0.tv_nsec) * 1e-9 < secs);
	for (i = 0; i < (int)sizeof(seen); i++)
		states += (unsigned long)__builtin_popcount(seen[i]);
	printf("histories=%lu operations=%lu bytes=%lu lines=%lu chunks=%lu incomplete=%lu slurps=%lu across=%lu short=%lu states=%lu\n",
	    n_hist, n_ops, n_bytes, n_lines, n_chunks, n_none, n_whole, n_cross, n_over, states);
	return 0;
}
