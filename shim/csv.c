/* Stand-in for jasonKercher/libcsv.  See csv.h. */
#define _GNU_SOURCE 1
#include "csv.h"
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static char _err[256] = "";
void csv_perror(void) { fprintf(stderr, "%s\n", _err); }
static int _fail(const char* what)
{
	snprintf(_err, sizeof(_err), "%s: %s", what, strerror(errno));
	return CSV_FAIL;
}
static void* _xm(void* p)
{
	if (!p) { perror("malloc"); _exit(97); }
	return p;
}

/* ---------------------------------------------------------------- records */
struct csv_record* csv_record_new(void)
{
	return _xm(calloc(1, sizeof(struct csv_record)));
}
static void _rec_clear(struct csv_record* r)
{
	int i;
	for (i = 0; i < r->nbufs; ++i)
		free(r->bufs[i]);
	r->nbufs = 0;
	r->size = 0;
	r->rec = NULL;
	r->reclen = 0;
}
void csv_record_free(struct csv_record* r)
{
	if (!r) return;
	_rec_clear(r);
	free(r->fields);
	free(r->bufs);
	free(r->line);
	free(r);
}
static void _rec_push(struct csv_record* r, const char* data, int len)
{
	if (r->size == r->cap) {
		r->cap = r->cap ? r->cap * 2 : 8;
		r->fields = _xm(realloc(r->fields, r->cap * sizeof(*r->fields)));
	}
	r->fields[r->size].data = data;
	r->fields[r->size++].len = len;
}
static char* _rec_buf(struct csv_record* r, size_t n)
{
	if (r->nbufs == r->capbufs) {
		r->capbufs = r->capbufs ? r->capbufs * 2 : 4;
		r->bufs = _xm(realloc(r->bufs, r->capbufs * sizeof(char*)));
	}
	return r->bufs[r->nbufs++] = _xm(malloc(n ? n : 1));
}

/* ---------------------------------------------------------------- parsing */
/* Parse one record at p.  Returns bytes consumed, or -1 if a quoted field is
 * still open at the end of the data (only when !at_eof). */
static ssize_t _parse(struct csv_reader* self, struct csv_record* r, const char* p,
                      size_t n, size_t max_fields, bool at_eof)
{
	const char* d = self->delim;
	size_t dl = strlen(d);
	size_t i = 0;
	size_t reclen = 0;
	_rec_clear(r);
	for (;;) {
		size_t start = i;
		const char* fdata = p + start;
		size_t flen = 0;
		if (self->trim)
			while (i < n && p[i] == ' ') ++i;
		if (self->quotes != QUOTE_NONE && i < n && p[i] == '"') {
			bool weak = self->quotes == QUOTE_WEAK;
			size_t q = i + 1;
			bool closed = false;
			bool esc = false;
			while (q < n) {
				if (p[q] == '"') {
					if (!weak && q + 1 < n && p[q + 1] == '"') {
						esc = true;
						q += 2;
						continue;
					}
					if (!weak) { closed = true; break; }
					size_t a = q + 1;
					if (a >= n || p[a] == '\n'
					    || (p[a] == '\r' && a + 1 < n && p[a + 1] == '\n')
					    || (a + dl <= n && !memcmp(p + a, d, dl))) {
						closed = true;
						break;
					}
				}
				++q;
			}
			if (!closed && !at_eof)
				return -1;
			size_t e = closed ? q : n;
			fdata = p + i + 1;
			flen = e - (i + 1);
			i = closed ? q + 1 : n;
			/* anything between the closing quote and the delimiter */
			size_t tail = i;
			while (i < n && p[i] != '\n' && !(i + dl <= n && !memcmp(p + i, d, dl)))
				++i;
			size_t tl = i - tail;
			if (tl && i < n && p[i] == '\n' && p[i - 1] == '\r') --tl;
			if (self->trim)
				while (tl && p[tail + tl - 1] == ' ') --tl;
			if (esc || tl) {
				char* b = _rec_buf(r, flen + tl);
				size_t w = 0, k;
				for (k = 0; k < flen; ++k) {
					b[w++] = fdata[k];
					if (esc && fdata[k] == '"') ++k;
				}
				memcpy(b + w, p + tail, tl);
				fdata = b;
				flen = w + tl;
			}
		} else {
			start = i;
			while (i < n && p[i] != '\n' && !(i + dl <= n && !memcmp(p + i, d, dl)))
				++i;
			fdata = p + start;
			flen = i - start;
			if (flen && i < n && p[i] == '\n' && p[i - 1] == '\r') --flen;
			if (self->trim)
				while (flen && fdata[flen - 1] == ' ') --flen;
		}
		if ((size_t)r->size < max_fields)
			_rec_push(r, fdata, flen);
		if (i >= n) { reclen = n; break; }
		if (p[i] == '\n') {
			reclen = i;
			if (reclen && p[reclen - 1] == '\r') --reclen;
			++i;
			break;
		}
		i += dl;
	}
	r->rec = (char*)p;
	r->reclen = reclen;
	return i;
}

static void _detect(struct csv_reader* self, const char* p, size_t n)
{
	static const char cand[] = ",|\t;:";
	const char* e = memchr(p, '\n', n);
	size_t len = e ? (size_t)(e - p) : n, i;
	size_t best = 0;
	const char* c;
	self->delim[0] = ',';
	self->delim[1] = 0;
	for (c = cand; *c; ++c) {
		size_t cnt = 0;
		for (i = 0; i < len; ++i)
			cnt += p[i] == *c;
		if (cnt > best) {
			best = cnt;
			self->delim[0] = *c;
		}
	}
	self->delim_known = true;
}

/* ---------------------------------------------------------------- reader */
struct csv_reader* csv_reader_new(void)
{
	struct csv_reader* r = _xm(calloc(1, sizeof(*r)));
	r->quotes = QUOTE_RFC4180;
	r->file = stdin;
	strcpy(r->delim, ",");
	return r;
}
int csv_reader_close(struct csv_reader* r)
{
	free(r->data);
	r->data = NULL;
	r->size = 0;
	if (r->file && r->file != stdin) fclose(r->file);
	r->file = stdin;
	r->is_mmap = r->is_open = false;
	r->offset = 0;
	return CSV_GOOD;
}
void csv_reader_free(struct csv_reader* r)
{
	if (!r) return;
	csv_reader_close(r);
	free(r);
}
int csv_reader_open(struct csv_reader* r, const char* name)
{
	FILE* f = fopen(name, "r");
	if (!f) return _fail(name);
	r->file = f;
	r->is_open = true;
	r->is_mmap = false;
	r->offset = 0;
	return CSV_GOOD;
}
/* Not a real mapping: an exactly-sized heap copy, so that reading past the end of
 * the file is a sanitizer report instead of luck with page padding. */
int csv_reader_open_mmap(struct csv_reader* r, const char* name)
{
	struct stat sb;
	int fd = open(name, O_RDONLY);
	if (fd == -1) return _fail(name);
	if (fstat(fd, &sb) == -1 || S_ISDIR(sb.st_mode)) {
		if (S_ISDIR(sb.st_mode)) errno = EISDIR;
		close(fd);
		return _fail(name);
	}
	r->data = _xm(malloc(sb.st_size ? sb.st_size : 1));
	r->size = 0;
	while (r->size < (size_t)sb.st_size) {
		ssize_t g = read(fd, r->data + r->size, sb.st_size - r->size);
		if (g <= 0) break;
		r->size += g;
	}
	close(fd);
	r->is_mmap = r->is_open = true;
	r->offset = 0;
	return CSV_GOOD;
}
int csv_reader_reset(struct csv_reader* r)
{
	r->offset = 0;
	if (!r->is_mmap && r->file && r->file != stdin) rewind(r->file);
	return CSV_GOOD;
}
int csv_reader_seek(struct csv_reader* r, size_t off)
{
	if (r->is_mmap) {
		if (off > r->size) { errno = EINVAL; return _fail("seek"); }
	} else if (fseek(r->file, off, SEEK_SET)) {
		return _fail("seek");
	}
	r->offset = off;
	return CSV_GOOD;
}
void csv_reader_set_delim(struct csv_reader* r, const char* d)
{
	snprintf(r->delim, sizeof(r->delim), "%s", d);
	r->delim_set = true;
}
const char* csv_reader_get_delim(struct csv_reader* r) { return r->delim; }
size_t csv_reader_get_file_size(struct csv_reader* r) { return r->size; }

int csv_get_record_to(struct csv_reader* self, struct csv_record* rec, size_t max_fields)
{
	ssize_t used;
	if (self->is_mmap) {
		if (self->offset >= self->size) return EOF;
		const char* p = self->data + self->offset;
		size_t n = self->size - self->offset;
		if (!self->delim_set && !self->delim_known) _detect(self, p, n);
		used = _parse(self, rec, p, n, max_fields, true);
		self->offset += used;
		return CSV_GOOD;
	}
	/* stream: gather whole logical record */
	size_t cap = 0;
	char* chunk = NULL;
	size_t total = 0;
	_rec_clear(rec);
	free(rec->line);
	rec->line = NULL;
	for (;;) {
		ssize_t g = getline(&chunk, &cap, self->file);
		bool eof = g <= 0;
		if (eof && total == 0) {
			free(chunk);
			return EOF;
		}
		if (!eof) {
			rec->line = _xm(realloc(rec->line, total + g));
			memcpy(rec->line + total, chunk, g);
			total += g;
		}
		if (!self->delim_set && !self->delim_known) _detect(self, rec->line, total);
		used = _parse(self, rec, rec->line, total, max_fields, eof);
		if (used >= 0 || eof) break;
	}
	free(chunk);
	self->offset += total;
	return CSV_GOOD;
}
int csv_get_record(struct csv_reader* self, struct csv_record* rec)
{
	return csv_get_record_to(self, rec, SIZE_MAX);
}
int csv_nparse(struct csv_reader* self, struct csv_record* rec, const char* s, unsigned n)
{
	_parse(self, rec, s, n, SIZE_MAX, true);
	return CSV_GOOD;
}

/* ---------------------------------------------------------------- signals */
/* Temporary files do not survive a signal.  The handler is in place before fql installs
 * its own, which calls this one with -1 and ends the process itself. */
static char* _tmps[64];
static pthread_mutex_t _tmps_mx = PTHREAD_MUTEX_INITIALIZER;
static void _on_sig(int s)
{
	unsigned i;
	for (i = 0; i < 64; ++i)
		if (_tmps[i]) remove(_tmps[i]);
	if (s != -1) _exit(1);
}
__attribute__((constructor)) static void _sig_init(void)
{
	struct sigaction sa;
	memset(&sa, 0, sizeof(sa));
	sa.sa_handler = _on_sig;
	sigaction(SIGINT, &sa, NULL);
}
static void _tmp_add(char* t)
{
	unsigned i;
	pthread_mutex_lock(&_tmps_mx);
	for (i = 0; i < 64; ++i)
		if (!_tmps[i]) { _tmps[i] = t; break; }
	pthread_mutex_unlock(&_tmps_mx);
}
static void _tmp_del(char* t)
{
	unsigned i;
	pthread_mutex_lock(&_tmps_mx);
	for (i = 0; i < 64; ++i)
		if (_tmps[i] == t) _tmps[i] = NULL;
	pthread_mutex_unlock(&_tmps_mx);
}

/* ---------------------------------------------------------------- writer */
struct csv_writer* csv_writer_new(void)
{
	struct csv_writer* w = _xm(calloc(1, sizeof(*w)));
	w->quotes = QUOTE_RFC4180;
	w->file = stdout;
	strcpy(w->delim, ",");
	strcpy(w->term, "\n");
	return w;
}
static void _drop_temp(struct csv_writer* w)
{
	if (w->have_temp && !w->detached) remove(w->tempname);
	if (w->tempname) _tmp_del(w->tempname);
	w->have_temp = false;
}
void csv_writer_free(struct csv_writer* w)
{
	if (!w) return;
	if (w->file && w->file != stdout) fclose(w->file);
	else if (w->file) fflush(w->file);
	_drop_temp(w);
	free(w->filename);
	free(w->tempname);
	free(w);
}
bool csv_writer_isopen(struct csv_writer* w) { return w->file && w->file != stdout; }
int csv_writer_mktmp(struct csv_writer* w)
{
	char* cp = w->filename ? strdup(w->filename) : NULL;
	const char* dir = cp ? dirname(cp) : ".";
	if (w->tempname) _tmp_del(w->tempname);
	free(w->tempname);
	w->tempname = NULL;
	if (asprintf(&w->tempname, "%s/libcsv_XXXXXX", dir) == -1) return _fail("temp");
	free(cp);
	int fd = mkstemp(w->tempname);
	if (fd == -1) return _fail(w->tempname);
	_tmp_add(w->tempname);
	w->have_temp = true;
	w->detached = false;
	w->file = fdopen(fd, "w");
	if (!w->file) {
		int r = _fail(w->tempname);
		close(fd);
		w->file = stdout;
		_drop_temp(w);
		return r;
	}
	return CSV_GOOD;
}
int csv_writer_open(struct csv_writer* w, const char* name)
{
	if (csv_writer_isopen(w)) {
		snprintf(_err, sizeof(_err), "writer already open");
		return CSV_FAIL;
	}
	free(w->filename);
	w->filename = strdup(name);
	return csv_writer_mktmp(w);
}
int csv_writer_close(struct csv_writer* w)
{
	if (w->file == stdout || !w->file) {
		fflush(stdout);
		return CSV_GOOD;
	}
	int bad = fflush(w->file) || ferror(w->file);
	if (fclose(w->file)) bad = 1;
	w->file = stdout;
	if (bad) return _fail("fclose");
	if (w->detached) {
		w->detached = false;
		w->have_temp = false;
		return CSV_GOOD;
	}
	if (!w->filename) {
		_drop_temp(w);
		return CSV_GOOD;
	}
	if (rename(w->tempname, w->filename)) return _fail(w->filename);
	_tmp_del(w->tempname);
	w->have_temp = false;
	if (chmod(w->filename, 0666)) return _fail(w->filename);
	return CSV_GOOD;
}
char* csv_writer_export_tmp(struct csv_writer* w)
{
	w->detached = true;
	_tmp_del(w->tempname);      /* the caller's from here on */
	return strdup(w->tempname);
}
char* csv_writer_detach_filename(struct csv_writer* w)
{
	char* f = w->filename;
	w->filename = NULL;
	return f;
}
FILE* csv_writer_get_file(struct csv_writer* w) { return w->file; }
void csv_writer_set_file(struct csv_writer* w, FILE* f) { w->file = f; }
void csv_writer_set_delim(struct csv_writer* w, const char* d)
{
	snprintf(w->delim, sizeof(w->delim), "%s", d);
}
void csv_writer_set_line_ending(struct csv_writer* w, const char* t)
{
	snprintf(w->term, sizeof(w->term), "%s", t);
}
struct csv_field csv_writer_get_delim_field(struct csv_writer* w)
{
	return (struct csv_field) {w->delim, (int)strlen(w->delim)};
}
struct csv_field csv_writer_get_terminator_field(struct csv_writer* w)
{
	return (struct csv_field) {w->term, (int)strlen(w->term)};
}
int csv_write_field(struct csv_writer* w, const struct csv_field* f)
{
	bool q = false;
	size_t n = f->len;
	if (n == 0 && w->quotes != QUOTE_ALL) return 0;
	switch (w->quotes) {
	case QUOTE_ALL: q = true; break;
	case QUOTE_RFC4180:
		q = memchr(f->data, '"', n) || memchr(f->data, '\n', n)
		    || memchr(f->data, '\r', n);
		/* fallthrough */
	case QUOTE_WEAK:
		if (*w->delim && memmem(f->data, n, w->delim, strlen(w->delim))) q = true;
		break;
	default:;
	}
	if (!q) {
		fwrite(f->data, 1, n, w->file);
		return n;
	}
	int len = 2;
	size_t i;
	fputc('"', w->file);
	for (i = 0; i < n; ++i) {
		if (f->data[i] == '"' && w->quotes != QUOTE_WEAK) {
			fputc('"', w->file);
			++len;
		}
		fputc(f->data[i], w->file);
		++len;
	}
	fputc('"', w->file);
	return len;
}
