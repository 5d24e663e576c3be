/* Stand-in for jasonKercher/libcsv (not installable here).  Only what fql uses.
 * Written from fql's call sites: it is part of the environment of the code under
 * test, never the code under test itself. */
#ifndef VERIF_CSV_H
#define VERIF_CSV_H
#include <stdio.h>
#include <stddef.h>
#include <stdbool.h>
#include <sys/types.h>
#include <stdint.h>
#include <limits.h>
#include <libgen.h>
#include <unistd.h>
#ifdef __cplusplus
extern "C" {
#endif

#define CSV_GOOD 0
#define CSV_FAIL -2

enum { QUOTE_ALL, QUOTE_RFC4180, QUOTE_WEAK, QUOTE_NONE };

struct csv_field {
	const char* data;
	int len;
};

struct csv_record {
	struct csv_field* fields;
	int size;
	char* rec;
	size_t reclen;
	/* private */
	int cap;
	char** bufs;
	int nbufs;
	int capbufs;
	char* line;
};

struct csv_reader {
	int quotes;
	int trim;
	size_t offset;
	/* private */
	char delim[33];
	bool delim_set;
	bool delim_known;
	bool is_mmap;
	bool is_open;
	char* data;
	size_t size;
	FILE* file;
};

struct csv_writer {
	int quotes;
	/* private */
	FILE* file;
	char delim[33];
	char term[33];
	char* filename;
	char* tempname;
	bool detached;
	bool have_temp;
};
typedef struct csv_reader csv_reader;
typedef struct csv_record csv_record;
typedef struct csv_writer csv_writer;

struct csv_reader* csv_reader_new(void);
void csv_reader_free(struct csv_reader*);
int csv_reader_open(struct csv_reader*, const char*);
int csv_reader_open_mmap(struct csv_reader*, const char*);
int csv_reader_close(struct csv_reader*);
int csv_reader_reset(struct csv_reader*);
int csv_reader_seek(struct csv_reader*, size_t);
void csv_reader_set_delim(struct csv_reader*, const char*);
const char* csv_reader_get_delim(struct csv_reader*);
size_t csv_reader_get_file_size(struct csv_reader*);
int csv_get_record(struct csv_reader*, struct csv_record*);
int csv_get_record_to(struct csv_reader*, struct csv_record*, size_t);
int csv_nparse(struct csv_reader*, struct csv_record*, const char*, unsigned);
struct csv_record* csv_record_new(void);
void csv_record_free(struct csv_record*);

struct csv_writer* csv_writer_new(void);
void csv_writer_free(struct csv_writer*);
int csv_writer_open(struct csv_writer*, const char*);
int csv_writer_close(struct csv_writer*);
bool csv_writer_isopen(struct csv_writer*);
int csv_writer_mktmp(struct csv_writer*);
char* csv_writer_export_tmp(struct csv_writer*);
char* csv_writer_detach_filename(struct csv_writer*);
FILE* csv_writer_get_file(struct csv_writer*);
void csv_writer_set_file(struct csv_writer*, FILE*);
void csv_writer_set_delim(struct csv_writer*, const char*);
void csv_writer_set_line_ending(struct csv_writer*, const char*);
struct csv_field csv_writer_get_delim_field(struct csv_writer*);
struct csv_field csv_writer_get_terminator_field(struct csv_writer*);
int csv_write_field(struct csv_writer*, const struct csv_field*);

void csv_perror(void);
#ifdef __cplusplus
}
#endif
#endif
