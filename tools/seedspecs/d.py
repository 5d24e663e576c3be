UTIL = r'''
here=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
gcc -std=gnu11 -g -O1 -w -fsanitize=address -pthread -I. -Iutil "$here/demo.c" util/*.c -o "$W/demo" || exit 99
ASAN_OPTIONS=detect_leaks=0 timeout 60 "$W/demo" || { echo "FAIL $?"; exit 1; }
echo ok
'''
H = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <unistd.h>\n#include <pthread.h>\n'


def c(id, prop, edits, src, needs, breaks):
    return dict(id=id, prop=prop, edits=edits, c_demo=True, demo=UTIL, files={"demo.c": H + src}, needs=needs, breaks=breaks)


S = [
 c("U01-clearptr", "U01",
   [("util/hashmap.c", "void compositemap_clear(compositemap* restrict self)\n{\n\tvec_clear(self->_keys);\n\tvec_clear(self->values);\n\tself->_keybuf_head = 0;\n\tmemset(self->_entries, -1, sizeof(struct hm_entry) * self->_limit);",
     "void compositemap_clear(compositemap* restrict self)\n{\n\tvec_clear(self->_keys);\n\tvec_clear(self->values);\n\tself->_keybuf_head = 0;\n\tmemset(self->_entries, -1, sizeof(self->_entries) * self->_limit);")],
   r'''#include "util/hashmap.h"
#include "util/stringview.h"
#include "util/util.h"
int main(void)
{
	compositemap m = {0};
	compositemap_construct(&m, sizeof(int), 64, 0);
	int i, r;
	for (r = 0; r < 2; ++r) {
		for (i = 0; i < 20; ++i) {
			char a[8];
			sprintf(a, "k%d", i);
			vec key;
			vec_construct(&key, sizeof(stringview));
			stringview x = {a, strlen(a)}, y = {"z", 1};
			vec_push_back(&key, &x);
			vec_push_back(&key, &y);
			if (compositemap_get(&m, &key)) return 1;
			compositemap_set(&m, &key, &i);
			int* v = compositemap_get(&m, &key);
			if (!v || *v != i) return 2;
			vec_destroy(&key);
		}
		compositemap_clear(&m);
	}
	return 0;
}
''', "a composite map used again after it was cleared", "keys in the upper part of the table survive a clear and are found with values that are gone"),
 c("U02-popshared", "U02",
   [("util/flex.c", "if (pair->idx + pair->len == self->_raw.size) {", "if (pair->idx + pair->len <= self->_raw.size) {")],
   r'''#include "util/flex.h"
#include "util/util.h"
int main(void)
{
	flex f;
	flex_construct(&f);
	flex_push_back(&f, "xyz", 3);
	flex_insert(&f, 0, "ABCD", 4);
	flex_pop_back(&f);
	flex_push_back(&f, "qqqqqqqq", 8);
	stringview a = flex_pair_at(&f, 0), b = flex_pair_at(&f, 1);
	return a.len != 4 || memcmp(a.data, "ABCD", 4) || b.len != 8 || memcmp(b.data, "qqqqqqqq", 8);
}
''', "an element inserted in front, the last one popped, another pushed", "the bytes of elements that were stored after the popped one are overwritten"),
 c("U03-stalereplace", "U03",
   [("util/stringy.c", "\tvec_erase(s, pos, oldlen);\n\tvec_insert(s, pos, newstr, newlen);\n\n\treturn vec_at(s, pos_idx + newlen);\n}\n\n\nvoid string_find_replace_limited(",
     "\tvec_erase(s, pos, oldlen);\n\tvec_insert(s, pos, newstr, newlen);\n\n\treturn vec_at(s, pos_idx + oldlen);\n}\n\n\nvoid string_find_replace_limited(")],
   r'''#include "util/stringy.h"
#include "util/util.h"
int main(void)
{
	string s, t;
	string_construct_from_char_ptr(&s, "a-b-c");
	string_find_replace(&s, "-", "+++");
	if (strcmp(string_c_str(&s), "a+++b+++c")) return 1;
	string_construct_from_char_ptr(&t, "xabab");
	alarm(5);
	string_find_replace(&t, "ab", "a");
	if (strcmp(string_c_str(&t), "xaa")) return 2;
	string_construct_from_char_ptr(&t, "oo");
	string_find_replace_one(&t, "o", "--", 0);
	const char* e = string_find_replace_one(&t, "o", "o=o", 0);
	if (strcmp(e, "")) return 3;
	string_construct_from_char_ptr(&t, "abbc");
	string_find_replace(&t, "ab", "a");
	return strcmp(string_c_str(&t), "abc") ? 4 : 0;
}
''', "a replacement of another length whose text contains or completes the searched text", "the search goes on at the wrong place after a replacement: text is replaced twice or left"),
 c("U04-remout", "U04",
   [("util/dgraph.c", "\t\tif ((*it)->out[1] == *node) {\n\t\t\t(*it)->out[1] = NULL;\n\t\t}", "\t\telse if ((*it)->out[1] == *node) {\n\t\t\t(*it)->out[1] = NULL;\n\t\t}")],
   r'''#include "util/dgraph.h"
#include "util/vec.h"
#include "util/util.h"
int main(void)
{
	dgraph* g = new_(dgraph);
	dnode* a = dgraph_add_data(g, (void*)1);
	dnode* b = dgraph_add_data(g, (void*)2);
	dnode* d = dgraph_add_data(g, (void*)3);
	a->out[0] = b;
	a->out[1] = b;
	b->out[0] = d;
	dgraph_remove(g, vec_at(g->nodes, 1));
	if (a->out[0] || a->out[1]) return 1;
	return g->nodes->size != 2;
}
''', "removal of a node to which both edges of another node lead", "an edge to the freed node stays"),
 c("U05-closeone", "U05",
   [("util/fifo.c", "\tpthread_cond_broadcast(&self->cond_get);\n\tpthread_cond_broadcast(&self->cond_add);", "\tpthread_cond_signal(&self->cond_get);\n\tpthread_cond_broadcast(&self->cond_add);")],
   r'''#include "util/fifo.h"
#include "util/util.h"
fifo f;
static void* w(void* p) { fifo_wait_for_get(&f); return NULL; }
int main(void)
{
	pthread_t t[3];
	long x = 1;
	int i;
	fifo_construct(&f, sizeof(long), 2);
	f.input_count = 1;
	fifo_add(&f, &x);
	for (i = 0; i < 3; ++i) pthread_create(&t[i], NULL, w, NULL);
	usleep(300000);
	alarm(8);
	fifo_set_open(&f, 0);
	for (i = 0; i < 3; ++i) pthread_join(t[i], NULL);
	return 0;
}
''', "several producers waiting for room in a fifo that is closed", "closing wakes one of them, the others wait for ever"),
 c("U05-lookwrap", "U05",
   [("util/fifo.c", "\tunsigned look_ahead_idx = self->tail;\n\t_idx_adv_(look_ahead_idx);\n", "\tunsigned look_ahead_idx = self->tail + 1;\n\tif (look_ahead_idx > self->buf->size) {\n\t\tlook_ahead_idx = 0;\n\t}\n")],
   r'''#include "util/fifo.h"
#include "util/util.h"
int main(void)
{
	fifo f;
	long i;
	fifo_construct(&f, sizeof(long), 4);
	f.input_count = 1;
	for (i = 0; i < 40; ++i) {
		fifo_add(&f, &i);
		if (i >= 1) {
			long* p = fifo_look_ahead(&f);
			if (!p || *p != i) return 1;
			fifo_get(&f);
		}
	}
	return 0;
}
''', "looking ahead while the first element is in the last slot", "the element after the end of the buffer is seen instead of the first"),
 dict(id="S18-hasstepped", prop="S18",
  edits=[("lib/libfql.c", "_step_fail_break:\n\n\tplan->has_stepped = false;\n\n", "_step_fail_break:\n\n\tif (ret == FQL_FAIL) {\n\t\tplan->has_stepped = false;\n\t}\n\n")],
  demo=r'''
printf 'k,v\na,1\nb,2\nc,3\n' > t1.csv
R=$OLDPWD
gcc -std=gnu11 -w -I"$R/lib/include" -I"$R" -c "$here/demo.c" -o "$W/demo.o" || exit 99
rm -f "$W/b/o/fql.c.o"
g++ "$W/b/o"/*.o "$W/demo.o" -o "$W/demo" -lantlr4-runtime -lpcre2-8 -pthread || exit 99
got=$(timeout 20 "$W/demo" 2>/dev/null)
[ "$got" = "1 2 3 1 2 3 end" ] || { echo "FAIL stepped: $got"; bad=1; }''',
  files={"demo.c": r'''#include <stdio.h>
#include "fql.h"
int main(void)
{
	struct fqlhandle* f = fql_new();
	struct fql_field* x;
	int i, n = 0, ret;
	if (fql_make_plans(f, "declare @i int; set @i = 0; while @i < 2 begin set @i = @i + 1; select v from t1 end") < 0) return 1;
	for (i = 0; i < 3; ++i) {
		if (fql_exec_until_select(f) < 0) return 2;
		while ((ret = fql_step(f, &x)) == 1 && ++n < 50) printf("%s ", x[0].data.s);
		if (ret < 0) return 3;
	}
	printf("end");
	fql_free(f);
	return 0;
}
'''},
  needs="a SELECT in a loop that is stepped through twice",
  breaks="the second pass over the SELECT is not prepared: it gives no records"),
 dict(id="S20-twice", prop="S20",
  edits=[("lib/query.c", "\t\t\tself->fqlref->props.allow_stdin = false; /* Only one allowed... */\n", "")],
  demo=r'''
printf 'k,v\na,1\nb,2\n' > in.csv
expect "one" "$(printf 'v\n1\n2')" -c "select v from __stdin" < in.csv
timeout 20 "$W/b/fql" -c "select count(*) from __stdin union all select count(*) from __stdin" < in.csv >/dev/null 2>&1 && { echo "FAIL: standard input read twice"; bad=1; }
timeout 20 "$W/b/fql" -c "select count(*) from __stdin; select count(*) from __stdin" < in.csv >/dev/null 2>&1 && { echo "FAIL: standard input read twice in a row"; bad=1; }
true''',
  needs="__stdin named twice in one program",
  breaks="the second reader of standard input gets what the first left of it"),
]
