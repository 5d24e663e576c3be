/* Operations on the containers and text functions of util/, one per argument:
 * words separated by blanks, data in hexadecimal ("-" = no bytes).
 * Every operation answers with one line. */
#define _GNU_SOURCE 1
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "util/util.h"
#include "util/vec.h"
#include "util/hashmap.h"
#include "util/flex.h"
#include "util/stringy.h"
#include "util/stringview.h"
#include "util/node.h"
#include "util/dgraph.h"
#include "util/fifo.h"

static FILE* o;
static char* w[64];
static int nw;
static char* line;

static int hv(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
/* an exactly sized copy, so that reading past it is seen; z adds a terminator */
static char* unhex(const char* s, size_t* n, int z)
{
	size_t l = *s == '-' ? 0 : strlen(s) / 2, i;
	char* b = malloc(l + z ? l + z : 1);
	if (l + z == 0) { free(b); b = malloc(1); }
	for (i = 0; i < l; ++i) b[i] = hv(s[2 * i]) << 4 | hv(s[2 * i + 1]);
	if (z) b[l] = 0;
	if (n) *n = l;
	return b;
}
static void hex(const void* p, size_t n)
{
	const unsigned char* b = p;
	size_t i;
	if (!n) fputc('-', o);
	for (i = 0; i < n; ++i) fprintf(o, "%02x", b[i]);
}
#define A(i) ((i) < nw ? w[i] : "")
#define N(i) atol(A(i))
#define IS(s) (!strcmp(w[0], s))
static int sgn(int x) { return (x > 0) - (x < 0); }

/* ---- hash tables */
static hashmap H;
static char hkind;
static unsigned hesize;
static vec* comp_key(const char* s)
{
	vec* k = new_t_(vec, stringview);
	char* c = strdup(s);
	char* t = c;
	char* p;
	while (*c && (p = strsep(&t, ",")) != NULL) {
		size_t n;
		char* d = unhex(p, &n, 0);
		stringview sv = {d, n};
		vec_push_back(k, &sv);
	}
	free(c);
	return k;
}
static void comp_free(vec* k)
{
	stringview* it = vec_begin(k);
	for (; it != vec_end(k); ++it) free((char*)it->data);
	delete_(vec, k);
}
static int hash_op(void)
{
	size_t n;
	if (IS("h.new")) {
		hkind = *A(1);
		hesize = N(4);
		switch (hkind) {
		case 's': set_construct(&H, N(3), N(2)); break;
		case 'm': hashmap_construct(&H, hesize, N(3), N(2)); break;
		case 'u': multimap_construct(&H, hesize, N(3), N(2)); break;
		default: compositemap_construct(&H, hesize, N(3), N(2));
		}
		return 1;
	}
	if (IS("h.put")) {
		if (hkind == 'c') {
			vec* k = comp_key(A(1));
			char* v = unhex(A(2), NULL, 0);
			compositemap_set(&H, k, v);
			free(v);
			comp_free(k);
			return 1;
		}
		char* k = unhex(A(1), &n, 0);
		char* v = hkind == 's' ? NULL : unhex(A(2), NULL, 0);
		if (hkind == 's') set_nadd(&H, k, n);
		else if (hkind == 'm') hashmap_nset(&H, k, v, n);
		else multimap_nset(&H, k, v, n);
		free(k);
		free(v);
		return 1;
	}
	if (IS("h.get")) {
		void* v;
		if (hkind == 'c') {
			vec* k = comp_key(A(1));
			v = compositemap_get(&H, k);
			comp_free(k);
		} else {
			char* k = unhex(A(1), &n, 0);
			if (hkind == 's') fprintf(o, "%d", (int)set_nhas(&H, k, n));
			else if (hkind == 'm') v = hashmap_nget(&H, k, n);
			else v = multimap_nget(&H, k, n);
			free(k);
		}
		if (hkind == 's') return 1;
		if (!v) fputs("none", o);
		else if (hkind == 'u') {
			vec* l = v;
			size_t i;
			for (i = 0; i < l->size; ++i) {
				if (i) fputc(',', o);
				hex(vec_at(l, i), hesize);
			}
		} else hex(v, hesize);
		return 1;
	}
	if (IS("h.all")) {
		size_t i;
		fprintf(o, "%zu", H.values->size);
		for (i = 0; i < H.values->size; ++i) {
			vec* l = vec_at(H.values, i);
			size_t k;
			fputc(' ', o);
			if (hkind != 'u') hex(l, hesize);
			else for (k = 0; k < l->size; ++k) {
				if (k) fputc(',', o);
				hex(vec_at(l, k), hesize);
			}
		}
		return 1;
	}
	if (IS("h.clear")) {
		switch (hkind) {
		case 's': set_clear(&H); break;
		case 'm': hashmap_clear(&H); break;
		case 'u': multimap_clear(&H); break;
		default: compositemap_clear(&H);
		}
		return 1;
	}
	if (IS("h.end")) {
		switch (hkind) {
		case 's': set_destroy(&H); break;
		case 'm': hashmap_destroy(&H); break;
		case 'u': multimap_destroy(&H); break;
		default: compositemap_destroy(&H);
		}
		return 1;
	}
	return 0;
}

/* ---- vectors */
static vec V[2];
static unsigned ves;
static int cmp(const void* a, const void* b, void* c)
{
	int r = memcmp(a, b, ves);
	return *(int*)c ? -r : r;
}
static int vec_op(void)
{
	vec* v = &V[N(1) ? 1 : 0];
	size_t n;
	char* d;
	if (IS("v.new")) { ves = N(1); vec_construct(&V[0], ves); vec_construct(&V[1], ves); return 1; }
	if (IS("v.end")) { vec_destroy(&V[0]); vec_destroy(&V[1]); return 1; }
	if (IS("v.push")) { d = unhex(A(2), &n, 0); vec_push_back(v, d); free(d); return 1; }
	if (IS("v.add")) { d = unhex(A(2), &n, 0); memcpy(vec_add_one(v), d, ves); free(d); return 1; }
	if (IS("v.front")) { d = unhex(A(2), &n, 0); memcpy(vec_add_one_front(v), d, ves); free(d); return 1; }
	if (IS("v.pop")) { void* p = vec_pop_back(v); if (p) hex(p, ves); else fputs("none", o); return 1; }
	if (IS("v.back")) { hex(vec_back(v), ves); return 1; }
	if (IS("v.at")) { hex(vec_at(v, N(2)), ves); return 1; }
	if (IS("v.set")) {
		d = unhex(A(4), &n, 0);
		n /= ves;
		switch (N(3)) {
		case 0: vec_set_at(v, N(2), d, n); break;
		case 1: vec_set(v, vec_at(v, N(2)), d, n); break;
		case 2: vec_set_one(v, vec_at(v, N(2)), d); break;
		default: vec_set_iter(v, vec_at(v, N(2)), d, d + (n - 1) * ves);
		}
		free(d);
		return 1;
	}
	if (IS("v.ins")) {
		d = unhex(A(4), &n, 0);
		n /= ves;
		switch (N(3)) {
		case 0: vec_insert_at(v, N(2), d, n); break;
		case 1: vec_insert(v, vec_at(v, N(2)), d, n); break;
		case 2: vec_insert_one(v, vec_at(v, N(2)), d); break;
		default: vec_insert_iter(v, vec_at(v, N(2)), d, d + (n - 1) * ves);
		}
		free(d);
		return 1;
	}
	if (IS("v.era")) {
		n = N(4);
		switch (N(3)) {
		case 0: vec_erase_at(v, N(2), n); break;
		case 1: vec_erase(v, vec_at(v, N(2)), n); break;
		case 2: vec_erase_one(v, vec_at(v, N(2))); break;
		default: vec_erase_iter(v, vec_at(v, N(2)), vec_at(v, N(2) + n - 1));
		}
		return 1;
	}
	if (IS("v.resize")) {	/* what is new is written by the caller */
		size_t old = v->size;
		vec_resize(v, N(2));
		if (v->size > old) memset(vec_at(v, old), 0xee, (v->size - old) * ves);
		return 1;
	}
	if (IS("v.rz")) { vec_resize_and_zero(v, N(2)); return 1; }
	if (IS("v.reserve")) { vec_reserve(v, N(2)); return 1; }
	if (IS("v.shrink")) { vec_shrink_to_fit(v); return 1; }
	if (IS("v.clear")) { vec_clear(v); return 1; }
	if (IS("v.append")) { d = unhex(A(2), &n, 0); vec_append(v, d, n / ves); free(d); return 1; }
	if (IS("v.extend")) { vec_extend(v, v == V ? V + 1 : V); return 1; }
	if (IS("v.sort")) { int c = N(2); vec_sort_r(v, cmp, &c); return 1; }
	if (IS("v.all")) {
		char* it = vec_begin(v);
		fprintf(o, "%zu %d ", v->size, (int)vec_empty(v));
		for (; it != (char*)vec_end(v); it += ves) {
			if (it != (char*)vec_begin(v)) fputc(',', o);
			hex(it, ves);
		}
		return 1;
	}
	return 0;
}

/* ---- bit vectors */
static bitvec B;
static int bit_op(void)
{
	if (IS("b.new")) { bitvec_construct(&B); return 1; }
	if (IS("b.end")) { bitvec_destroy(&B); return 1; }
	if (IS("b.push")) { bitvec_push_back(&B, N(1)); return 1; }
	if (IS("b.set")) { bitvec_set(&B, N(1), N(2)); return 1; }
	if (IS("b.resize")) { bitvec_resize(&B, N(1)); return 1; }
	if (IS("b.all")) {
		size_t i;
		fprintf(o, "%zu ", B.size);
		for (i = 0; i < B.size; ++i) fputc('0' + bitvec_at(&B, i), o);
		return 1;
	}
	return 0;
}

/* ---- flexible vectors */
static flex F;
static int flex_op(void)
{
	size_t n;
	char* d;
	if (IS("f.new")) { flex_construct(&F); return 1; }
	if (IS("f.end")) { flex_destroy(&F); return 1; }
	if (IS("f.push")) { d = unhex(A(1), &n, 0); flex_push_back(&F, d, n); free(d); return 1; }
	if (IS("f.pushi")) { flex_push_back_str_int(&F, N(1)); return 1; }
	if (IS("f.pushf")) { flex_push_back_str_float(&F, atof(A(1))); return 1; }
	if (IS("f.ins")) { d = unhex(A(2), &n, 0); flex_insert(&F, N(1), d, n); free(d); return 1; }
	if (IS("f.rem")) { flex_remove(&F, N(1)); return 1; }
	if (IS("f.pop")) { flex_pop_back(&F); return 1; }
	if (IS("f.resize")) { flex_resize(&F, N(1)); return 1; }
	if (IS("f.reserve")) { flex_reserve(&F, N(1)); return 1; }
	if (IS("f.clear")) { flex_clear(&F); return 1; }
	if (IS("f.all")) {
		size_t i;
		fprintf(o, "%zu %d", flex_size(&F), (int)flex_empty(&F));
		for (i = 0; i < flex_size(&F); ++i) {
			stringview sv = flex_pair_at(&F, i);
			fputc(' ', o);
			hex(sv.data, sv.len);
			if (sv.len && sv.data != flex_at(&F, i)) fputs("!at", o);
		}
		return 1;
	}
	return 0;
}

/* ---- strings */
static string S[3];
static int str_op(void)
{
	string* s = &S[N(1) % 3];
	size_t n;
	char* d = NULL;
	if (IS("s.new")) { string_construct(S); string_construct(S + 1); string_construct(S + 2); return 1; }
	if (IS("s.end")) { string_destroy(S); string_destroy(S + 1); string_destroy(S + 2); return 1; }
	if (IS("s.make")) {
		string* t;
		string_destroy(s);
		if (N(2) == 0) { d = unhex(A(3), &n, 1); string_construct_from_char_ptr(s, d); }
		else if (N(2) == 1) { d = unhex(A(3), &n, 0); stringview sv = {d, n}; string_construct_from_stringview(s, &sv); }
		else if (N(2) == 2) { string_construct_take(s, unhex(A(3), &n, 1)); }
		else if (N(2) == 3) { d = unhex(A(3), &n, 1); t = string_from_char_ptr(d); *s = *t; free(t); }
		else if (N(2) == 4) { d = unhex(A(3), &n, 0); stringview sv = {d, n}; t = string_from_stringview(&sv); *s = *t; free(t); }
		else { t = string_take(unhex(A(3), &n, 1)); *s = *t; free(t); }
		free(d);
		return 1;
	}
	if (IS("s.from")) {
		string* f = &S[N(2) % 3];
		if (N(3) == 0) string_copy(s, f);
		else if (N(3) == 1) { string_destroy(s); string_construct_from_string(s, f); }
		else if (N(3) == 2) { string_destroy(s); string* t = string_from_string(f); *s = *t; free(t); }
		else { stringview sv = string_get_stringview(f); string_copy_from_stringview(s, &sv); }
		return 1;
	}
	if (IS("s.cat")) { d = unhex(A(2), &n, 1); fprintf(o, "%zu", string_strcat(s, d)); free(d); return 1; }
	if (IS("s.ncat")) { d = unhex(A(2), &n, N(4)); fprintf(o, "%zu", string_strncat(s, d, N(3))); free(d); return 1; }
	if (IS("s.cpy")) { d = unhex(A(2), &n, 1); fprintf(o, "%zu", string_strcpy(s, d)); free(d); return 1; }
	if (IS("s.ncpy")) { d = unhex(A(2), &n, N(4)); string_strncpy(s, d, N(3)); free(d); return 1; }
	if (IS("s.apv")) { d = unhex(A(2), &n, 0); stringview sv = {d, n}; string_append_stringview(s, &sv); free(d); return 1; }
	if (IS("s.app")) { string_append(s, &S[N(2) % 3]); return 1; }
	if (IS("s.push")) { string_push_back(s, N(2)); return 1; }
	if (IS("s.clear")) { string_clear(s); return 1; }
	if (IS("s.resize")) {
		size_t old = s->size;
		string_resize(s, N(2));
		if (s->size > old) memset((char*)s->data + old, 'r', s->size - old);
		return 1;
	}
	if (IS("s.printf")) {
		d = unhex(A(2), &n, 1);
		fprintf(o, "%zu", string_sprintf(s, "%s|%ld|%5.2f", d, N(3), atof(A(4))));
		free(d);
		return 1;
	}
	if (IS("s.export")) { d = string_export(s); hex(d, strlen(d)); free(d); return 1; }
	if (IS("s.repl")) {	/* slot, variant, old, new, limit or begin */
		char* a = unhex(A(3), NULL, 1);
		size_t bn;
		int v = N(2);
		char* b = unhex(A(4), &bn, v % 2 == 0);
		const char* e = NULL;
		switch (v) {
		case 0: string_find_replace(s, a, b); break;
		case 1: string_find_replace_limited(s, a, b, bn); break;
		case 2: e = string_find_replace_one(s, a, b, N(5)); break;
		case 3: e = string_find_replace_one_limited(s, a, b, N(5), bn); break;
		case 4: string_find_replace_nocase(s, a, b); break;
		case 5: string_find_replace_nocase_limited(s, a, b, bn); break;
		case 6: e = string_find_replace_one_nocase(s, a, b, N(5)); break;
		default: e = string_find_replace_one_nocase_limited(s, a, b, N(5), bn);
		}
		if (e) fprintf(o, "%ld", (long)(e - (char*)s->data));
		free(a);
		free(b);
		return 1;
	}
	if (IS("s.all")) {
		fprintf(o, "%zu %d ", s->size, (int)string_empty(s));
		hex(string_c_str(s), s->size);
		if (((char*)s->data)[s->size]) fputs(" unterminated", o);
		return 1;
	}
	return 0;
}
static int text_op(void)
{
	size_t n, m;
	if (IS("c.cmp")) {
		char* a = unhex(A(2), &n, 0);
		char* b = unhex(A(3), &m, 0);
		stringview x = {a, n}, y = {b, m};
		int r;
		switch (N(1)) {
		case 0: r = stringview_compare(&x, &y); break;
		case 1: r = stringview_compare_nocase(&x, &y); break;
		case 2: r = stringview_compare_rtrim(&x, &y); break;
		default: r = stringview_compare_nocase_rtrim(&x, &y);
		}
		fprintf(o, "%d", sgn(r));
		free(a);
		free(b);
		return 1;
	}
	if (IS("c.noext")) {
		char* a = unhex(A(1), &n, 1);
		char* d = malloc(n + 1);
		getnoext(d, a);
		hex(d, strlen(d));
		free(d);
		free(a);
		return 1;
	}
	if (IS("c.count")) { char* a = unhex(A(1), &n, 1); fprintf(o, "%d %d %d", charcount(a, N(2)), charncount(a, N(2), N(3)), !!strhaschar(a, N(2))); free(a); return 1; }
	if (IS("c.remove")) { char* a = unhex(A(1), &n, 1); removecharat(a, N(2)); hex(a, strlen(a)); free(a); return 1; }
	if (IS("c.lower")) { char* a = unhex(A(1), &n, 1); string_to_lower(a); hex(a, strlen(a)); free(a); return 1; }
	if (IS("c.nstr")) {
		char* a = unhex(A(1), &n, 0);
		char* b = unhex(A(2), &m, 1);
		char* p = strnstr(a, b, n);
		fprintf(o, "%ld", p ? (long)(p - a) : -1);
		free(a);
		free(b);
		return 1;
	}
	if (IS("c.num")) {
		char* a = unhex(A(1), &n, 1);
		long l = 0;
		double d = 0;
		int r = str2long(&l, a);
		if (r) fputs("fail", o); else fprintf(o, "%ld", l);
		r = str2long10(&l, a);
		if (r) fputs(" fail", o); else fprintf(o, " %ld", l);
		r = str2double(&d, a);
		if (r) fputs(" fail", o); else fprintf(o, " %.17g", d);
		free(a);
		return 1;
	}
	if (IS("c.eq")) { char* a = unhex(A(1), &n, 1); char* b = unhex(A(2), &n, 1); fprintf(o, "%d %d", !!string_eq(a, b), !!istring_eq(a, b)); free(a); free(b); return 1; }
	return 0;
}

/* ---- linked lists */
static node* L[2];
static void* num(long x) { long* p = malloc(sizeof(long)); *p = x; return p; }
static void shownum(void* p) { if (p) { fprintf(o, "%ld", *(long*)p); free(p); } else fputs("none", o); }
static int node_op(void)
{
	node** h = &L[N(1) ? 1 : 0];
	if (IS("n.push")) { node_push(h, num(N(2))); return 1; }
	if (IS("n.enq")) { node_enqueue(h, num(N(2))); return 1; }
	if (IS("n.pop")) { shownum(node_pop(h)); return 1; }
	if (IS("n.deq")) { shownum(node_dequeue(h)); return 1; }
	if (IS("n.at")) { long* p = node_data_at(*h, N(2)); if (p) fprintf(o, "%ld", *p); else fputs("none", o); return 1; }
	if (IS("n.rem")) { shownum(node_remove(h, node_at(*h, N(2)))); return 1; }
	if (IS("n.del")) { node_delete(h, node_at(*h, N(2))); return 1; }
	if (IS("n.move")) {	/* from one list to the other */
		node** t = h == L ? L + 1 : L;
		node* x = N(3) ? node_at(*h, N(3)) : node_pop_export(h);
		if (N(3)) node_export(x);
		if (!x) fputs("none", o);
		else if (N(2)) node_push_import(t, x);
		else node_enqueue_import(t, x);
		return 1;
	}
	if (IS("n.free")) { node_free_data(h); fprintf(o, "%d", *h == NULL); return 1; }
	if (IS("n.all")) {
		node* x;
		fprintf(o, "%d", node_count(*h));
		for (x = *h; x; x = x->next) fprintf(o, " %ld", *(long*)x->data);
		fputs(" /", o);
		for (x = node_back(*h); x; x = x->prev) fprintf(o, " %ld", *(long*)x->data);
		if (*h && (node_front(node_back(*h)) != *h || node_top(node_back(*h)) != *h || node_bottom(*h) != node_back(*h))) fputs(" ends", o);
		return 1;
	}
	return 0;
}

/* ---- directed graphs */
static dgraph* G[2];
static dnode* gn[256];
static dnode** gpos(dgraph* g, dnode* x)
{
	dnode** it = vec_begin(g->nodes);
	for (; it != vec_end(g->nodes); ++it)
		if (*it == x) return it;
	return NULL;
}
static int graph_op(void)
{
	if (IS("g.new")) { G[0] = new_(dgraph); G[1] = new_(dgraph); return 1; }
	if (IS("g.end")) { delete_(dgraph, G[0]); if (G[1]) delete_(dgraph, G[1]); return 1; }
	if (IS("g.node")) { gn[N(2)] = dgraph_add_data(G[N(1)], (void*)(intptr_t)N(2)); fprintf(o, "%d", G[N(1)]->newest == gn[N(2)]); return 1; }
	if (IS("g.edge")) { gn[N(1)]->out[N(2)] = gn[N(3)]; return 1; }
	if (IS("g.root")) { gn[N(1)]->is_root = true; return 1; }
	if (IS("g.rem")) { fprintf(o, "%ld", (long)(intptr_t)dgraph_remove(G[N(1)], gpos(G[N(1)], gn[N(2)]))); return 1; }
	if (IS("g.eat")) { dgraph_consume(G[0], G[1]); G[1] = NULL; return 1; }
	if (IS("g.roots")) {
		vec* r = dgraph_get_roots(G[0]);
		dnode** it = vec_begin(r);
		fprintf(o, "%u", dgraph_root_count(G[0]));
		for (; it != vec_end(r); ++it) fprintf(o, " %ld", (long)(intptr_t)(*it)->data);
		return 1;
	}
	if (IS("g.trav")) {
		dnode* x;
		int n = 0;
		dgraph_traverse_reset(G[0]);
		while ((x = dgraph_traverse(G[0])) != NULL && ++n < 2000) fprintf(o, "%ld ", (long)(intptr_t)x->data);
		return 1;
	}
	return 0;
}

/* ---- circular buffers */
static fifo Q;
static vec qv;
static int fifo_op(void)
{
	long x;
	int i;
	if (IS("q.new")) { fifo_construct(&Q, sizeof(long), N(1)); Q.input_count = N(2); vec_construct(&qv, sizeof(long)); return 1; }
	if (IS("q.end")) { fifo_destroy(&Q); vec_destroy(&qv); return 1; }
	if (IS("q.add")) { x = N(1); fifo_add(&Q, &x); return 1; }
	if (IS("q.addt")) { x = N(1); fprintf(o, "%d", fifo_add_try(&Q, &x)); return 1; }
	if (IS("q.nadd")) {	/* variant, values: what does not fit stays in the vector */
		vec* v = new_(vec, sizeof(long));
		long* it;
		for (i = 2; i < nw; ++i) { x = N(i); vec_push_back(v, &x); }
		if (N(1)) fprintf(o, "%d ", fifo_nadd_try(&Q, v)); else fifo_nadd(&Q, v);
		fprintf(o, "%zu", v->size);
		for (it = vec_begin(v); it != vec_end(v); ++it) fprintf(o, " %ld", *it);
		delete_(vec, v);
		return 1;
	}
	if (IS("q.get")) { fprintf(o, "%ld", *(long*)fifo_get(&Q)); return 1; }
	if (IS("q.getw")) { long* p = fifo_get_or_wait(&Q); if (p) fprintf(o, "%ld", *p); else fputs("none", o); return 1; }
	if (IS("q.nget")) {
		long* it;
		vec_clear(&qv);
		fprintf(o, "%d", fifo_nget(&Q, &qv, N(1), N(2)));
		for (it = vec_begin(&qv); it != vec_end(&qv); ++it) fprintf(o, " %ld", *it);
		return 1;
	}
	if (IS("q.peek")) { long* p = fifo_safe_peek(&Q); if (p) fprintf(o, "%ld", *p); else fputs("none", o); if (p && p != fifo_peek(&Q)) fputs(" differs", o); return 1; }
	if (IS("q.look")) { long* p = fifo_look_ahead(&Q); if (p) fprintf(o, "%ld", *p); else fputs("none", o); return 1; }
	if (IS("q.consume")) { fifo_consume(&Q); return 1; }
	if (IS("q.iter")) {	/* take up to n */
		long* p = fifo_begin(&Q);
		for (i = 0; i < N(1) && p != fifo_end(&Q); ++i) { fprintf(o, "%ld ", *p); p = fifo_iter(&Q); }
		if (N(2)) fprintf(o, "/%d", fifo_update_try(&Q)); else fifo_update(&Q);
		return 1;
	}
	if (IS("q.open")) { fifo_set_open(&Q, N(1)); fprintf(o, "%d", (int)Q.is_open); return 1; }
	if (IS("q.reset")) { fifo_reset(&Q); return 1; }
	if (IS("q.resize")) { fifo_resize(&Q, N(1)); return 1; }
	if (IS("q.full")) { fifo_set_full(&Q); long* p = vec_begin(Q.buf); for (i = 0; i < (int)Q.buf->size; ++i) p[i] = i; return 1; }
	if (IS("q.state")) { fprintf(o, "%u %d %d %u", fifo_available(&Q), (int)fifo_is_empty(&Q), (int)fifo_is_full(&Q), fifo_receivable(&Q)); return 1; }
	return 0;
}

/* producers and one consumer on one or two buffers */
static fifo P[2];
struct prod { int q, id, n, style; unsigned seed; };
static void dither(unsigned* s, int style)
{
	unsigned r;
	if (!style) return;
	*s = *s * 1103515245 + 12345;
	r = *s >> 16;
	if (style == 1) { if (r % 4 == 0) sched_yield(); }
	else if (r % 16 == 0) usleep(r / 16 % 60);
	else if (r % 3 == 0) sched_yield();
}
static void* produce(void* p)
{
	struct prod* a = p;
	fifo* f = &P[a->q];
	vec* batch = new_(vec, sizeof(long));
	long i = 0, x;
	while (i < a->n) {
		dither(&a->seed, a->style);
		x = (long)a->id * 1000000 + i;
		if (a->seed >> 20 & 1) {
			while (!fifo_receivable(f)) fifo_wait_for_get(f);
			fifo_add(f, &x);
			++i;
			continue;
		}
		/* several at once, as far as they fit */
		int k = 1 + (a->seed >> 21) % 4;
		for (; k && i < a->n; --k, ++i) { x = (long)a->id * 1000000 + i; vec_push_back(batch, &x); }
		while (!vec_empty(batch)) {
			fifo_wait_for_get(f);
			if (a->seed >> 24 & 1) fifo_nadd(f, batch);
			else if (fifo_nadd_try(f, batch)) sched_yield();
			dither(&a->seed, a->style);
		}
	}
	delete_(vec, batch);
	return NULL;
}
static void* offer(void* p)
{
	struct prod* a = p;
	fifo* f = &P[0];
	vec* batch = new_(vec, sizeof(long));
	long i = 0, x;
	while (i < a->n && f->is_open) {
		dither(&a->seed, a->style);
		x = (long)a->id * 1000000 + i;
		fifo_wait_for_get(f);
		if (!f->is_open) break;
		if (a->seed >> 20 & 1) {
			if (!fifo_receivable(f)) continue;
			fifo_add(f, &x);
			++i;
			continue;
		}
		vec_clear(batch);
		vec_push_back(batch, &x);
		fifo_nadd(f, batch);
		i += vec_empty(batch);
	}
	delete_(vec, batch);
	return NULL;
}
/* q.quit size input_count producers items style seed n: the consumer has enough after n */
static void quit(void)
{
	struct prod pr[8];
	pthread_t t[8];
	int i, k = N(3);
	long n = N(7);
	unsigned seed = N(6);
	fifo_construct(&P[0], sizeof(long), N(1));
	P[0].input_count = N(2);
	for (i = 0; i < k; ++i) {
		struct prod x = {0, i, N(4), N(5), seed * 31 + i};
		pr[i] = x;
		pthread_create(&t[i], NULL, offer, &pr[i]);
	}
	while (n > 0) {
		fifo_wait_for_add(&P[0]);
		while (n > 0 && !fifo_is_empty(&P[0])) {
			fprintf(o, "%ld ", *(long*)fifo_get(&P[0]));
			--n;
			dither(&seed, N(5));
		}
	}
	if (seed & 1) usleep(300);
	fifo_set_open(&P[0], 0);
	for (i = 0; i < k; ++i) pthread_join(t[i], NULL);
	fifo_destroy(&P[0]);
}
struct join { pthread_t t[8]; int n; int q; };
static void* closer(void* p)
{
	struct join* j = p;
	int i;
	for (i = 0; i < j->n; ++i) pthread_join(j->t[i], NULL);
	fifo_set_open(&P[j->q], 0);
	return NULL;
}
/* q.conc size input_count producers items style seed consumer [second: producers items] */
static void conc(void)
{
	int two = nw > 8, i, q;
	struct prod pr[2][8];
	struct join js[2];
	pthread_t ct[2];
	unsigned seed = N(6);
	int style = N(5), how = N(7);
	long got = 0;
	long* p;
	vec* buf = new_(vec, sizeof(long));
	for (q = 0; q <= two; ++q) {
		fifo_construct(&P[q], sizeof(long), N(1));
		js[q].n = q ? N(8) : N(3);
		js[q].q = q;
		P[q].input_count = N(2);
	}
	for (q = 0; q <= two; ++q) {
		for (i = 0; i < js[q].n; ++i) {
			struct prod x = {q, q * 10 + i, q ? N(9) : N(4), style, seed * 31 + q * 7 + i};
			pr[q][i] = x;
			pthread_create(&js[q].t[i], NULL, produce, &pr[q][i]);
		}
		pthread_create(&ct[q], NULL, closer, &js[q]);
	}
	for (;;) {
		int idle = 1;
		for (q = 0; q <= two; ++q) {
			fifo* f = &P[q];
			if (how == 0 && !two) {
				p = fifo_get_or_wait(f);
				if (!p) goto end;
				fprintf(o, "%ld ", *p);
				idle = 0;
				dither(&seed, style);
				continue;
			}
			while (!fifo_is_empty(f)) {
				idle = 0;
				if (how == 2) {
					vec_clear(buf);
					fifo_nget(f, buf, 1, 1 + seed % 5);
					for (p = vec_begin(buf); p != vec_end(buf); ++p) fprintf(o, "%ld ", *p);
				} else if (how == 3) {
					fprintf(o, "%ld ", *(long*)fifo_peek(f));
					fifo_consume(f);
				} else {
					for (p = fifo_begin(f); p != fifo_end(f); p = fifo_iter(f)) fprintf(o, "%ld ", *p);
					fifo_update(f);
				}
				dither(&seed, style);
			}
		}
		if (how == 0 && !two) continue;
		if (!idle) continue;
		if (!P[0].is_open && fifo_is_empty(&P[0]) && (!two || (!P[1].is_open && fifo_is_empty(&P[1])))) break;
		if (!two) fifo_wait_for_add(&P[0]);
		else if (P[0].is_open && P[1].is_open) fifo_wait_for_add_either(&P[0], &P[1]);
		else fifo_wait_for_add(P[0].is_open ? &P[0] : &P[1]);
	}
end:
	for (q = 0; q <= two; ++q) {
		pthread_join(ct[q], NULL);
		fifo_destroy(&P[q]);
	}
	(void)got;
	delete_(vec, buf);
}

void util_main(int argc, char** argv, FILE* out)
{
	int i;
	o = out;
	for (i = 0; i < argc; ++i) {
		char* t;
		line = strdup(argv[i]);
		t = line;
		nw = 0;
		while (nw < 64 && (w[nw] = strsep(&t, " ")) != NULL) ++nw;
		int ok = 1;
		switch (*w[0]) {
		case 'h': ok = hash_op(); break;
		case 'v': ok = vec_op(); break;
		case 'b': ok = bit_op(); break;
		case 'f': ok = flex_op(); break;
		case 's': ok = str_op(); break;
		case 'c': ok = text_op(); break;
		case 'n': ok = node_op(); break;
		case 'g': ok = graph_op(); break;
		case 'q': if (IS("q.conc")) conc(); else if (IS("q.quit")) quit(); else ok = fifo_op(); break;
		default: ok = 0;
		}
		if (!ok) { fprintf(stderr, "driver: bad operation %s\n", w[0]); exit(98); }
		fputc('\n', o);
		fflush(o);
		free(line);
	}
	fclose(o);
}
