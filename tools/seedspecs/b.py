S = [
 dict(id="S01-shortrow", prop="S01",
  edits=[("lib/record.c", "\tvec_resize(&self->fields, size);", "\tif (size > self->fields.size)\n\t\tvec_resize(&self->fields, size);")],
  demo=r'''
(echo 'a,b,c'; for i in $(seq 1 300); do echo "$i,x$i,y$i"; done; echo 1000) > t1.csv
expect "long rows" "$(printf 'a,c\n1,y1\n2,y2')" -P 2 -c "select top 2 a, c from t1"
expect "a short row behind long ones" "$(printf 'a,c\n1000,')" -P 2 -c "select a, c from t1 where a = 1000"''',
  needs="a row with fewer fields than the row that used the same record before (more rows than records)",
  breaks="missing fields of a short row show fields of an earlier row"),
 dict(id="S02-inlisttype", prop="S02",
  edits=[("lib/inlist.c", "\t\ttype = field_determine_type(type, (*it)->field_type);", "\t\ttype = field_determine_type(left_side->field_type, (*it)->field_type);")],
  demo=r'''
printf 'a\n1\n2\n3\n' > t1.csv
expect "integers" "$(printf 'a\n1\n3')" -c "select a from t1 where cast(a as int) in (1, 3)"
expect "mixed numbers" "$(printf 'a\n2')" -c "select a from t1 where cast(a as int) in (1.5, 2)"''',
  needs="an IN list whose elements have different numeric types with the integer last",
  breaks="the elements are compared with the type of the last one, so 1 is in (1.5, 2)"),
 dict(id="S04-mulover", prop="S04",
  edits=[("lib/scalarfn.c", "\tret->i = overflow_safe_multiply_i(n0, n1);", "\tret->i = (n0 > 0 && n1 < 0) ? (long)((unsigned long)n0 * n1) : overflow_safe_multiply_i(n0, n1);")],
  demo=r'''
expect "product" "$(printf '\n-12')" -c "select 3 * -4"
got=$(timeout 20 "$W/b/fql" -c "select 4611686018427387904 * -3" 2>/dev/null) && { echo "FAIL: overflow gave $got"; bad=1; }
got=$(timeout 20 "$W/b/fql" -c "select 4611686018427387904 * 3" 2>/dev/null) && { echo "FAIL: overflow gave $got"; bad=1; }
true''',
  needs="an integer product of a positive and a negative operand below the least integer",
  breaks="the overflow goes unnoticed and a wrong number is returned"),
 dict(id="S06-maxneg", prop="S06",
  edits=[("lib/aggregatefn.c", "\tif (result->qty == 0 || num > result->data.i) {", "\tif (num > result->data.i) {")],
  demo=r'''
printf 'k,v\na,1\nb,-2\na,5\nb,-7\n' > t1.csv
expect "max of positives" "$(printf 'k,\na,5')" -c "select k, max(cast(v as int)) from t1 where k = 'a' group by k"
expect "max of negatives" "$(printf 'k,\na,5\nb,-2')" -c "select k, max(cast(v as int)) from t1 group by k"''',
  needs="MAX over integers that are all negative in one group",
  breaks="MAX of a group without positive numbers is 0"),
 dict(id="S14-addboth", prop="S14",
  edits=[("util/fifo.c", "void fifo_add(fifo* restrict self, void* restrict data)\n{\n\tpthread_mutex_lock(&self->head_mutex);\n\tvec_set_at(self->buf, self->head, data, 1);\n\t_idx_adv_(self->head);\n\tpthread_cond_signal(&self->cond_add);\n\t_fifo_signal_shared(self);",
    "void fifo_add(fifo* restrict self, void* restrict data)\n{\n\tpthread_mutex_lock(&self->head_mutex);\n\tvec_set_at(self->buf, self->head, data, 1);\n\t_idx_adv_(self->head);\n\tpthread_cond_signal(&self->cond_add);")],
  demo=r"""
(echo a,b; for i in $(seq 1 300); do echo $i,x; done) > t1.csv
for i in $(seq 1 40); do
	timeout 10 "$W/b/fql" -t -P 2 -c "update t1 set b = 'y' where a > 299 and b = 'q'" >/dev/null 2>&1 || { echo "FAIL: run $i: exit $?"; bad=1; break; }
done
timeout 10 "$W/b/fql" -P 2 -c "update t1 set b = 'z' where a > 299" >/dev/null 2>&1
[ "$(tail -1 t1.csv)" = 300,z ] || { echo "FAIL: $(tail -1 t1.csv)"; bad=1; }""",
  needs="a threaded UPDATE whose rows all go to one of the two pipes it waits for, more rows than the pipe holds",
  breaks="adding to the first of two awaited pipes does not wake the waiting thread: deadlock"),
]
