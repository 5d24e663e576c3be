S = [
 dict(id="S03-rangeidx", prop="S03",
  edits=[("lib/like.c", "\tfor (; i < self->ranges.size; ++i) {\n\t\tsprintf(key, \"[[%d]]\", i);",
          "\tfor (; i < self->ranges.size; ++i) {\n\t\tsprintf(key, \"[[%d]]\", i % 2);")],
  demo=r'''
printf 'v\nabc\nabd\naba\nccc\n' > t1.csv
expect "three sets" "$(printf 'v\nabc\nabd')" -c "select v from t1 where v like '[a][b][cd]'"
expect "two sets" "$(printf 'v\nabc\nabd\naba')" -c "select v from t1 where v like '[a][bc]%'"''',
  needs="a LIKE pattern with at least three bracketed sets",
  breaks="the third and later sets of a pattern are not substituted, so it matches nothing"),
 dict(id="S05-right4", prop="S05",
  edits=[("lib/scalarfn.c", "\tcase 4:\n\t\tvalid = ((s[i] & 0xF8) == 0xF0);", "\tcase 4:\n\t\tvalid = ((s[i] & 0xF8) == 0xF8);")],
  demo=r'''
printf 'v\nab\n😀\nx😀y\n' > t1.csv
expect "right of four byte characters" "$(printf 'v,\nab,b\n😀,😀\nx😀y,y')" -c "select v, right(v, 1) from t1"
expect "right 2" "$(printf 'v,\nab,ab\n😀,😀\nx😀y,😀y')" -c "select v, right(v, 2) from t1"''',
  needs="RIGHT() reaching a character of four bytes",
  breaks="RIGHT() refuses text whose tail has a four byte character"),
 dict(id="S07-desc", prop="S07",
  edits=[("lib/order.c", "\t\tif ((*it)->descending)\n\t\t\tret *= -1;\n", "\t\tif ((*it)->descending && it == vec_begin(&orderby->expressions))\n\t\t\tret *= -1;\n")],
  demo=r'''
printf 'a,b\n1,1\n2,1\n1,2\n' > t1.csv
expect "first descending" "$(printf 'a,b\n2,1\n1,1\n1,2')" -c "select a,b from t1 order by a desc, b"
expect "second descending" "$(printf 'a,b\n1,2\n1,1\n2,1')" -c "select a,b from t1 order by a, b desc"''',
  needs="DESC on a key that is not the first, and ties on the earlier keys",
  breaks="DESC is ignored on all keys but the first"),
 dict(id="S08-rowsaffected", prop="S08",
  edits=[("lib/fqlselect.c", "\tself->_union_node = self->_union_node->next;\n\tself->rows_affected = 0;\n", "\tself->_union_node = self->_union_node->next;\n")],
  demo=r'''
printf 'a\n1\n2\n3\n' > t1.csv
expect "top in the second branch" "$(printf 'a\n1\n2\n3\n1\n2')" -c "select a from t1 union all select top 2 a from t1"
expect "plain union" "$(printf 'a\n1\n2\n3\n1\n2\n3')" -c "select a from t1 union all select a from t1"''',
  needs="TOP in a branch of a UNION ALL that is not the first",
  breaks="rows of earlier branches count towards the TOP of a later branch"),
 dict(id="S10-leftstate", prop="S10",
  edits=[("lib/fqlprocesses.c", "\t\t\tif (table->join_type == JOIN_LEFT) {\n\t\t\t\tfifo_add(out_true, left_rg_iter);", "\t\t\tif (table->join_type == JOIN_LEFT && hj->hash_data->values->size) {\n\t\t\t\tfifo_add(out_true, left_rg_iter);")],
  demo=r'''
printf 'k,v\na,1\nb,2\n' > t1.csv
printf 'k,w\na,x\n' > t2.csv
printf 'k,w\n' > t3.csv
expect "left join" "$(printf 'v,w\n1,x\n2,')" -c "select v, w from t1 left join t2 on t1.k = t2.k"
expect "left join with an empty table" "$(printf 'v,w\n1,\n2,')" -c "select v, w from t1 left join t3 on t1.k = t3.k"''',
  needs="a LEFT JOIN whose right side has no rows",
  breaks="left rows are dropped when the right table is empty"),
 dict(id="S11-constlist", prop="S11",
  edits=[("lib/order.c", "\tif (self->entries.size > 1 && self->top_count > 1) {", "\tif (self->entries.size > 2 && self->top_count > 1) {")],
  demo=r'''
printf 'k,v\na,1\nb,2\n' > t1.csv
expect "one value" "$(printf 'k,\na,1\nb,1')" -c "select k, (select top 1 v from t1 order by v) from t1"
got=$(timeout 20 "$W/b/fql" -c "select k, (select v from t1 order by v) from t1" 2>/dev/null) && { echo "FAIL: two values were accepted as one: $got"; bad=1; }''',
  needs="a scalar subquery with ORDER BY and without TOP that has exactly two rows",
  breaks="a scalar subquery of two values is accepted and one of them used"),
]
