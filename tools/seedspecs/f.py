S = [
 dict(id="S22-constkey", prop="S22",
  edits=[("lib/schema.c", "			type_sv.data = (void*)&_c_int;\n			vec_push_back(key, &type_sv);\n			stringview_nset(&val_sv, &expr->field.f, sizeof(double));",
          "			type_sv.data = (void*)&_c_int;\n			vec_push_back(key, &type_sv);\n			stringview_nset(&val_sv, &expr->field.f, sizeof(int));")],
  demo=r'''
printf 'foo,n\na,1\nb,2\na,1\nc,3\n' > t
"$W/b/fql" -c "select n + 4294967297, count(*) from [t] group by n + 1" > out 2>err
[ $? != 0 ] || { echo "FAIL: accepted, printed"; cat out; bad=1; }
expect "same key" "$(printf '4294967298,2\n4294967299,1\n4294967300,1')" -h -c "select n + 4294967297, count(*) from [t] group by n + 4294967297"
''', needs="a selected expression that differs from the group key only in the upper half of an integer literal", breaks="n + 4294967297 is taken for the key n + 1"),
 dict(id="S25-orderheader", prop="S25",
  edits=[("lib/fqlselect.c", "	    || (self->schema->is_default && !query->fqlref->props.print_header)) {",
          "	    || (self->schema->is_default && !query->fqlref->props.print_header\n	        && query->orderby == NULL)) {")],
  demo=r'''
printf 'id,s\n2,abc\n1,def\n' > t
expect "-h" "$(printf '2,abc\n1,def')" -h -c "select * from [t]"
expect "-h with order" "$(printf '1,def\n2,abc')" -h -c "select * from [t] order by id"
''', needs="-h together with ORDER BY", breaks="an ordered query prints its header in spite of -h"),
 dict(id="S07-floatdiff", prop="S07",
  edits=[("lib/order.c", "			double* num1 = flex_at(&orderby->order_data, idx1);\n			ret = num_compare_(*num0, *num1);",
          "			double* num1 = flex_at(&orderby->order_data, idx1);\n			ret = *num0 - *num1;")],
  demo=r'''
printf 'n\n5\n3\n4\n1\n2\n' > t
expect "near floats" "$(printf '1\n2\n3\n4\n5')" -h -c "select n from [t] order by n * 0.5"
''', needs="float keys less than one apart", breaks="floats less than one apart count as equal, and the next key or the input order decides"),
 dict(id="S11-toporder", prop="S11",
  edits=[("lib/order.c", "	if (self->entries.size == 0 || self->top_count == 0) {", "	if (self->entries.size == 0) {")],
  demo=r'''
printf 'n\n5\n3\n4\n' > t
printf '|5\n|3\n|4\n' > want
expect "top 0 in order" "$(cat want)" -h -c "select (select top 0 n from [t] order by n) x, n from [t]" -S '|'
''', needs="a scalar subquery with TOP 0 and ORDER BY over rows", breaks="the subquery has the value of its first row instead of NULL"),
]
