S = [
 dict(id="S09-rtrim", prop="S09",
  edits=[("lib/table.c", "HASHMAP_PROP_NOCASE | HASHMAP_PROP_RTRIM", "HASHMAP_PROP_NOCASE")],
  demo=r'''
printf 'k,v\na,1\nb,2\n' > t1.csv
printf 'k,w\nA,x\nb  ,y\n' > t2.csv
expect "letter case" "$(printf 'v,w\n1,x')" -c "select v, w from t1 join t2 on t1.k = t2.k where v = 1"
expect "trailing blanks" "$(printf 'v,w\n2,y')" -c "select v, w from t1 join t2 on t1.k = t2.k where v = 2"''',
  needs="a hash join whose keys differ in trailing blanks only",
  breaks="an equality that holds in WHERE does not in a hash join: the row is lost"),
 dict(id="S12-copyidx", prop="S12",
  edits=[("lib/record.c", "\tself->rec_idx = src->rec_idx;\n\tself->rec_ref = src->rec_ref;", "\tself->rec_ref = src->rec_ref;")],
  demo=r'''
printf 'k,v\na,1\nb,2\nc,3\nd,4\n' > t1.csv
printf 'k,w\nb,x\nd,y\n' > t2.csv
timeout 20 "$W/b/fql" -c "update t1 set v = 'q' from t1 join t2 on t1.k = t2.k" >/dev/null 2>&1
[ "$(cat t1.csv)" = "$(printf 'k,v\na,1\nb,q\nc,3\nd,q')" ] || { echo "FAIL one match: $(cat t1.csv)"; bad=1; }
printf 'k,v\na,1\nb,2\nc,3\nd,4\n' > t1.csv
printf 'k,w\nd,x\nd,y\nc,z\n' > t2.csv
timeout 20 "$W/b/fql" -c "delete t1 from t1 join t2 on t1.k = t2.k where w <> 'y'" >/dev/null 2>&1
[ "$(cat t1.csv)" = "$(printf 'k,v\na,1\nb,2')" ] || { echo "FAIL several matches: $(cat t1.csv)"; bad=1; }''',
  needs="a joined UPDATE or DELETE where one row of the changed table has several matches of which a later one passes WHERE",
  breaks="the copied left record has no row number: the wrong row of the table is changed"),
 dict(id="S13-oldheader", prop="S13",
  edits=[("lib/schema.c", "\t\thashmap_set(fql->schema_map, absolute_path, &op_schema);", "\t\tif (!fql->props.overwrite) {\n\t\t\thashmap_set(fql->schema_map, absolute_path, &op_schema);\n\t\t}")],
  demo=r'''
printf 'a,b\n1,x\n2,y\n' > t1.csv
expect "new file" "$(printf 'b\nx\ny')" -c "select b into [n1.csv] from t1; select b from [n1.csv]"
printf 'c,d\n5,6\n' > n2.csv
expect "replaced file" "$(printf 'b,a\nx,1\ny,2')" -o -c "select b, a into [n2.csv] from t1; select b, a from [n2.csv]"''',
  needs="an existing file replaced by SELECT INTO and read again in the same run",
  breaks="later statements know the replaced file by the columns it had before"),
 dict(id="S15-firstcase", prop="S15",
  edits=[("lib/schema.c", "\t\tif (istring_eq(node->data, base)) {\n\t\t\t++matches;\n\t\t\tstring_sprintf(dest, \"%s/%s\", dir, node->data);\n\t\t}",
   "\t\tif (istring_eq(node->data, base)) {\n\t\t\t++matches;\n\t\t\tstring_sprintf(dest, \"%s/%s\", dir, node->data);\n\t\t\tbreak;\n\t\t}")],
  demo=r'''
printf 'a\n1\n' > Tab.csv
expect "one file" "$(printf 'a\n1')" -c "select a from [TAB.CSV]"
printf 'a\n2\n' > tab.csv
expect "exact name" "$(printf 'a\n1')" -c "select a from [Tab.csv]"
timeout 20 "$W/b/fql" -c "select a from [TAB.CSV]" >/dev/null 2>&1 && { echo "FAIL: an ambiguous name was accepted"; bad=1; }
true''',
  needs="two files whose names differ from the given one in letter case only",
  breaks="an ambiguous table name reads whichever file the directory lists first"),
 dict(id="S16-firstsource", prop="S16",
  edits=[("lib/schema.c", "\t\t\t\tif (n > 1 && !strictness) {\n\t\t\t\t\tn = 1;\n\t\t\t\t}\n\t\t\t\tmatches += n;",
   "\t\t\t\tif (!strictness && n > 0) {\n\t\t\t\t\tmatches = 1;\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\t\t\t\tmatches += n;")],
  demo=r'''
printf 'a,b\n1,x\n' > t1.csv
printf 'a,c\n1,y\n' > t2.csv
expect "qualified" "$(printf 'a,c\n1,y')" -c "select t1.a, c from t1 join t2 on t1.a = t2.a"
timeout 20 "$W/b/fql" -c "select a, c from t1 join t2 on t1.a = t2.a" >/dev/null 2>&1 && { echo "FAIL: an ambiguous column was accepted"; bad=1; }
true''',
  needs="an unqualified column that two joined tables have",
  breaks="the ambiguous column is taken from the last table instead of being refused"),
 dict(id="S17-padwidth", prop="S17",
  edits=[("lib/fqlupdate.c", "\t\t(*new_val)->width = (*match_expr)->width;", "\t\tif ((*new_val)->expr != EXPR_COLUMN_NAME) {\n\t\t\t(*new_val)->width = (*match_expr)->width;\n\t\t}")],
  demo=r'''
mkdir s; printf 'k,4,char\nv,2,char\nw,3,char\n' > s/lay
printf 'aaaax 111bbbby 222' > fix.dat
expect "read" "aaaax 111" --schema-path s -c "select * from [lay].[fix.dat] where k = 'aaaa'"
timeout 20 "$W/b/fql" --schema-path s -c "update [lay].[fix.dat] set v = 'q' where k = 'aaaa'" >/dev/null 2>&1
timeout 20 "$W/b/fql" --schema-path s -c "update [lay].[fix.dat] set k = w where v = 'y'" >/dev/null 2>&1
[ "$(cat fix.dat)" = "aaaaq 111222 y 222" ] || { echo "FAIL: $(cat fix.dat)"; bad=1; }''',
  needs="an UPDATE of a fixed-width column from a column of another width",
  breaks="the value is padded to the width it came from: every later column of the row moves"),
 dict(id="S19-stalenull", prop="S19",
  edits=[("lib/fqlprocesses.c", "\tif (declstmt->init_expr == NULL) {\n\t\tvariable_reset(var);\n\t\treturn PROC_RETURN_COMPLETE;\n\t}\n", "\tif (declstmt->init_expr == NULL) {\n\t\tvar->is_null = true;\n\t\treturn PROC_RETURN_COMPLETE;\n\t}\n")],
  demo=r'''
expect "declared again" "$(printf 'x\nnone\nx\nnone')" -c "declare @i int = 0; while @i < 2 begin declare @s varchar(9); select isnull(@s, 'none') x; set @s = 'z'; set @i = @i + 1 end"
expect "imported" "$(printf 'x\n7')" -D s=7 -c "declare @s int; select @s x"''',
  needs="a variable given with -D and declared in the program without a value",
  breaks="the imported value is lost"),
]
