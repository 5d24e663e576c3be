FAULT = r'''#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
int rename(const char* a, const char* b)
{
	static int n;
	if (++n == atoi(getenv("FAIL_RENAME"))) { errno = EIO; return -1; }
	int (*f)(const char*, const char*) = dlsym(RTLD_NEXT, "rename");
	return f(a, b);
}
'''
S = [
 dict(id="S23-forgetfirst", prop="S23",
  edits=[("lib/fixedwrite.c", "	if (rename(tmp, file)) {\n		perror(tmp);\n		return FQL_FAIL;\n	}\n	if (chmod(file, 0666)) {\n		perror(file);\n		return FQL_FAIL;\n	}\n	fqlsig_tmp_remove_node(self->tempnode);\n	self->tempnode = NULL;\n",
          "	fqlsig_tmp_remove_node(self->tempnode);\n	self->tempnode = NULL;\n	if (rename(tmp, file)) {\n		perror(tmp);\n		return FQL_FAIL;\n	}\n	if (chmod(file, 0666)) {\n		perror(file);\n		return FQL_FAIL;\n	}\n")],
  files={"fault.c": FAULT},
  demo=r'''
gcc -shared -fPIC -w "$here/fault.c" -o "$W/fault.so" -ldl || exit 99
mkdir sch; printf 'id,4,c\ns,5,c\n' > sch/lay
printf '   1abcde   2fghij' > fx
LD_PRELOAD=$W/fault.so FAIL_RENAME=1 "$W/b/fql" --schema-path sch -c "update f set s = 'q' from lay.fx f where id = '   1'" >/dev/null 2>&1
[ $? != 0 ] || { echo "FAIL: reported success"; bad=1; }
[ "$(cat fx)" = '   1abcde   2fghij' ] || { echo "FAIL: table changed"; bad=1; }
[ "$(ls | tr '\n' ' ')" = 'fx sch ' ] || { echo "FAIL: left behind:"; ls; bad=1; }
''', needs="rename of a finished temporary file fails", breaks="the temporary file of a fixed-width table stays behind when it cannot be moved in place"),
 dict(id="S23-sigone", prop="S23",
  edits=[("lib/fqlsig.c", "	while (_tmp_file_head) {\n		char* tmp = node_dequeue(&_tmp_file_head);", "	if (_tmp_file_head) {\n		char* tmp = node_dequeue(&_tmp_file_head);")],
  demo=r'''
mkdir sch; printf 'id,4,c\ns,5,c\n' > sch/lay
printf '   1abcde   2fghij' > fx
printf 'id\n1\n2\n' > t
mkfifo "$W/in"
"$W/b/fql" --schema-path sch -c "select f.s, x.id into o from lay.fx f left join __stdin x on f.id = x.id order by f.s" < "$W/in" >/dev/null 2>&1 &
p=$!
exec 9> "$W/in"
printf 'id\n1\n' >&9
sleep 2
kill -TERM $p
exec 9>&-
wait $p
n=$(ls | grep -v -x -e fx -e sch -e t -e o | wc -l)
[ "$n" = 0 ] || { echo "FAIL: left behind:"; ls; bad=1; }
''', needs="a signal while two or more temporary files exist", breaks="only one of several temporary files is removed when the program is interrupted"),
 dict(id="S21-defaultcopy", prop="S21",
  edits=[("lib/schema.c", "		self->io_type = src_schema->io_type;\n	}\n	self->is_default = src_schema->is_default;\n", "		self->io_type = src_schema->io_type;\n		self->is_default = src_schema->is_default;\n	}\n")],
  demo=r'''
mkdir sch; printf 'id,c\ns,c\n' > sch/lay
printf '1,abc\n2,def\n' > pl
expect "made, then changed" "" --schema-path sch -o -c "select * into [o] from lay.pl; delete f from [o] f where s = 'def'; select id into [o2] from [o]"
[ "$(cat o)" = '1,abc' ] || { echo "FAIL: o is"; cat o; bad=1; }
[ "$(cat o2)" = '1' ] || { echo "FAIL: o2 is"; cat o2; bad=1; }
''', needs="a headerless table selected into a file, that file changed in the same batch", breaks="a file made without a header gets one when a later statement of the batch changes it"),
]
