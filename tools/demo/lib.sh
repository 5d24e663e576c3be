# sourced by demo.sh: builds fql once, offers a scratch directory and check functions
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
W=$(mktemp -d) || exit 99
trap 'rm -r "$W"' EXIT
bash "$here/build_fql.sh" "$W/b" || { echo "build failed"; exit 99; }
mkdir "$W/d"; cd "$W/d" || exit 99
bad=0
# expect NAME EXPECTED-OUTPUT fql-arguments... : compares standard output
expect() {
	local name=$1 want=$2; shift 2
	local got; got=$(timeout 20 "$W/b/fql" "$@" 2>"$W/err"); local rc=$?
	if [ "$got" != "$want" ]; then
		echo "FAIL $name (exit $rc)"; echo "--- expected"; echo "$want"; echo "--- got"; echo "$got"; head -5 "$W/err"
		bad=1
	fi
}
finish() { if [ $bad = 0 ]; then echo "demo: ok"; fi; exit $bad; }
