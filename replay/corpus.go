package main

import (
	"fmt"
	"strings"
)

// corpus holds sources chosen by hand: every rule at a later position, and
// combinations that ordinary sources do not contain.
func corpus() []string {
	c := []string{
		`database d;`,
		``,
		`database d`,
		`database d; database e;`,
		`database d; table t { a int, }`,
		`database d; table t { }`,
		`database d; table t { a int, b text, #i index(a), c int }`,
		`database d; table t { a int minlen(1) }`,
		`database d; table t { a int notnull primary unique maxlen(1) }`,
		`database d; table t { a text notnull primary unique default('x') max(1) }`,
		`database d; table t { a text max(1) notnull }`,
		`database d; table t { a blob min(1) max(2) minlen(3) maxlen(4) default('x') notnull unique primary }`,
		`database d; table t { a int min(1) max(2) min(3) }`,
		`database d; table t { a int, b int, c int, a text }`,
		`database d; table t { a int, #a index(a) }`,
		`database d; table t { a int, #x index(a), #y index(a), #x unique(a) }`,
		`database d; table t { a int, #x index(x) }`,
		`database d; table t { a int, #x index(a), #y index(x) }`,
		`database d; table t { a int, #x index(a, b) }`,
		`database d; table s { b int } table t { a int, #x index(b) }`,
		`database d; table t { a int, fk (a) ref u (b) } table u { b int }`,
		`database d; table t { a int, fk (b) ref u (b) } table u { b int }`,
		`database d; table t { a int, fk (a) ref u (a) } table u { b int }`,
		`database d; table t { a int, #x index(a), fk (x) ref t (a) }`,
		`database d; table t { a int, #x index(a), fk (a) ref t (x) }`,
		`database d; table t { a int, b int, fk (a) ref t (b) on_update cascade on_delete restrict }`,
		`database d; table t { a int, b int, fk (a, b) ref t (b, a) on_update do set_null, fk (b) ref t (a) on_delete do set_default on_update no_action }`,
		`database d; table t { a int, b int, fk (a) ref t (b) on_update cascade on_delete restrict on_update cascade }`,
		`database d; table t { a int, fk (a) ref x (a) }`,
		`database d; table t { a int, fk (a) ref t (a), fk (a) ref x (a) }`,
		`database d; table t { a int } table u { a int } table t { a int }`,
		`database d; use x as a; use y as b; use z as a;`,
		`database d; use x as a; use x as b;`,
		`database d; use x {k: 1, l: 'v', k: 2} as a; use y as x;`,
		`database d; use x as a; action f() public { x.m(); }`,
		`database d; use x as a; action f() public { a.m(); a.m(1, 'x'); }`,
		`database d; action f() public { g(); } action g() private { f(); }`,
		`database d; action f() public { init(); } init() { f(); }`,
		`database d; action f() public { h(); } action g() private { f(); }`,
		`database d; action f() public { select *; } action g() public { select *; } action f() private { select *; }`,
		`database d; action f($a, $b, $a) public { select *; }`,
		`database d; action f($a) public { select *; } action g() { f($a); }`,
		`database d; action f($a) public { f($a); f($b); }`,
		`database d; action f($a) public { f(1 + $b); }`,
		`database d; action f($a) public { f(1, 2, -(3 * ($a + abs(1, $b)))); }`,
		`database d; action f($a) public { f(not $b and 1); }`,
		`database d; action f($a) public { f(1 < $b); }`,
		`database d; action f($a) public { f($b >= 1); }`,
		`database d; action f($a) public { f($b * 1); }`,
		`database d; action f($a) public { f(lower(upper($b))); }`,
		`database d; action f($a) public { f(lower(@other)); }`,
		`database d; action f($a) public { f(@caller, lower(@caller)); }`,
		`database d; action f($a) public { f(@Caller); }`,
		`database d; use e as x; action f($a) public { $b = x.m($a); f($b); $c, $b = x.m($b); f($c); }`,
		`database d; use e as x; action f($a) public { $b = x.m($b); }`,
		`database d; use e as x; action f($a) public { $b, $c, $b = x.m($a); }`,
		`database d; use e as x; action f($a) public { $b = x.m($a); } action g() public { f($b); }`,
		`database d; use e as x; action f($a) public { x.m($c); $c = x.m(1); }`,
		`database d; use e as x; action f($a) public { $a = x.m(1); $a = x.m($a); }`,
		`database d; use e as x; init() { $b = x.m(); } action f() public { f($b); }`,
		`database d; use e as x; init() { $b = x.m(@caller, 1 and $b); }`,
		`database d; action f() public { $b = f(); f($b); }`,
		`database d; action f() public { $b, $b = f(); }`,
		`database d; action f() public { f(,1); f(1,2); f(); }`,
		`database d; action f(,$a) public { f($a); }`,
		`database d; action f() public { f(1 || 2); }`,
		`database d; action f() public { f(~1); }`,
		`database d; action f() public { f(1 == 2); }`,
		`database d; action f() public { f(abs(*)); }`,
		`database d; action f() public { f(nosuch(1)); }`,
		`database d; action f() public { f(1 and not 2 or 3); }`,
		`database d; action f($a) public { f($a and $a or not $a and 1); }`,
		`database d; action f() public { select * from; }`,
		`database d; action f() public { select *; select * from a cross join b; }`,
		`database d; action f() public { insert into t values (1, 'x'); delete from; }`,
		`database d; init() { select random(); }`,
		`database d; init() { select *; } init() { select *; }`,
		`database d; init() { select *; } action f() public { select *; } init() { select *; }`,
		`database d; init() { select *; } init() { select *; } init() { select *; }`,
		`database d; init() { select *; } action f() public { select *; }`,
		`database d; action f() { select *; }`,
		`database d; action f() owner view private { select *; }`,
		`database d; action f() owner public view { select *; } action g() view { select *; } action h() owner { select *; }`,
		`database d; action f() public view private { select *; }`,
		`database d; action f() view owner view { select *; }`,
		`database d; action f() owner owner { select *; }`,
		`database d; action f() owner view public owner { select *; }`,
		`database d; @a(x=1) @b(y='z', x=2) action f() public { select *; }`,
		`database d; @a(x='it\'s', y='(a, b=c)', z='\\') action f() public { select *; }`,
		`database d; @a() action f() public { select *; }`,
		"database d; @a ( x = 'a  b' ,\n y\t=\n1 ) action f() public { select *; }",
		"database d; action f() public { select *\n from t where a = 'x  y' ; }",
		"database d; action f() public { update t set a = 1  ; }",
		"database d; action f() public { SELECT\t* FROM t; WiTh c as (select 1) select * from c; }",
		"database d; action f() public { select '}' ; }",
		"database d; action f() public { select ';' ; }",
		"/* c */ database /* d */ d // e\n; // f",
		"database d; /* unterminated",
		"database d; ^",
		"database d; \x00",
		"database \xff d;",
		"database d; use x {k: 'é日'} as y;",
		"database d; use x {k: 'a\nb'} as y;",
		"DATABASE d;",
		"database D; table T { A int, a text }",
		"database d; table t { a INT }",
		"database d; table table { a int }",
		"database d; table select { a int }",
		"database d; table t { a int default(-1) }",
		"database d; table t { a int default(1.5) }",
		"database d; table t { a int min('x') }",
		"database d; table t { a int #x index(a) }",
		"database d; table t { a int, #x index() }",
		"database d; table t { a int, x index(a) }",
		"database d; table t { a int; }",
		"database d; table t { a int },",
		"database d; use x as y",
		"database d; table t { a int } use x as y;",
		"database d; action f() public { }",
		"database d; action f() public { select * }",
		"database d; action f() public { f() }",
		"database d; action f(a) public { select *; }",
		"database d; action f($a $b) public { select *; }",
		"database d; action f($a) public { f($a, ); }",
		"database d; action f() public { x.y.z(); }",
		"database d; @a(x=1) table t { a int }",
		"database d; @a(x=1) init() { select *; }",
		"database d; init($a) { select *; }",
		"database d; init() public { select *; }",
	}
	// many declarations: the offending one far from the first
	var t, a, e []string
	for i := 0; i < 12; i++ {
		t = append(t, fmt.Sprintf("table t%d { a%d int, b text, #i%d unique(a%d, b), fk (b) ref t%d (a%d) }", i, i, i, i, 11-i, 11-i))
		a = append(a, fmt.Sprintf("@n%d(v=%d) action f%d($p%d) public { f%d($p%d); select * from t; x%d.m(1); }", i, i, i, i, 11-i, i, i))
		e = append(e, fmt.Sprintf("use e%d as x%d;", i%3, i))
	}
	all := func(e, t, a []string) string {
		return "database d; " + strings.Join(e, " ") + strings.Join(t, "\n") + strings.Join(a, "\n")
	}
	c = append(c, all(e, t, a))
	with := func(l []string, i int, s string) []string {
		o := append([]string{}, l...)
		o[i] = s
		return o
	}
	for _, i := range []int{0, 5, 11} {
		c = append(c,
			all(with(e, i, "use e as x7; use e as x7;"), t, a),
			all(e, with(t, i, t[(i+1)%12]), a),
			all(e, t, with(a, i, a[(i+1)%12])),
			all(e, with(t, i, fmt.Sprintf("table t%d { a%d int, b text, fk (b) ref t%d (b, zz) }", i, i, i)), a),
			all(e, t, with(a, i, fmt.Sprintf("action f%d($q) view { f%d($p%d); }", i, i, i))),
			all(e, t, with(a, i, fmt.Sprintf("action f%d($q) view { f1(1); f2(2); e1.m(); }", i))),
			all(e, t, append(append([]string{"init() { f1(2); select *; }"}, a[:i]...), a[i:]...)),
		)
	}
	return c
}
