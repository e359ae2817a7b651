package hparse

import (
	"strconv"
	"strings"

	"github.com/HannesKimara/cddlc/zzverif/sym"
)

// list joins n items, with @ replaced by their numbers.
func list(n int, sep string, items ...string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(sep)
		}
		b.WriteString(strings.ReplaceAll(items[i%len(items)], "@", strconv.Itoa(i)))
	}
	return b.String()
}

func nest(n int, open, close, inner string) string {
	return strings.Repeat(open+" ", n) + inner + strings.Repeat(" "+close, n)
}

// longValued are long schemas; every name used in them is defined.
func longValued(n int) []string {
	rules := list(n, " | ", "r@ = int", "s@ /= [ 5 , r0 ]", "t@ = { k : tstr , ? l : 5 .. 0x1F }", "u@ //= ( k : s1 / t2 )")
	return []string{
		"a = " + nest(n, "[", "]", "%i"),
		"a = " + nest(n/2, "{ k : [", "] }", "%i / %t"),
		"a = " + nest(n/2, "( k : # _6.2 _(", ") )", "%t"),
		"a = " + nest(n/2, "[ * ( m : {", "} ) ]", "l : %i"),
		"a = [ %i , " + list(n, " , ", "k@ : int", "tstr", "? a", "* r", "m : [ 5 ]") + " , %t ] r = bool",
		"a = { %n : %t , " + list(n, " | ", "k@ : int ,", "? l@ : tstr ,", "* r => r ,", "5 : r / uint ,") + " %k : %i } r = bool",
		"a = ( %n : %t , " + list(n, " , ", "k@ : int", "? l@ : tstr", "r", "m : ( n : r )") + " , %n : %i ) r = bool",
		"a = %i / " + list(n, " / ", "int", "r", "5", "[ tstr ]", "# _6.2") + " / %t r = bool",
		"a = ( k : %i // " + list(n, " // ", "k@ : int", "r") + " // l : %t ) r = bool",
		rules + " | %n = [ r0 , %t ]",
		"%n = [ r0 , %t ] | " + rules,
		rules + " | " + rules0(n),
		"%N = %T a = { %N : { k : %T } }",
		"a = # _%g _( " + list(n, " / ", "6.2", "r", "\"t\"") + " ) r = bool",
		list(n, " | ", "a@ = uint .size 5", "b@ = tstr .regexp \"t\"", "c@ = 5 ... 5", "d@ = a .. 5", "e@ = uint .lt 5", "f@ = ~ a0", "a@ = 5") + " | g = tstr .regexp %t | a = 5 | h = a .. %i",
	}
}

// rules0 extends n names.
func rules0(n int) string { return list(n, " | ", "r0 /= 5", "r0 //= tstr", "t2 /= r4") }

// longNoted are long schemas with comments.
func longNoted(n int) []string {
	return []string{
		list(n, " | ", ";", "c@ = 5 ;note", "d@ = tstr", ";note") + " %c | %C | e = %i %C",
		"a = [ " + list(n, " ", ";n", "int ,", "; ;n", "| tstr ,") + " | int %c" + " ] %c | b = tstr",
		"a = { " + list(n, " ", ";n", "k@ : int ,", "; ;n", "| l@ : tstr ,") + " %c" + " } %c | b = tstr",
		list(n, " ", ";n") + " %c | a = int %c " + list(n, " ", ";", ";n") + " %c",
	}
}

// longUses are long sources that use names.
func longUses(n int) []string {
	rules := list(n, " | ", "r@ = int", "s@ /= [ r0 , s1 ]", "t@ = { k : r4 , ? l : 5 .. 0x1F }", "u@ //= ( k : s1 / t2 )")
	return []string{
		"x = [ %N , %n ] | " + rules + " | %n = %i",
		"%n = %i | " + rules + " | x = { k : %n / %N } | %N = tstr",
		"x = [ " + list(n, " , ", "y", "x", "k : x", "y") + " , %n , x , %n" + " ] | %n = tstr | y = bool",
		"x = " + nest(n/2, "[ { k :", "} , x ]", "%n") + " %n = tstr",
		"x = %n / " + list(n, " / ", "x", "y", "int") + " / %n | y = tstr | %n = int",
		"x = y y = uint " + list(n, " ", "b@ = x", "a@ = y") + " z = %n %n = x",
	}
}

// longDefinitions are long sources that define names.
func longDefinitions(n int) []string {
	rules := list(n, " | ", "r@ = int", "s@ /= [ r0 , s1 ]", "t@ = { k : r4 , ? l : 5 .. 0x1F }", "u@ //= ( k : s1 / t2 )")
	return []string{
		"%n = %i | " + rules + " | %n = tstr",
		rules + " | %n = %i | " + rules0(n) + " | %n = tstr | %N = tstr | %N = int",
		"%n = r0 | " + list(n, " | ", "r0 = int", "x@ = r0", "r0 /= tstr") + " | %n = tstr",
	}
}

// longMistaken are long sources in error.
func longMistaken(n int) []string {
	return []string{
		list(n, " | ", "a@ = int", "b@ = { k : tstr }") + " | x = [ %u .. %n",
		list(n, " | ", "a@ = tstr .size \"t\"", "b@ = b@", "a@ = 5 .. \"t\"", "c = d@", "( 5 ] ;") + " | x = %t" + " | x = %n",
		"a = [ " + list(n, " , ", "z", "z , z") + " , %n , 5 .. %t , tstr .lt b" + " ]",
		"a = { " + list(n, " , ", "k@ : int", "l : z", "? y") + " , 5 : ] | b = %u .. tstr",
		"a = " + nest(n/2, "{ k : [", "] }", "%t .. 5") + " b = %n",
		list(n, " | ", ";", ";n a = 5", ";n | b =") + " | %C | %c" + " | %N = ] %N",
	}
}

// templates are the long templates if LONG is their length, the others otherwise.
func templates(ts []string, long func(int) []string) []string {
	if n := sym.Param("LONG", 0); n > 0 {
		ts = long(n)
	}
	if i := sym.Param("ONLY", -1); i >= 0 {
		ts = ts[i : i+1]
	}
	return ts
}
