"""C36: what a program does is independent of the sizes of its parts.

Every construct that can be repeated or prolonged (variables, parameters, captures, elements, statements, branches, operators,
texts, names, arguments, commands, stages, redirections, files, modules, ...) is built at every size from 0 up to a bound and at
the powers of two and their neighbours above, and its result compared with the denoted one."""
import base64
import itertools
import multiprocessing
import os
import shutil

from vlib import core
from vlib.lang import lit_str

TECHNIQUE = 'exhaustive enumeration of sizes of every repeatable construct (all up to a bound, then powers of two and their neighbours), executed on the real interpreter against the denoted result'

PANIC = 'value (nil) has unexpected type, expected int or float'

FAM = []


def fam(top, low=0, cmd=False):
	def deco(f):
		FAM.append((f.__name__.replace('_', ' '), f, low, top, cmd))
		return f
	return deco


def J(sep, it):
	return sep.join(it)


def out(*vals):
	return ('\t'.join(str(v) for v in vals) + '\n')


def R(n):
	return range(n)


# ---------------------------------------------------------------------- programs
@fam(5000)
def globals_(n):
	return J('\n', ('let v%d = %d' % (i, i) for i in R(n))) + '\nstd.println(0%s)' % J('', ('+ v%d' % i for i in R(min(n, 500)))) + '\n' + J('\n', ('v%d = v%d + 1' % (i, i) for i in R(n))) + '\n' + J('\n', ('std.println(v%d)' % i for i in R(n))), out(sum(R(min(n, 500)))) + J('', (out(i + 1) for i in R(n)))


@fam(5000)
def locals_(n):
	return 'let f = function(x)\n' + J('\n', ('let v%d = %d + x' % (i, i) for i in R(n))) + '\n' + J('\n', ('std.println(v%d, x)' % i for i in R(n))) + '\n nil end\nf(1) f(2)', J('', (out(i + x, x) for x in (1, 2) for i in R(n)))


@fam(3000)
def parameters(n):
	ps = J(', ', ('p%d' % i for i in R(n)))
	return 'let f = function(%s)\nstd.println(%s)\nlet r = [%s]\nr end\nstd.println(std.len(f(%s)))\nstd.println(std.catch(function() f(%s) end).description)' % (ps, ps, ps, J(', ', map(str, R(n))), J(', ', map(str, R(n + 1)))), \
		out(*R(n)) + out(n) + 'caught panic: Panic in t.hsh (line 6, column 34): incorrect amount of function parameters -- supplied %d, expected %d\n' % (n + 1, n)


@fam(3000)
def captures(n):
	return 'let mk = function(x)\n' + J('\n', ('let v%d = %d + x' % (i, i) for i in R(n))) + '\nlet inc = function()\n' + J('\n', ('v%d = v%d + 10' % (i, i) for i in R(n))) + '\nnil end\nlet show = function()\n' + J('\n', ('std.println(v%d)' % i for i in R(n))) + '\nnil end\n@[ inc: inc, show: show ]\nend\nlet a = mk(0)\nlet b = mk(5)\na.inc()\na.show()\nb.show()', \
		J('', (out(i + 10) for i in R(n))) + J('', (out(i + 5) for i in R(n)))


@fam(30)
def capture_depth(n):
	return 'let f = function()\nlet x = 1\n' + 'let y = function()\n' * n + 'x = x + 1\nx\n' + 'end\n%s\n'.replace('%s', 'y()') * n + 'end\nstd.println(f(), f())', out(2, 2)


@fam(20000)
def array_literal(n):
	return 'let a = [ %s ]\nstd.println(std.len(a))\nlet k = 0\nfor x in std.iter(a) do if x != k then std.println("bad", x) end k = k + 1 end' % J(', ', map(str, R(n))), out(n)


@fam(10000)
def dict_literal(n):
	return 'let a = @[ %s ]\nstd.println(std.len(a))\nfor k in std.range(0, %d, 1) do if a["k" ++ std.to_string(k)] != k then std.println("bad", k) end end%s' % (J(', ', ('k%d: %d' % (i, i) for i in R(n))), n, '\nstd.println(a.k%d)' % (n - 1) if n else ''), out(n) + (out(n - 1) if n else '')


@fam(20000)
def statements(n):
	return 'let k = 0\n' + 'k = k + 1\n' * n + 'std.println(k)', out(n)


@fam(3000)
def statements_in_a_block(n):
	return 'let k = 0\nlet f = function() ' + 'k = k + 1\n' * n + ' k end\nstd.println(f())\nif true then ' + 'k = k + 1 ' * n + ' end\nstd.println(k)', out(n) + out(2 * n)


@fam(400)
def elseif_chain(n):
	return 'let f = function(x)\nif x == -1 then "first"\n' + J('\n', ('elseif x == %d then %d' % (i, i * 2) for i in R(n))) + '\nelse "last" end\nend\nstd.println(f(-1), f(0), f(%d), f(%d))' % (n // 2, n - 1), out('first', 0 if n > 0 else 'last', n // 2 * 2 if n > 0 else 'last', (n - 1) * 2 if n > 0 else 'first')


@fam(60)
def nested_blocks(n):
	return 'let x = 0\n' + 'if true then\nlet x = x + 1\n'.replace('let x = x + 1', 'let y = 1 x = x + y') * n + 'std.println(x)\n' + 'end\n' * n, out(n)


@fam(40)
def nested_loops(n):
	return 'let k = 0\n' + J('\n', ('for i%d in std.range(0, 1, 1) do while true do' % i for i in R(n))) + '\nk = k + 1\n' + 'break end end\n' * n + 'std.println(k)', out(1)


@fam(2000)
def functions(n):
	return J('\n', ('function f%d(x) x + %d end' % (i, i) if False else 'let f%d = function(x) x + %d end' % (i, i) for i in R(n))) + '\nlet s = 0\n' + J('\n', ('s = s + f%d(1)' % i for i in R(n))) + '\nstd.println(s)', out(sum(R(n)) + n)


@fam(2000)
def closures(n):
	return 'let a = []\nfor i in std.range(0, %d, 1) do let mk = function(j) function() j = j + 1 j end end std.push(a, mk(i)) end\nlet s = 0\nfor f in std.iter(a) do s = s + f() f() end\nfor f in std.iter(a) do s = s + f() end\nstd.println(s)' % n, out(sum(R(n)) * 2 + n + 3 * n)


@fam(300000)
def string_literal(n):
	t = bytes(97 + i % 26 for i in R(n))
	return 'let s = "%s"\nstd.println(std.len(s))\nstd.println(s)' % t.decode(), out(n) + t.decode() + '\n'


@fam(20000)
def escapes(n):
	return 'let s = "%s"\nstd.println(std.len(s))\nstd.print(s)' % ('\\n' * n), out(n) + '\n' * n


@fam(70000)
def identifiers(n):
	a, b, c = 'x' * n + 'a', 'x' * n + 'b', 'x' * n + 'aa'
	return 'let %s = 1\nlet %s = 2\nlet %s = 3\nstd.println(%s, %s, %s)\nlet d = @[ %s: 4, %s: 5 ]\nstd.println(d.%s, d["%s"])' % (a, b, c, a, b, c, a, b, a, b), out(1, 2, 3) + out(4, 5)


@fam(300000)
def comments(n):
	return 'std.println(1) # %s\nstd.println(2)\n#%s' % ('c ' * n, 'd' * n), out(1) + out(2)


@fam(300000)
def spaces(n):
	return 'std.println(%s1%s,2%s)%s\nstd.println(3)%s' % (' ' * n, '\t' * n, '\n' * n, ' ' * n, '\n' * n), out(1, 2) + out(3)


@fam(19, 1)
def digits(n):
	return 'std.println(%s, %s.5, 0.%s, %se2)' % ('9' * min(n, 18), '1' * n if n < 16 else '1', '0' * (n - 1) + '1' if n < 5 else '5', '2'), out('9' * min(n, 18), ('1' * n if n < 16 else '1') + '.5', '0.' + ('0' * (n - 1) + '1' if n < 5 else '5'), '200.0')


@fam(50000)
def leading_zeros(n):
	return 'std.println(%s1, %s1.5, 1.5%s)' % ('0' * n, '0' * n, '0' * n), out(1, '1.5', '1.5')


@fam(400, 1)
def sum_chain(n):
	return 'std.println(%s)\nlet f = function() %s end\nstd.println(f())' % (J(' + ', map(str, R(n))), J(' - ', map(str, R(n)))), out(sum(R(n))) + out(-sum(R(n)))


@fam(400, 1)
def concat_chain(n):
	return 'std.println(%s)' % J(' ++ ', ('"%d"' % (i % 10) for i in R(n))), out(J('', (str(i % 10) for i in R(n))))


@fam(300, 1)
def logic_chain(n):
	return 'let k = 0 let t = function() k = k + 1 true end let f = function() k = k + 1 false end\nstd.println(%s, k)\nk = 0\nstd.println(%s, k)\nk = 0\nstd.println(%s, k)' % (J(' and ', ['t()'] * n), J(' or ', ['f()'] * n), J(' and ', ['t()'] * (n - 1) + ['f()'] + ['t()'])), out('true', n) + out('false', n) + out('false', n)


@fam(100)
def prefix_chain(n):
	return 'std.println(%strue, %s(1))' % ('not ' * n, '- ' * n) if n else 'std.println(true, 1)', out('true' if n % 2 == 0 else 'false', 1 if n % 2 == 0 else -1)


@fam(100)
def parentheses(n):
	return 'let x = %s1%s + 1\nstd.println(x)' % ('(' * n, ')' * n), out(2)


@fam(300)
def method_chain(n):
	return 'let o = @[ n: 0 ]\no.m = function(k) self.n = self.n + k self end\nstd.println(o%s.n)' % J('', ('.m(%d)' % i for i in R(n))), out(sum(R(n)))


@fam(300)
def field_chain(n):
	return 'let o = @[ v: 7 ]\no.o = o\no["p"] = [ o ]\nstd.println(o%s.v, o%s.v)\no%s.v = 8\nstd.println(o.v)' % ('.o' * n, '["p"][0]' * n, '.o' * n), out(7, 7) + out(8)


@fam(200)
def try_chain(n):
	return 'let f = function(x) x%s end\nstd.println(f(1), std.type(f(std.error("e", 1))))' % ('?' * n), out(1, 'error')


@fam(150)
def nested_calls(n):
	return 'let f = function(x) x + 1 end\nstd.println(%s0%s)' % ('f(' * n, ')' * n), out(n)


@fam(100)
def nested_literals(n):
	return 'let a = %s1%s\nlet k = 0\nwhile std.type(a) == "array" do a = a[0].v k = k + 1 end\nstd.println(a, k)' % ('[@[ v: ' * n, ']]' * n), out(1, n)


@fam(300)
def recursion(n):
	return 'let f = function(k) if k == 0 then 0 else 1 + f(k - 1) end end\nstd.println(f(%d))' % n, out(n)


@fam(150)
def nested_catch(n):
	return 'let f = nil f = function(k) if k == 0 then std.panic("deep") end let r = std.catch(function() f(k - 1) end) std.panic(k) end\nstd.println(std.type(std.catch(function() f(%d) end)))\nlet g = nil g = function(k) if k == 0 then 0 else std.catch(function() g(k - 1) + 1 end) end end\nstd.println(g(%d))' % (n, n), out('error') + out(n)


@fam(100000)
def iterations(n):
	return 'let k = 0\nfor i in std.range(0, %d, 1) do k = k + 1 if i == %d then std.println("last") end end\nlet w = 0\nwhile w < %d do w = w + 1 end\nstd.println(k, w)' % (n, n - 1, n), (out('last') if n else '') + out(n, n)


@fam(20000)
def panics(n):
	return 'let k = 0\nfor i in std.range(0, %d, 1) do let e = std.catch(function() [ i, k = nil + i ] end) end' .replace('[ i, k = nil + i ]', 'k = k + 1 nil + i') % n + '\nstd.println(k)', out(n)


# ---------------------------------------------------------------------- values
@fam(50000)
def array_growth(n):
	return 'let a = []\nfor i in std.range(0, %d, 1) do std.push(a, i) end\nstd.println(std.len(a), std.contains(a, %d), std.contains(a, %d))\nlet s = 0\nfor i in std.range(0, %d, 1) do s = s + a[i] a[i] = -i end\nlet t = 0\nwhile not std.is_empty(a) do t = t + std.pop(a) end\nstd.println(s, t)' % (n, n - 1, n, n), out(n, 'true' if n else 'false', 'false') + out(sum(R(n)), -sum(R(n)))


@fam(20000)
def dict_growth(n):
	return 'let d = @[]\nfor i in std.range(0, %d, 1) do d[i] = i * 3 d["s" ++ std.to_string(i)] = i end\nstd.println(std.len(d))\nlet s = 0\nfor i in std.range(0, %d, 1) do s = s + d[i] + d["s" ++ std.to_string(i)] end\nlet t = 0\nfor e in std.iter(d) do t = t + e.value end\nstd.println(s, t, std.contains(d, %d))' % (n, n, n), out(2 * n) + out(4 * sum(R(n)), 4 * sum(R(n)), 'false')


@fam(20)
def string_doubling(n):
	return 'let s = "ab"\nfor i in std.range(0, %d, 1) do s = s ++ s end\nstd.println(std.len(s), s[0], s[std.len(s) - 1], s == std.substr(s, 0, std.len(s)))' % n, out(2 << n, 'a', 'b', 'true')


@fam(30000)
def string_functions(n):
	h = ('x' * n).encode()
	return 'let s = "%s"\nstd.println(std.len(std.split(s, "x")), std.len(std.replace(s, "x", "yz")), std.len(std.bytes(s)), std.len(std.trim(" " ++ s ++ " ")), std.len(std.substr(s ++ "q", %d, 1)))\nlet k = 0\nfor c in std.iter(s) do k = k + 1 end\nstd.println(k, std.len(std.hex.encode(s)), std.hex.decode(std.hex.encode(s)) == s, std.base64.decode(std.base64.encode(s)) == s, std.len(std.base64.encode(s)), std.json.decode(std.json.encode(s)) == s)' % ('x' * n, n), \
		out(n + 1, 2 * n, n, n, 1) + out(n, 2 * n, 'true', 'true', len(base64.b64encode(h)), 'true')


@fam(20000)
def regex_sizes(n):
	s = J('', ('a' * (i % 3) + 'b' for i in R(n)))
	return 'let r = std.regex("a*b")\nlet s = "%s"\nstd.println(std.len(r.split(s)), std.len(r.replace(s, "<>")), r.match(s))' % s, out(n + 1, 2 * n, 'true' if n else 'false')


@fam(10000)
def sort_sizes(n):
	p = 7919
	return 'let a = []\nfor i in std.range(0, %d, 1) do std.push(a, (i * %d) %% %d) end\nstd.sort(a)\nlet bad = 0\nfor i in std.range(0, %d, 1) do if a[i] != i then bad = bad + 1 end end\nstd.println(bad, std.len(a))' % (n, next(q for q in (7919, 7927, 7933, 7937) if n == 0 or n % q), max(n, 1), n), out(0, n)


@fam(10000)
def json_sizes(n):
	return 'let a = []\nfor i in std.range(0, %d, 1) do std.push(a, @[ k: i ]) end\nlet b = std.json.decode(std.json.encode(a))\nstd.println(std.len(b), a == b)' % n, out(n, 'true')


@fam(100)
def json_depth(n):
	return 'let a = 1\nfor i in std.range(0, %d, 1) do a = [ a ] end\nlet b = std.json.decode(std.json.encode(a))\nstd.println(a == b)' % n, out('true')


@fam(200)
def value_depth(n):
	return 'let a = 1\nlet b = 1\nfor i in std.range(0, %d, 1) do a = [ a ] b = [ b ] end\nlet d = @[]\nd[a] = 5\nstd.println(a == b, d[b], std.len(std.to_string(a)), std.has_error(a))' % n, out('true', 5, 1 + 4 * n, 'false')


@fam(20000)
def print_arguments(n):
	return 'std.println(%s)\nstd.print(%s)' % (J(', ', map(str, R(n))), J(', ', map(str, R(n)))), out(*R(n)) + '\t'.join(map(str, R(n)))


@fam(140000)
def line_numbers(n):
	return 'let e = std.catch(function()%s nil + 1 end)\nstd.println(e.description)' % ('\n' * n), 'caught panic: Panic in t.hsh (line %d, column %d): %s\n' % (n + 1, 1 if n else 29, PANIC)


@fam(140000)
def columns(n):
	return '%slet e = std.catch(function() nil + 1 end)\nstd.println(e.description)' % (' ' * n), 'caught panic: Panic in t.hsh (line 1, column %d): %s\n' % (n + 29, PANIC)


@fam(140000, 1)
def light_locals(n):
	return ('let f = function(x)\n' + J('\n', ('let v%d = %d' % (i, i) for i in R(n))) + '\nlet g = function() v0 = v0 + 1000000 v%d = v%d + x v%d end\nlet r = [ v0, v%d, g(), v0, v%d ]\nr\nend\nstd.println(f(1))\nstd.println(f(2))' % (n - 1, n - 1, n - 1, n // 2, n - 1),
		J('', ('[ %s ]\n' % ', '.join(map(str, [0, n // 2, n - 1 + x + (0 if n > 1 else 1000000), 1000000 + (0 if n > 1 else x), n - 1 + x + (0 if n > 1 else 1000000)])) for x in (1, 2))))


@fam(140000, 1)
def light_globals(n):
	return J('\n', ('let v%d = %d' % (i, i) for i in R(n))) + '\nlet f = function() v%d = v%d + 1 v%d end\nstd.println(v0, v%d, f(), v%d)\nlet e = std.catch(function() v%d + nil end)\nlet last = "last"\nstd.println(f(), last)' % (n - 1, n - 1, n - 1, n // 2, n - 1, n - 1), \
		out(int(n == 0), n // 2, n, n) + out(n + 1, 'last')


@fam(70000)
def light_elements(n):
	return 'let a = [ %s ]\nlet s = 0\nfor x in std.iter(a) do s = s + x end\nstd.println(std.len(a), s)' % J(', ', map(str, R(n))), out(n, sum(R(n)))


@fam(8300)
def light_keys(n):
	return 'let d = @[ %s ]\nlet s = 0\nfor x in std.iter(d) do s = s + x.value end\nstd.println(std.len(d), s, std.contains(d, "k%d"), std.contains(d, "k%d"))' % (J(', ', ('k%d: %d' % (i, i) for i in R(n))), n - 1, n), out(n, sum(R(n)), 'true' if n else 'false', 'false')


@fam(140000)
def light_statements(n):
	return 'let x = 0\n%slet f = function() %s x end\nstd.println(x, f())' % ('x = x + 1\n' * n, 'x = x + 2\n' * n), out(n, 3 * n)


@fam(4200)
def light_functions(n):
	return 'let a = []\nlet x = 7\n' + J('\n', ('std.push(a, function() x + %d end)' % i for i in R(n))) + '\nlet s = 0\nfor f in std.iter(a) do s = s + f() end\nstd.println(s, std.len(a))', out(7 * n + sum(R(n)), n)


@fam(40000)
def light_captures(n):
	return 'let mk = function()\n' + J('\n', ('let v%d = %d' % (i, i) for i in R(n))) + '\nlet f = function() let s = [ %s ]\ns end\nf\nend\nlet g = mk()\nlet s = 0\nfor x in std.iter(g()) do s = s + x end\nstd.println(s, std.len(g()))' % J(', ', ('v%d' % i for i in R(n))), out(sum(R(n)), n)


@fam(70000)
def light_arguments(n):
	return 'let s = 0\nlet f = function(%s) std.len([ %s ]) end\nstd.println(f(%s))' % (J(', ', ('p%d' % i for i in R(n))), J(', ', ('p%d' % i for i in R(n))), J(', ', map(str, R(n)))), out(n)


@fam(2000, 1)
def regex_length(n):
	return 'let r = std.regex("^%s$")\nstd.println(r.match("%s"), r.match("%s"), std.regex("^(%s)$").match("w%d"), std.regex("^a{%d}$").match("%s"))' % ('ab' * n, 'ab' * n, 'ab' * n + 'a', J('|', ('w%d' % i for i in R(n))), n - 1, min(n, 900), 'a' * min(n, 900)), out('true', 'false', 'true', 'true')


@fam(50000)
def error_text(n):
	return 'let e = std.error("%s", [ "%s" ])\nlet f = function() e? end\nlet g = f()\nstd.println(std.len(g.description), std.len(g.context[0]), g == e)' % ('m' * n, 'c' * n), out(n, n, 'true')


@fam(3000)
def exported(n):
	return 'for i in std.range(0, %d, 1) do std.export("HVX" ++ std.to_string(i), std.to_string(i)) end\nlet s = 0\nfor i in std.range(0, %d, 1) do s = s + std.int(std.env("HVX" ++ std.to_string(i))) end\nstd.println(s, std.env("HVX%d"))' % (n, n, n), out(sum(R(n)), 'nil')


@fam(20000)
def string_keys(n):
	return 'let d = @[]\nd["%sa"] = 1\nd["%sb"] = 2\nd["%s"] = 3\nstd.println(d["%sa"], d["%sb"], d["%s"], std.len(d), "%sa" < "%sb", "%s" < "%sa", "%sa" == "%sa")' % (('k' * n,) * 12), out(1, 2, 3, 3, 'true', 'true', 'true')


@fam(300)
def rethrown(n):
	return 'let f = nil f = function(k) if k == 0 then std.error("e", 0) else let v = f(k - 1)? v + 1 end end\nlet e = f(%d)\nstd.println(e.description, e.context)\nlet g = nil g = function(k) if k == 0 then return 7 end return g(k - 1) end\nstd.println(g(%d))' % (n, n), out('e', 0) + out(7)


@fam(5000)
def bound(n):
	return 'let o = @[ k: 0 ]\nlet f = std.bind(o, function(x) self.k = self.k + x self end)\nfor i in std.range(0, %d, 1) do f = std.bind(f(i), f) end\nstd.println(o.k)' % min(n, 200), out(sum(R(min(n, 200))))


# ---------------------------------------------------------------------- commands
@fam(3000, cmd=True)
def expanded_names(n):
	if n == 0:
		return 'nil', ''
	return 'for i in std.range(0, %d, 1) do let p = "g" ++ std.to_string(10000 + i) { : > $p } end\n{ printf "%%s." g* }' % min(n, 200), J('', ('./g%d.' % (10000 + i) for i in R(min(n, 200))))


@fam(5000, cmd=True)
def arguments(n):
	src = '{ printf "%s," ' + J(' ', ('a%d' % i for i in R(n))) + ' }\nlet a = []\nfor i in std.range(0, ' + str(n) + ', 1) do std.push(a, i) end\n{ printf "%s;" $a }'
	return src, (J('', ('a%d,' % i for i in R(n))) or ',') + (J('', ('%d;' % i for i in R(n))) or ';')


@fam(65000, cmd=True)
def argument_length(n):
	t = 'y' * n
	return 'let v = "%s"\n{ printf "%%s" "%s" "$v" %s"$v" }' % (t, t, t), t * 4


@fam(3000, cmd=True)
def argument_parts(n):
	return 'let v = "-"\n{ printf "%%s" x%s }' % J('', ('"%d"$v' % (i % 10) for i in R(n))), 'x' + J('', ('%d-' % (i % 10) for i in R(n)))


@fam(200, 1, cmd=True)
def commands(n):
	return '{\n%s\n}' % J('\n', ('printf %d;' % (i % 10) for i in R(n))), J('', (str(i % 10) for i in R(n)))


@fam(60, 1, cmd=True)
def pipeline(n):
	return '{ printf x | %s }\nlet c = ${ printf y | %s }\nstd.print(c.stdout)' % (J(' | ', ['sed "s/$/./"'.replace('$', '\\$')] * n), J(' | ', ['cat'] * n)), 'x' + '.' * n + 'y'


@fam(100, cmd=True)
def redirections(n):
	return '{ printf a %s }\n{ cat %s }\nstd.println(std.len(std.glob("f*")))' % (J(' ', ('>"f%d"' % i for i in R(n))), '"f%d"' % (n - 1) if n else '"/dev/null"'), 'a' + out(n)


@fam(200, cmd=True)
def environment(n):
	return '{ %s sh -c "env | grep -c ^HV; echo [\\$HV0] [\\$HV%d]" }' % (J(' ', ('HV%d=%d' % (i, i) for i in R(n))), max(n - 1, 0)), out(n) + ('[0] [%d]\n' % (n - 1) if n else '[] []\n')


@fam(300000, cmd=True)
def captured_bytes(n):
	return 'let c = ${ head -c %d /dev/zero }\nlet d = ${ sh -c "head -c %d /dev/zero >&2" }\nstd.println(std.len(c.stdout), std.len(c.stderr), std.len(d.stdout), std.len(d.stderr))' % (n, n), out(n, 0, 0, n)


@fam(200000, cmd=True)
def literal_input(n):
	t = 'z' * n
	return 'let v = "%s"\n{ wc -c << "%s" }\n{ wc -c << "$v" }\n{ cat << "$v" | wc -c }' % (t, t), out(n + 1) * 3


@fam(60, cmd=True)
def asynchronous(n):
	return 'let j = []\nfor i in std.range(0, %d, 1) do let k = i std.push(j, &{ sh -c "exit $k" }) end\nlet s = 0\nfor i in std.range(0, %d, 1) do let e = j[i].join() if e != nil then s = s + e.context.status end end\nstd.println(s)' % (n, n), out(sum(R(n)))


@fam(60, cmd=True)
def failures(n):
	return 'let e = { %s }\nif e == nil then std.println(0) elseif std.type(e.context) == "array" then std.println(std.len(e.context)) else std.println(1) end' % (J('; ', ['false ?'] * n + ['true'])), out(n)


@fam(60, cmd=True)
def sequential_captures(n):
	return 'let t = ""\nfor i in std.range(0, %d, 1) do t = t ++ ${ printf "%%s," $i }.stdout end\nstd.println(t)' % n, out(J('', ('%d,' % i for i in R(n))))


def sizes(low, top, dense):
	s = set(range(low, min(top, dense) + 1))
	k = 1
	while k <= top:
		s |= {x for x in (k - 1, k, k + 1) if low <= x <= top}
		k *= 2
	s |= {x for x in (100, 999, 1000, 1001, 10000, top) if low <= x <= top}
	return sorted(s)


def check(ctx):
	q = ctx.quick
	jobs = []
	for name, f, low, top, cmd in FAM:
		dense = (20 if cmd else 40) if q else (130 if cmd else 300)
		jobs += [(name, f, n) for n in sizes(low, top, dense) if not q or n <= max(1025, top // 4) or top >= 70000]

	# A construct that fails at several sizes is not tried further: failing may take its time.
	order = {name: i for i, (name, *_) in enumerate(FAM)}
	failures_of = multiprocessing.Array('i', len(FAM))

	def work(job):
		name, f, n = job
		if failures_of[order[name]] >= 4:
			return name, n, None
		src, want = f(n)
		d = ctx.tmpdir()
		with open(os.path.join(d, 't.hsh'), 'wb') as o:
			o.write(src.encode() + b'\n')
		r = ctx.run(script='t.hsh', cwd=d, timeout=100)
		shutil.rmtree(d, ignore_errors=True)
		if r.rc == 0 and r.out == want.encode() and not r.err:
			return name, n, None
		with failures_of.get_lock():
			failures_of[order[name]] += 1
		return name, n, ('%s of size %d' % (name, n), 'expected: %r\n%s' % (want[-300:], r.brief()), {'t.hsh': src if len(src) < 200000 else src[:200000]})

	jobs.sort(key=lambda j: j[2])
	# The large ones first but for the first few of each construct, so that the smallest failing size is found before giving up.
	jobs = [j for j in jobs if j[2] <= 40] + [j for j in jobs if j[2] > 40][::-1]
	done, failed = 0, {}
	for name, n, bad in ctx.pmap(work, jobs):
		done += 1
		if bad:
			failed.setdefault(name, []).append((n, bad))
	# Of every construct only the smallest failing size is reported.
	for name, l in failed.items():
		ctx.violation(*min(l, key=lambda x: x[0])[1])

	# Modules: many, and chains of imports.
	for n in sizes(1, 40 if q else 120, 12):
		d = ctx.tmpdir()
		for i in range(n):
			with open(os.path.join(d, 'm%d.hsh' % i), 'w') as o:
				o.write('std.println("m%d")\nlet x = %s\n@[ n: %d, x: x ]\n' % (i, 'std.import("m%d.hsh").n' % (i + 1) if i + 1 < n else '-1', i))
		with open(os.path.join(d, 't.hsh'), 'w') as o:
			o.write(''.join('std.println(std.import("m%d.hsh").x)\n' % i for i in range(n)))
		want = ''.join('m%d\n' % i for i in range(n)) + ''.join('%d\n' % (i + 1 if i + 1 < n else -1) for i in range(n))
		r = ctx.run(script='t.hsh', cwd=d)
		done += 1
		if r.out != want.encode() or r.rc:
			ctx.violation('chain of %d modules' % n, 'expected: %r\n%s' % (want, r.brief()), {})
	# Script arguments, path lengths, lines of input.
	for n in sizes(0, 4000, 20):
		r = ctx.run(b'let a = std.args()\nlet s = 0\nfor x in std.iter(a) do s = s + std.int(x) end\nstd.println(std.len(a), s)\n', args=[str(i) for i in range(n)])
		done += 1
		if r.out != out(n, sum(range(n))).encode():
			ctx.violation('%d script arguments' % n, r.brief(), {})
	for n in sizes(1, 3000, 20):
		d = ctx.tmpdir()
		parts, left = [], n
		while left > 0:
			parts.append('p' * min(left, 200))
			left -= 201
		try:
			os.makedirs(os.path.join(d, *parts))
			with open(os.path.join(d, *parts, 't.hsh'), 'w') as o:
				o.write('std.println("here")\nstd.panic(1)\n')
		except OSError:
			continue
		path = os.path.join(*parts, 't.hsh')
		r = ctx.run(script=path, cwd=d)
		done += 1
		if r.out != b'here\n' or r.rc != 127 or path.encode() + b' (line 2' not in r.err:
			ctx.violation('script path of %d bytes' % len(path), r.brief(), {})
	for n in sizes(0, 200000, 20):
		r = ctx.run(b'let a = std.read()\nlet b = std.read()\nstd.println(std.len(a), b)\n', stdin=b'l' * n + b'\nsecond\n')
		done += 1
		if r.out not in (out(n + 1, 'second\n').encode(), out(n, 'second').encode()):
			ctx.violation('input line of %d bytes' % n, r.brief(), {})
	for n in sizes(0, 20000, 20):
		src = b'let a = []\nlet l = std.read()\nwhile l != "" and l != nil and std.type(l) == "string" do std.push(a, l) l = std.read() end\nstd.println(std.len(a))\n'
		r = ctx.run(src, stdin=b''.join(b'%d\n' % i for i in range(n)), timeout=100)
		done += 1
		if r.out != out(n).encode():
			ctx.violation('%d input lines' % n, r.brief(), {'t.hsh': src})
	ctx.add('states', done)
	ctx.add('traces_validated_against_impl', done)
	return {'exhaustive': True, 'rule': '%d runs: %d constructs at all sizes to %d (%d for commands) and at the powers of two and their neighbours up to a bound of each (20 to 300000)' % (done, len(FAM) + 6, 40 if q else 300, 20 if q else 130)}
